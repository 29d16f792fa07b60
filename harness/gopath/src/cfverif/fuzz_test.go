package cfverif

// Coverage-guided fuzzing of the readers (thorough tier only; go's own fuzzing engine).

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"unicode"

	CF "github.com/ryanbressler/CloudForest"
)

var fuzzTables = []string{
	".\ta\tb\tc\nN:x\t1\t2.5\tNA\nC:y\tp\tq\t?\nB:z\ttrue\tfalse\t\n",
	".\tN:x\tC:y\tB:z\na\t1\tp\ttrue\nb\t-2e3\tq\tnull\nc\tnan\tr\tfalse\n",
	".\ta\nN:x\tInf\nN:y\t0x1p4\nC:z\tN:a\n",
	"N:x\tC:y\n1\tp\n2\tq\n",
	".\ta\tb\n\nN:x\t1\t2\n",
}

var fuzzArff = []string{
	"@relation r\n@attribute x numeric\n@attribute y {p,q}\n@data\n1,p\n?,q\n",
	"% c\n@RELATION r\n\n@ATTRIBUTE x REAL\n@ATTRIBUTE y {p,q}\n@DATA\n% c\n1.5, p\n2,?\n",
}

var fuzzSVM = []string{"1.5 1:2 3:4\n-1.0 2:1e3\n", "1 1:1\n0 4:2.5\n1\n"}

var fuzzForests = []string{
	"FOREST=0,TARGET=\"N:y\",INTERCEPT=0.5\nTREE=0,TARGET=\"N:y\",WEIGHT=0.1\nNODE=*,SPLITTER=\"N:x\",SPLITTERTYPE=NUMERICAL,LVALUES=1.5,RVALUES=1.5\nNODE=*L,PRED=1\nNODE=*R,PRED=-2.5\n",
	"TREE=0,TARGET=\"C:y\"\nNODE=*,SPLITTER=\"C:a,b\",SPLITTERTYPE=CATEGORICAL,LVALUES=\"a:b=c\",RVALUES=\"d\"\nNODE=*L,PRED=\"p,q\"\nNODE=*R,PRED=q\nNODE=*M,PRED=q\nTREE=1,TARGET=\"C:y\"\nNODE=*,PRED=p\n",
}

// blankCell says whether a cell is one of the missing markers of every feature.
func blankCell(s string) bool {
	switch strings.ToLower(s) {
	case "", "?", "nan", "na", "null":
		return true
	}
	return false
}

// FuzzC01_Table compares the reader with cutting the text at its tabs and line ends.
func FuzzC01_Table(f *testing.F) {
	for _, s := range fuzzTables {
		f.Add(s)
	}
	f.Fuzz(func(t *testing.T, text string) {
		if strings.ContainsAny(text, "\"\r") || len(text) > 1<<16 {
			return
		}
		var rows [][]string
		for _, l := range strings.Split(text, "\n") {
			if l != "" {
				rows = append(rows, strings.Split(l, "\t"))
			}
		}
		dir := t.TempDir()
		fn := filepath.Join(dir, "d.afm")
		if os.WriteFile(fn, []byte(text), 0o600) != nil {
			t.Skip()
		}
		fm, err := CF.LoadAFM(fn)
		ragged := false
		for _, r := range rows {
			ragged = ragged || len(r) != len(rows[0])
		}
		if err != nil {
			if len(rows) > 1 && !ragged && len(rows[0]) > 1 {
				t.Fatalf("%q is a table and can't be read: %v", text, err)
			}
			return
		}
		if ragged {
			t.Fatalf("%q has rows of different lengths and no error is reported", text)
		}
		if len(rows) < 2 || len(rows[0]) < 2 {
			return
		}
		wide := true // features in rows unless the header names them
		for _, p := range []string{"N:", "C:", "B:"} {
			wide = wide && !strings.HasPrefix(rows[0][1], p)
		}
		at := func(feat, cs int) string {
			if wide {
				return rows[feat+1][cs+1]
			}
			return rows[cs+1][feat+1]
		}
		nf, nc := len(rows)-1, len(rows[0])-1
		if !wide {
			nf, nc = nc, nf
		}
		if len(fm.Data) != nf || len(fm.CaseLabels) != nc {
			t.Fatalf("%q: %d features of %d cases, not %d of %d", text, len(fm.Data), len(fm.CaseLabels), nf, nc)
		}
		for j, ft := range fm.Data {
			name := rows[0][0]
			if wide {
				name = rows[j+1][0]
			} else {
				name = rows[0][j+1]
			}
			num, isnum := ft.(*CF.DenseNumFeature)
			if ft.GetName() != name || isnum != strings.HasPrefix(name, "N:") || ft.Length() != nc {
				t.Fatalf("%q: feature %d is %q, numerical %v, with %d values", text, j, ft.GetName(), isnum, ft.Length())
			}
			for i := 0; i < nc; i++ {
				s := at(j, i)
				if !isnum {
					if ft.IsMissing(i) != blankCell(s) || (!blankCell(s) && ft.GetStr(i) != s) {
						t.Fatalf("%q: %q of case %d is read as %q, missing %v", text, s, i, ft.GetStr(i), ft.IsMissing(i))
					}
					continue
				}
				v, perr := strconv.ParseFloat(s, 64)
				miss := perr != nil || math.IsNaN(v)
				if ft.IsMissing(i) != miss || (!miss && num.Get(i) != v) {
					t.Fatalf("%q: %q of case %d is read as %v, missing %v", text, s, i, num.Get(i), ft.IsMissing(i))
				}
			}
		}
		for i, l := range fm.CaseLabels {
			want := ""
			if wide {
				want = rows[0][i+1]
			} else {
				want = rows[i+1][0]
			}
			if l != want {
				t.Fatalf("%q: case %d is called %q", text, i, l)
			}
		}
	})
}

func rewrite(f *CF.Forest) string {
	var b bytes.Buffer
	w := CF.NewForestWriter(&b)
	w.WriteForestHeader(0, f.Target, f.Intercept)
	for i, tr := range f.Trees {
		w.WriteTree(tr, i)
	}
	return b.String()
}

// FuzzC04_Forest: whatever text is read as a forest, writing that forest and reading it back gives the same.
func FuzzC04_Forest(f *testing.F) {
	for _, s := range fuzzForests {
		f.Add(s)
	}
	f.Fuzz(func(t *testing.T, text string) {
		if len(text) > 1<<16 {
			return
		}
		var g *CF.Forest
		var err error
		quiet(func() { g, err = CF.NewForestReader(strings.NewReader(text)).ReadForest() })
		if err != nil {
			return
		}
		odd := func(s string) bool {
			return strings.ContainsAny(s, "\"\r\n")
		}
		if odd(g.Target) || math.IsNaN(g.Intercept) {
			return
		}
		for i, tr := range g.Trees {
			if why := incomplete(tr.Root); why != "" {
				t.Fatalf("%q: tree %d %s and there is no error", text, i, why)
			}
			skip := odd(tr.Target) || math.IsNaN(tr.Weight) || (tr.Weight < 0 && tr.Weight != -1)
			tr.Root.Climb(func(n *CF.Node) {
				skip = skip || odd(n.Pred)
				if s := n.Splitter; s != nil {
					skip = skip || odd(s.Feature) || (!s.Numerical && s.Left == nil) || math.IsNaN(s.Value)
					for l := range s.Left {
						skip = skip || odd(l)
					}
				}
			})
			if skip {
				return
			}
		}
		again := rewrite(g)
		var h *CF.Forest
		quiet(func() { h, err = CF.NewForestReader(strings.NewReader(again)).ReadForest() })
		if err != nil {
			t.Fatalf("%q is read, but what is then written, %q, is not: %v", text, again, err)
		}
		if h.Target != g.Target || h.Intercept != g.Intercept || len(h.Trees) != len(g.Trees) {
			t.Fatalf("%q: read back as target %q, intercept %v, %d trees", text, h.Target, h.Intercept, len(h.Trees))
		}
		for i := range g.Trees {
			a, b := g.Trees[i], h.Trees[i]
			if a.Target != b.Target || a.Weight != b.Weight {
				t.Fatalf("%q: tree %d is read back with target %q and weight %v", text, i, b.Target, b.Weight)
			}
			if d := diffTrees(modelOf(a.Root, "*"), modelOf(b.Root, "*")); d != "" {
				t.Fatalf("%q: tree %d is read back differently: %s", text, i, d)
			}
		}
	})
}

// FuzzC36_Text: whatever the bytes, reading ends without a crash in a usable table or forest or an error.
func FuzzC36_Text(f *testing.F) {
	for k, set := range [][]string{fuzzTables, fuzzArff, fuzzSVM, fuzzForests} {
		for _, s := range set {
			f.Add(byte(k), s)
		}
	}
	f.Fuzz(func(t *testing.T, kind byte, text string) {
		if len(text) > 1<<16 {
			return
		}
		name := "d.afm"
		switch kind % 4 {
		case 1:
			name = "d.arff"
		case 2:
			name = "d.libsvm"
			for _, tok := range strings.Fields(text) {
				if n, err := strconv.Atoi(strings.SplitN(tok, ":", 2)[0]); err == nil && n > 3000 {
					return // a column number is a promise of as many columns
				}
			}
		case 3:
			var g *CF.Forest
			var err error
			quiet(func() { g, err = CF.NewForestReader(strings.NewReader(text)).ReadForest() })
			if err != nil {
				return
			}
			if g == nil {
				t.Fatalf("%q: neither a forest nor an error", text)
			}
			fm := CF.ParseAFM(strings.NewReader(fuzzTables[0]))
			bb := CF.NewCatBallotBox(3)
			for i, tr := range g.Trees {
				if why := incomplete(tr.Root); why != "" {
					t.Fatalf("%q: tree %d %s and there is no error", text, i, why)
				}
				ok := true
				tr.Root.Climb(func(n *CF.Node) {
					// a split of the wrong kind for the data is not the reader's fault
					if n.Splitter != nil {
						if fi, in := fm.Map[n.Splitter.Feature]; in {
							_, isnum := fm.Data[fi].(*CF.DenseNumFeature)
							ok = ok && isnum == n.Splitter.Numerical
						}
					}
				})
				if ok {
					tr.Vote(fm, bb)
				}
			}
			return
		}
		fn := filepath.Join(t.TempDir(), name)
		if os.WriteFile(fn, []byte(text), 0o600) != nil {
			t.Skip()
		}
		fm, err := CF.LoadAFM(fn)
		if err != nil {
			return
		}
		for _, ft := range fm.Data {
			if ft.Length() != len(fm.CaseLabels) {
				t.Fatalf("%s %q is read without an error and feature %q has %d values for %d cases", name, text, ft.GetName(), ft.Length(), len(fm.CaseLabels))
			}
			for i := 0; i < ft.Length(); i++ {
				_ = fmt.Sprint(ft.GetStr(i), ft.IsMissing(i))
			}
		}
	})
}

// sameCell compares a cell with what was read for it.
func sameCell(f CF.Feature, i int, s string) bool {
	if num, isnum := f.(*CF.DenseNumFeature); isnum {
		v, err := strconv.ParseFloat(s, 64)
		if err != nil || math.IsNaN(v) {
			return f.IsMissing(i)
		}
		return !f.IsMissing(i) && num.Get(i) == v
	}
	if blankCell(s) {
		return f.IsMissing(i)
	}
	return !f.IsMissing(i) && f.GetStr(i) == s
}

// loadText reads a text as a file of the given name.
func loadText(t *testing.T, name, text string) (*CF.FeatureMatrix, error) {
	fn := filepath.Join(t.TempDir(), name)
	if os.WriteFile(fn, []byte(text), 0o600) != nil {
		t.Skip()
	}
	return CF.LoadAFM(fn)
}

// FuzzC02_Arff compares the reader with cutting the data at commas and line ends.
func FuzzC02_Arff(f *testing.F) {
	for _, s := range fuzzArff {
		f.Add(s)
	}
	f.Fuzz(func(t *testing.T, text string) {
		if strings.ContainsAny(text, "\"\r") || len(text) > 1<<16 {
			return
		}
		fm, err := loadText(t, "d.arff", text)
		var names []string
		var nums []bool
		var rows [][]string
		data, bad := false, false
		lines := strings.SplitAfter(text, "\n")
		for _, l := range lines {
			if !data {
				low := strings.ToLower(l)
				if !strings.HasSuffix(l, "\n") {
					bad = true // the header ends before the data
				} else if strings.HasPrefix(low, "@data") {
					data = true
				} else if strings.HasPrefix(low, "@attribute") {
					w := strings.Fields(l)
					if len(w) < 3 {
						bad = true
						break
					}
					names = append(names, w[1])
					k := strings.ToLower(w[2])
					nums = append(nums, k == "numeric" || k == "real")
				}
				continue
			}
			l = strings.TrimSuffix(l, "\n")
			if l == "" || l[0] == '%' {
				continue
			}
			row := strings.Split(l, ",")
			for j := range row {
				row[j] = strings.TrimLeftFunc(row[j], unicode.IsSpace)
			}
			bad = bad || len(row) != len(names)
			rows = append(rows, row)
		}
		bad = bad || len(names) == 0
		if (err != nil) != bad {
			t.Fatalf("%q: error %v, expected one: %v", text, err, bad)
		}
		if err != nil {
			return
		}
		if len(fm.Data) != len(names) || len(fm.CaseLabels) != len(rows) {
			t.Fatalf("%q: %d attributes of %d cases, not %d of %d", text, len(fm.Data), len(fm.CaseLabels), len(names), len(rows))
		}
		for j, ft := range fm.Data {
			if _, isnum := ft.(*CF.DenseNumFeature); ft.GetName() != names[j] || isnum != nums[j] || ft.Length() != len(rows) {
				t.Fatalf("%q: attribute %d is read as %q, numerical %v, with %d values", text, j, ft.GetName(), isnum, ft.Length())
			}
			for i := range rows {
				if !sameCell(ft, i, rows[i][j]) {
					t.Fatalf("%q: %q of case %d is read as %q, missing %v", text, rows[i][j], i, ft.GetStr(i), ft.IsMissing(i))
				}
			}
		}
	})
}

// FuzzC03_Rows compares the reader with the table the entries denote.
func FuzzC03_Rows(f *testing.F) {
	for _, s := range fuzzSVM {
		f.Add(s)
	}
	f.Fuzz(func(t *testing.T, text string) {
		if len(text) > 1<<14 {
			return
		}
		var target []string
		var rows []map[int]string
		width, bad := 0, false
		for _, l := range strings.Split(text, "\n") {
			w := strings.Fields(l)
			if len(w) == 0 {
				continue
			}
			row := map[int]string{}
			for _, e := range w[1:] {
				p := strings.Split(e, ":")
				k, err := strconv.Atoi(p[0])
				if len(p) != 2 || err != nil || k < 1 {
					bad = true
					break
				}
				if k > 3000 {
					return // a column number is a promise of as many columns
				}
				row[k] = p[1]
				if k > width {
					width = k
				}
			}
			target, rows = append(target, w[0]), append(rows, row)
		}
		bad = bad || len(rows) == 0
		fm, err := loadText(t, "d.libsvm", text)
		if (err != nil) != bad {
			t.Fatalf("%q: error %v, expected one: %v", text, err, bad)
		}
		if err != nil {
			return
		}
		if len(fm.Data) != width+1 || len(fm.CaseLabels) != len(rows) {
			t.Fatalf("%q: %d columns of %d cases, not %d of %d", text, len(fm.Data), len(fm.CaseLabels), width+1, len(rows))
		}
		_, isnum := fm.Data[0].(*CF.DenseNumFeature)
		if isnum != strings.Contains(target[0], ".") {
			t.Fatalf("%q: the target is numerical: %v", text, isnum)
		}
		for i, s := range target {
			if !sameCell(fm.Data[0], i, s) {
				t.Fatalf("%q: target %q of case %d is read as %q, missing %v", text, s, i, fm.Data[0].GetStr(i), fm.Data[0].IsMissing(i))
			}
			for k := 1; k <= width; k++ {
				s, listed := rows[i][k]
				if !listed {
					s = "0"
				}
				if _, isnum := fm.Data[k].(*CF.DenseNumFeature); !isnum || fm.Data[k].Length() != len(rows) || !sameCell(fm.Data[k], i, s) {
					t.Fatalf("%q: entry %d (%q) of case %d is read as %q", text, k, s, i, fm.Data[k].GetStr(i))
				}
			}
		}
	})
}
