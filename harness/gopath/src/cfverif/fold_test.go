package cfverif

import (
	"encoding/csv"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	CF "github.com/ryanbressler/CloudForest"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- plain tables as written to files

type table struct {
	labels []string // nil when the format has none
	names  []string
	numer  []bool     // declared kind, nil when the format has none
	cells  [][]string // by column
}

func readAFMTable(text string) (*table, error) {
	tb := &table{}
	r := csv.NewReader(strings.NewReader(text))
	r.Comma = '\t'
	r.FieldsPerRecord = -1
	lines, err := r.ReadAll()
	if err != nil || len(lines) == 0 {
		return nil, fmt.Errorf("no table: %v", err)
	}
	head := lines[0]
	tb.labels = head[1:]
	for _, c := range lines[1:] {
		if len(c) != len(head) {
			return nil, fmt.Errorf("%d cells in line %q for %d cases", len(c), c, len(head)-1)
		}
		tb.names = append(tb.names, c[0])
		tb.cells = append(tb.cells, c[1:])
	}
	return tb, nil
}

func readARFFTable(text string) (*table, error) {
	tb := &table{}
	parts := regexp.MustCompile(`(?mi)^@data\s*$`).Split(text, 2)
	if len(parts) != 2 {
		return nil, fmt.Errorf("no data section")
	}
	for _, l := range strings.Split(parts[0], "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || strings.ToLower(f[0]) != "@attribute" {
			continue
		}
		tb.names = append(tb.names, f[1])
		k := strings.ToLower(f[2])
		tb.numer = append(tb.numer, k == "numeric" || k == "real")
	}
	tb.cells = make([][]string, len(tb.names))
	r := csv.NewReader(strings.NewReader(parts[1]))
	recs, err := r.ReadAll()
	if err != nil {
		return nil, err
	}
	for _, rec := range recs {
		if len(rec) != len(tb.names) {
			return nil, fmt.Errorf("%d cells in %q for %d attributes", len(rec), rec, len(tb.names))
		}
		for j, s := range rec {
			tb.cells[j] = append(tb.cells[j], s)
		}
	}
	return tb, nil
}

// cellOK compares a written cell with the model.
func cellOK(f *mfeat, i int, s string) bool {
	if f.Miss[i] {
		return isMissTok(s)
	}
	if f.Num {
		x, err := strconv.ParseFloat(s, 64)
		return err == nil && close2(x, f.V[i], 1e-12)
	}
	return s == f.Cats[f.C[i]]
}

// checkTable compares the written table with the rows of m it should hold.
func checkTable(t *rapid.T, what string, m *mmat, rows []int, tb *table) {
	if len(tb.names) != len(m.F) {
		t.Fatalf("%s: features %q, want %v", what, tb.names, m)
	}
	for j, f := range m.F {
		if tb.names[j] != f.Name {
			t.Fatalf("%s: feature %d is %q, want %q", what, j, tb.names[j], f.Name)
		}
		if tb.numer != nil && tb.numer[j] != f.Num {
			t.Fatalf("%s: feature %q is declared numerical %v", what, f.Name, tb.numer[j])
		}
		if len(tb.cells[j]) != len(rows) {
			t.Fatalf("%s: %d values of %q for %d cases", what, len(tb.cells[j]), f.Name, len(rows))
		}
		for k, i := range rows {
			if !cellOK(f, i, tb.cells[j][k]) {
				t.Fatalf("%s: %q of case %d (line %d) is written as %q, want %s", what, f.Name, i, k, tb.cells[j][k], f.str(i))
			}
		}
	}
}

// libsvmRows parses libsvm text: the target and the listed entries of each line.
func libsvmRows(text string) (targets []string, rows []map[int]float64, err error) {
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		f := strings.Fields(l)
		row := map[int]float64{}
		for _, e := range f[1:] {
			kv := strings.SplitN(e, ":", 2)
			if len(kv) != 2 {
				return nil, nil, fmt.Errorf("entry %q of %q", e, l)
			}
			k, e1 := strconv.Atoi(kv[0])
			v, e2 := strconv.ParseFloat(kv[1], 64)
			if e1 != nil || e2 != nil || k < 1 {
				return nil, nil, fmt.Errorf("entry %q of %q", e, l)
			}
			if _, dup := row[k]; dup {
				return nil, nil, fmt.Errorf("entry %q twice in %q", e, l)
			}
			row[k] = v
		}
		targets = append(targets, f[0])
		rows = append(rows, row)
	}
	return
}

// checkLibsvm compares libsvm text with the encoding of the given rows.
func checkLibsvm(t *rapid.T, what, text string, m *mmat, target *mfeat, rows []int) {
	tg, got, err := libsvmRows(text)
	if err != nil || len(tg) != len(rows) {
		t.Fatalf("%s: %d lines for %d cases, %v: %s", what, len(tg), len(rows), err, text)
	}
	enc := encodedModel(m, target.Name)
	a2b, b2a := map[int]string{}, map[string]int{}
	for k, i := range rows {
		if target.Num {
			x, err := strconv.ParseFloat(tg[k], 64)
			if err != nil || x != target.V[i] {
				t.Fatalf("%s: target of case %d is %q, want %v", what, i, tg[k], target.V[i])
			}
		} else {
			if l, ok := a2b[target.C[i]]; ok && l != tg[k] {
				t.Fatalf("%s: class %s is written as %q and %q", what, target.str(i), l, tg[k])
			}
			if c, ok := b2a[tg[k]]; ok && c != target.C[i] {
				t.Fatalf("%s: classes %q and %q are written alike", what, target.Cats[c], target.str(i))
			}
			a2b[target.C[i]], b2a[tg[k]] = tg[k], target.C[i]
		}
		for j, e := range enc {
			if !close2(got[k][j+1], e.V[i], 1e-12) {
				t.Fatalf("%s: column %d (%s) of case %d is %v, want %v", what, j+1, e.Name, i, got[k][j+1], e.V[i])
			}
		}
		for j := range got[k] {
			if j > len(enc) {
				t.Fatalf("%s: column %d of %d", what, j, len(enc))
			}
		}
	}
}

// ---------------------------------------------------------------- reference preprocessing

func (m *mmat) without(drop func(f *mfeat) bool) *mmat {
	out := &mmat{N: m.N, Labels: m.Labels}
	for _, f := range m.F {
		if !drop(f) {
			out.F = append(out.F, f)
		}
	}
	return out
}

func (m *mmat) imputed() *mmat {
	out := &mmat{N: m.N, Labels: m.Labels}
	for _, f := range m.F {
		g := *f
		if known(f) > 0 {
			g.Miss = make([]bool, m.N)
			g.V, g.C = append([]float64(nil), f.V...), cp(f.C)
			if f.Num {
				a := avgKnown(f)
				for i := range f.Miss {
					if f.Miss[i] {
						g.V[i] = a
					}
				}
			} else {
				cnt := make([]int, len(f.Cats))
				for i := range f.Miss {
					if !f.Miss[i] {
						cnt[f.C[i]]++
					}
				}
				mode := 0
				for k := range cnt {
					if cnt[k] > cnt[mode] {
						mode = k
					}
				}
				for i := range f.Miss {
					if f.Miss[i] {
						g.C[i] = mode
					}
				}
			}
		}
		out.F = append(out.F, &g)
	}
	return out
}

// afmNames gives every column a name that says its kind in an annotated feature matrix.
func (m *mmat) afmNames() *mmat {
	out := &mmat{N: m.N, Labels: m.Labels}
	for _, f := range m.F {
		g := *f
		isNum := strings.HasPrefix(f.Name, "N:")
		if f.Num && !isNum {
			g.Name = "N:" + f.Name
		}
		if !f.Num && isNum {
			g.Name = "C:" + f.Name
		}
		out.F = append(out.F, &g)
	}
	return out
}

// oneHot encodes categorical columns of more than two categories by true/false columns.
func (m *mmat) oneHot() *mmat {
	out := &mmat{N: m.N, Labels: m.Labels}
	for _, f := range m.F {
		if f.Num || len(f.Cats) <= 2 {
			out.F = append(out.F, f)
			continue
		}
		for k, l := range f.Cats {
			g := &mfeat{Name: f.Name + "==" + l, Cats: []string{"false", "true"}, Miss: f.Miss, C: make([]int, m.N)}
			for i := range g.C {
				if f.C[i] == k && !f.Miss[i] {
					g.C[i] = 1
				}
			}
			out.F = append(out.F, g)
		}
	}
	return out
}

// toNum encodes categorical columns by 0/1 columns.
func (m *mmat) toNum() *mmat {
	out := &mmat{N: m.N, Labels: m.Labels}
	for _, f := range m.oneHot().F {
		g := *f
		if !f.Num {
			g.Num = true
			g.V = make([]float64, m.N)
			for i := range g.V {
				g.V[i] = float64(f.C[i])
			}
		}
		out.F = append(out.F, &g)
	}
	return out
}

// ---------------------------------------------------------------- C28

func TestC28_FoldsPartition(t *testing.T) {
	forall(t, "several folds, several classes or a numerical target, and missing values or an encoding", 600, 8000, func(t *rapid.T, c *Case) {
		n := genSize(t, 2, 40, 100, 300)
		m := genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 5, missing: true, styles: allStyles, maxCats: 7})
		m.F = append([]*mfeat{distinctCol(t, "N:id", n)}, m.F...)
		kind := rapid.SampledFrom([]string{"cat", "cat", "cat", "num", "none"}).Draw(t, "tkind")
		tname := "C:target"
		switch kind {
		case "cat":
			m.F = append(m.F, genCatFeat(t, tname, n, rapid.Bool().Draw(t, "tm"), rapid.SampledFrom([]int{1, 2, 2, 3, 5}).Draw(t, "classes"), true))
		case "num":
			tname = "N:target"
			m.F = append(m.F, genNumFeat(t, tname, n, rapid.Bool().Draw(t, "tm")))
		default:
			tname = "N:nothing"
		}
		if rapid.Bool().Draw(t, "target first") {
			k := len(m.F) - 1
			m.F = append([]*mfeat{m.F[k]}, m.F[:k]...)
		}
		in := rapid.SampledFrom([]string{"rows", "rows", "cols", "arff", "arff", "libsvm"}).Draw(t, "in")
		idName := "N:id"
		if in == "arff" && rapid.Bool().Draw(t, "plain names") {
			for _, f := range m.F {
				f.Name = strings.TrimPrefix(strings.TrimPrefix(f.Name, "C:"), "N:")
			}
			idName, tname = "id", tname[2:]
		}
		if in == "libsvm" {
			// the target is column 0, the others are numerical and complete
			fs := []*mfeat{m.feat(tname)}
			if fs[0] == nil || (!fs[0].Num && len(fs[0].Cats) == 0) {
				fs[0] = &mfeat{Name: "0", Cats: []string{"7"}, C: make([]int, n)}
			}
			fs[0].Miss = make([]bool, n)
			if fs[0].Num {
				for i := range fs[0].V {
					fs[0].V[i] = math.Round(fs[0].V[i]*100) / 100
				}
			}
			for _, f := range m.F {
				if f.Num && f.Name != tname {
					f.Miss = make([]bool, n)
					for i := range f.V {
						if math.IsNaN(f.V[i]) {
							f.V[i] = 0
						}
					}
					fs = append(fs, f)
				}
			}
			for j := range fs {
				if fs[j].Name == "N:id" {
					idName = strconv.Itoa(j)
				}
				fs[j].Name = strconv.Itoa(j)
			}
			m.F = fs
			if tname != "N:nothing" {
				tname = "0"
			}
		}
		dir, done := scratchDir()
		defer done()
		for _, f := range m.F { // encoded features are named after categories, and ARFF names hold no blanks
			for k := range f.Cats {
				f.Cats[k] = strings.Replace(f.Cats[k], " ", "_", -1)
			}
		}
		m = m.asParsed()
		tf := m.feat(tname)
		allClasses := tf != nil && known(tf) == n
		var outs []string
		args := []string{"-target", tname}
		flagOf := map[string]string{"arff": "-writearff", "libsvm": "-writelibsvm", "all": "-writeall", "both": ""}
		pick := rapid.SampledFrom([]string{"afm", "afm", "arff", "libsvm", "all", "both"}).Draw(t, "out")
		if tf == nil || !allClasses {
			if pick == "libsvm" || pick == "all" || pick == "both" {
				pick = "arff" // a libsvm line needs a known target
			}
		}
		switch pick {
		case "afm":
			outs = []string{"afm"}
		case "both":
			args = append(args, "-writearff", "-writelibsvm")
			outs = []string{"arff", "libsvm"}
		case "all":
			args = append(args, "-writeall")
			outs = []string{"afm", "arff", "libsvm"}
		default:
			args = append(args, flagOf[pick])
			outs = []string{pick}
		}
		if in != "libsvm" && rapid.IntRange(0, 3).Draw(t, "awkward") == 0 {
			forms := []string{"%d\"pipe", "\"%d\"", "%%%d", "%d,", "'%d'"}
			if in != "arff" && strings.Join(outs, "") == "afm" { // encoded features are named for these
				forms = append(forms, "%d\" pipe", " %d", "%d\t", "\t%d")
			}
			for _, f := range m.F {
				for k := range f.Cats {
					if rapid.IntRange(0, 2).Draw(t, "which") == 0 {
						f.Cats[k] = fmt.Sprintf(rapid.SampledFrom(forms).Draw(t, "label"), k) // stays unique
					}
				}
			}
		}
		if in == "arff" {
			for _, f := range m.F {
				f.Name = strings.Replace(f.Name, " ", "_", -1)
			}
		}
		switch in {
		case "libsvm":
			var sb strings.Builder
			for i := 0; i < n; i++ {
				if m.F[0].Num {
					fmt.Fprintf(&sb, "%.2f", m.F[0].V[i])
				} else {
					sb.WriteString(m.F[0].str(i))
				}
				for j, f := range m.F[1:] {
					if f.V[i] != 0 || i == 0 || rapid.IntRange(0, 2).Draw(t, "zero") == 0 {
						fmt.Fprintf(&sb, " %d:%v", j+1, f.V[i])
					}
				}
				sb.WriteString("\n")
			}
			for i := range m.Labels {
				m.Labels[i] = strconv.Itoa(i)
			}
			writeFile(dir, "in.libsvm", sb.String())
			args = append(args, "-fm", "in.libsvm")
		case "arff":
			for i := range m.Labels {
				m.Labels[i] = strconv.Itoa(i)
			}
			writeFile(dir, "in.arff", m.arff())
			args = append(args, "-fm", "in.arff")
		case "cols":
			writeFile(dir, "in.fm", renderCols(t, m, m.cells()))
			args = append(args, "-fm", "in.fm")
		default:
			writeFile(dir, "in.fm", renderRows(t, m, m.cells()))
			args = append(args, "-fm", "in.fm")
		}
		folds := rapid.SampledFrom([]int{1, 2, 2, 3, 4, 5, 5, 7, 10, 50}).Draw(t, "folds")
		if folds > n+2 {
			folds = n + 2
		}
		if folds != 5 || rapid.Bool().Draw(t, "say folds") {
			args = append(args, "-folds", strconv.Itoa(folds))
		}
		trainF, testF := "train_%v.fm", "test_%v.fm"
		if rapid.IntRange(0, 3).Draw(t, "names") == 0 {
			trainF, testF = "a%v.tr", "b-%v-x"
			args = append(args, "-train", trainF, "-test", testF)
		}
		unstrat := rapid.IntRange(0, 3).Draw(t, "unstratified") == 0
		if unstrat {
			args = append(args, "-unstratified")
		}
		want := m
		if rapid.IntRange(0, 2).Draw(t, "blacklist") == 0 {
			black := map[string]bool{}
			lines := []string{"N:unknown", tname}
			for _, f := range m.F {
				if f.Name != idName && f.Name != tname && rapid.Bool().Draw(t, "black") {
					black[f.Name] = true
					lines = append(lines, f.Name)
				}
			}
			writeFile(dir, "black.txt", strings.Join(lines, "\n")+"\n")
			args = append(args, "-blacklist", "black.txt")
			want = want.without(func(f *mfeat) bool { return black[f.Name] })
		}
		if rapid.IntRange(0, 3).Draw(t, "maxcats") == 0 {
			k := rapid.IntRange(0, 6).Draw(t, "maxcats")
			if tf == nil || len(tf.Cats) <= k {
				args = append(args, "-maxcats", strconv.Itoa(k))
				want = want.without(func(f *mfeat) bool { return !f.Num && len(f.Cats) > k })
			}
		}
		pre := ""
		if uniqueModes(want) && rapid.IntRange(0, 2).Draw(t, "impute") == 0 {
			args = append(args, "-impute")
			want = want.imputed()
			pre += "impute "
		}
		// encodings apply to the target too; only a target they leave in place is used with them
		if (tf == nil || tf.Num || len(tf.Cats) <= 2) && rapid.IntRange(0, 3).Draw(t, "onehot") == 0 {
			args = append(args, "-onehot")
			want = want.oneHot()
			pre += "onehot "
		}
		if (tf == nil || tf.Num) && rapid.IntRange(0, 3).Draw(t, "num") == 0 {
			args = append(args, "-num")
			want = want.toNum()
			pre += "num "
		}
		hasLib := false
		for _, o := range outs {
			hasLib = hasLib || o == "libsvm"
		}
		if hasLib && !uniqueModes(want) {
			t.Skip("ambiguous imputation")
		}
		wt := want.feat(tname) // the target as it is in the output
		what := fmt.Sprintf("nfold %q on %v", args, m)
		mustRun(t, dir, "nfold", args...)

		stratified := wt != nil && !wt.Num && !unstrat
		var all []int
		for i := 0; i < n; i++ {
			if !stratified || !wt.Miss[i] {
				all = append(all, i)
			}
		}
		idOf := map[float64]int{}
		id := want.feat(idName)
		for i := 0; i < n; i++ {
			idOf[id.V[i]] = i
		}
		var sets [][]int
		for k := 0; k < folds; k++ {
			var first [2][]int
			for oi, o := range outs {
				ext := map[string]string{"afm": "", "arff": ".arff", "libsvm": ".libsvm"}[o]
				for side, pat := range []string{testF, trainF} {
					name := strings.Replace(pat, "%v", strconv.Itoa(k), 1) + ext
					text, ok := readFile(filepath.Join(dir, name))
					if !ok {
						t.Fatalf("%s: no file %s", what, name)
					}
					rows, err := rowsOf(o, text, want, wt, idName, idOf)
					if err != nil {
						t.Fatalf("%s: %s: %v: %s", what, name, err, text)
					}
					if oi == 0 {
						first[side] = rows
					} else if fmt.Sprint(rows) != fmt.Sprint(first[side]) {
						t.Fatalf("%s: %s has cases %v, another format %v", what, name, rows, first[side])
					}
					switch o {
					case "libsvm":
						checkLibsvm(t, what+" "+name, text, want, wt, rows)
					case "afm":
						tb, _ := readAFMTable(text)
						for j, i := range rows {
							if tb.labels[j] != m.Labels[i] {
								t.Fatalf("%s: %s labels case %s %q", what, name, m.Labels[i], tb.labels[j])
							}
						}
						checkTable(t, what+" "+name, want.afmNames(), rows, tb)
					default:
						tb, _ := readARFFTable(text)
						checkTable(t, what+" "+name, want, rows, tb)
					}
				}
			}
			if !sameMultiset(append(cp(first[0]), first[1]...), all) {
				t.Fatalf("%s: fold %d tests %v and trains on %v of %v", what, k, first[0], first[1], all)
			}
			sets = append(sets, first[0])
		}
		var union []int
		lo, hi := n+1, -1
		for _, s := range sets {
			union = append(union, s...)
			if len(s) < lo {
				lo = len(s)
			}
			if len(s) > hi {
				hi = len(s)
			}
		}
		if !sameMultiset(union, all) {
			t.Fatalf("%s: test sets %v do not partition %v", what, sets, all)
		}
		if hi-lo > 1 {
			t.Fatalf("%s: fold sizes differ: %v", what, sets)
		}
		if stratified {
			for cl, l := range wt.Cats {
				a, b := n+1, -1
				for _, s := range sets {
					k := 0
					for _, i := range s {
						if wt.C[i] == cl {
							k++
						}
					}
					if k < a {
						a = k
					}
					if k > b {
						b = k
					}
				}
				if b-a > 1 {
					t.Fatalf("%s: class %q is spread unevenly: %v", what, l, sets)
				}
			}
		}
		// only the requested formats are written, for as many folds as asked
		expected := map[string]bool{"in.fm": true, "in.arff": true, "in.libsvm": true, "black.txt": true}
		for k := 0; k < folds; k++ {
			for _, o := range outs {
				for _, pat := range []string{testF, trainF} {
					expected[strings.Replace(pat, "%v", strconv.Itoa(k), 1)+map[string]string{"afm": "", "arff": ".arff", "libsvm": ".libsvm"}[o]] = true
				}
			}
		}
		entries, _ := os.ReadDir(dir)
		for _, e := range entries {
			if !expected[e.Name()] {
				t.Fatalf("%s: wrote %s, but %v and %d folds were asked for", what, e.Name(), outs, folds)
			}
		}
		c.Class("written %s", pick)
		c.Class("from %s", in)
		c.Class("target %s", kind)
		c.ClassIf(stratified, "stratified")
		c.ClassIf(pre != "", pre)
		missing := false
		for _, f := range want.F {
			missing = missing || f.hasMissing()
		}
		if folds > 1 && len(all) > folds && (missing || pre != "") {
			c.NT(fmt.Sprint(args), m.String())
			c.Sample("%v on %v: %v", args, m, sets)
		}
	})
}

// rowsOf says which case every line of a written file is, by its unique id value.
func rowsOf(format, text string, m *mmat, target *mfeat, idName string, idOf map[float64]int) ([]int, error) {
	var vals []float64
	switch format {
	case "libsvm":
		_, rows, err := libsvmRows(text)
		if err != nil {
			return nil, err
		}
		col := 0
		for j, e := range encodedModel(m, target.Name) {
			if e.Name == idName {
				col = j + 1
			}
		}
		for _, r := range rows {
			vals = append(vals, r[col])
		}
	default:
		var tb *table
		var err error
		if format == "afm" {
			tb, err = readAFMTable(text)
		} else {
			tb, err = readARFFTable(text)
		}
		if err != nil {
			return nil, err
		}
		for j, nm := range tb.names {
			if nm != idName && nm != "N:"+idName {
				continue
			}
			for _, s := range tb.cells[j] {
				x, err := strconv.ParseFloat(s, 64)
				if err != nil {
					return nil, fmt.Errorf("id %q", s)
				}
				vals = append(vals, x)
			}
		}
	}
	var out []int
	for _, v := range vals {
		i, ok := idOf[v]
		if !ok {
			return nil, fmt.Errorf("id %v is no case", v)
		}
		out = append(out, i)
	}
	return out, nil
}

// ---------------------------------------------------------------- C29

func TestC29_NothingLost(t *testing.T) {
	forall(t, "several columns of both kinds with missing values", 700, 9000, func(t *rapid.T, c *Case) {
		in := rapid.SampledFrom([]string{"rows", "cols", "arff", "arff", "libsvm"}).Draw(t, "in")
		dir, done := scratchDir()
		defer done()
		var m *mmat
		name := "in.fm"
		text := ""
		switch in {
		case "rows", "cols":
			var cells [][]string
			m, cells = genTextTable(t, func(j int, num bool) string {
				body := rapid.StringMatching(`[A-Za-z0-9_=, .()%-]{0,6}`).Draw(t, "name")
				if num {
					return fmt.Sprintf("N:%s~%d", body, j)
				}
				return rapid.SampledFrom([]string{"C:", "B:", "X", "n:", "CC:", "Class"}).Draw(t, "prefix") + fmt.Sprintf("%s~%d", body, j)
			}, func(t *rapid.T) string { return genCatLabel(t, " ,\"\t") })
			m.Labels[0] = "_" + m.Labels[0]
			if in == "rows" {
				text = renderRows(t, m, cells)
			} else {
				if p := m.F[0].Name[:2]; p != "N:" && p != "C:" && p != "B:" {
					m.F[0].Name = "B:" + m.F[0].Name
				}
				text = renderCols(t, m, cells)
			}
		case "arff":
			name = "in.arff"
			m, _ = genTextTable(t, arffName(t), func(t *rapid.T) string {
				for {
					s := genCatLabel(t, " ,\"")
					if !strings.HasPrefix(s, "%") {
						return s
					}
				}
			})
			text = m.arff()
		case "libsvm":
			name = "in.libsvm"
			m, text = genLibsvm(t)
		}
		if in == "arff" || in == "libsvm" {
			for i := range m.Labels {
				m.Labels[i] = strconv.Itoa(i)
			}
		}
		writeFile(dir, name, text)
		args := []string{"-data", name, "-out", "out.fm"}
		want := m
		target := ""
		mode := rapid.SampledFrom([]string{"", "", "anontarget", "libsvmtarget"}).Draw(t, "mode")
		if mode != "" {
			k := rapid.IntRange(0, len(m.F)-1).Draw(t, "target")
			target = m.F[k].Name
			if mode == "libsvmtarget" && (known(m.F[k]) < m.N || !uniqueModes(m)) {
				mode = ""
				target = ""
			} else {
				args = append(args, "-"+mode, target)
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "blacklist") == 0 {
			black := map[string]bool{}
			lines := []string{"N:unknown"}
			for _, f := range m.F {
				if f.Name != target && rapid.Bool().Draw(t, "black") {
					black[f.Name] = true
				}
				if black[f.Name] || f.Name == target {
					lines = append(lines, f.Name)
				}
			}
			if len(black) < len(m.F) {
				writeFile(dir, "black.txt", strings.Join(lines, "\n")+"\n")
				args = append(args, "-blacklist", "black.txt")
				want = m.without(func(f *mfeat) bool { return black[f.Name] })
			}
		}
		what := fmt.Sprintf("toafm %q of %s", args, brief(text))
		mustRun(t, dir, "toafm", args...)
		out, ok := readFile(filepath.Join(dir, "out.fm"))
		if !ok {
			t.Fatalf("%s: nothing written", what)
		}
		switch mode {
		case "libsvmtarget":
			checkLibsvm(t, what, out, want, want.feat(target), seq(m.N))
		case "anontarget":
			// the target first, names by position, categories by number
			anon := &mmat{N: m.N}
			for i := 0; i < m.N; i++ {
				anon.Labels = append(anon.Labels, strconv.Itoa(i))
			}
			fs := append([]*mfeat(nil), want.F...)
			for j, f := range fs {
				if f.Name == target {
					fs[0], fs[j] = fs[j], fs[0]
				}
			}
			for j, f := range fs {
				g := *f
				g.Name = fmt.Sprintf("C:%d", j)
				if f.Num {
					g.Name = fmt.Sprintf("N:%d", j)
				}
				g.Cats = nil
				for k := range f.Cats {
					g.Cats = append(g.Cats, strconv.Itoa(k))
				}
				anon.F = append(anon.F, &g)
			}
			checkConverted(t, what, dir, out, anon)
		default:
			named := &mmat{N: m.N, Labels: m.Labels}
			for _, f := range want.F {
				g := *f
				switch {
				case f.Num && !strings.HasPrefix(f.Name, "N:"):
					g.Name = "N:" + f.Name
				case !f.Num && !strings.HasPrefix(f.Name, "C:") && !strings.HasPrefix(f.Name, "B:"):
					g.Name = "C:" + f.Name
				}
				named.F = append(named.F, &g)
			}
			checkConverted(t, what, dir, out, named)
		}
		missing, cat, num := false, false, false
		for _, f := range want.F {
			missing = missing || f.hasMissing()
			cat = cat || !f.Num
			num = num || f.Num
		}
		c.Class("from %s", in)
		c.ClassIf(mode != "", mode)
		if cat && num && (missing || in == "libsvm") && m.N > 1 {
			c.NT(text, fmt.Sprint(args))
			c.Sample("%v of %s", args, brief(text))
		}
	})
}

// checkConverted judges the text and what it reads back as.
func checkConverted(t *rapid.T, what, dir, out string, want *mmat) {
	tb, err := readAFMTable(out)
	if err != nil {
		t.Fatalf("%s: %v: %s", what, err, brief(out))
	}
	if fmt.Sprintf("%q", tb.labels) != fmt.Sprintf("%q", want.Labels) {
		t.Fatalf("%s: case labels %q, want %q", what, tb.labels, want.Labels)
	}
	checkTable(t, what, want, seq(want.N), tb)
	fm, err := CF.LoadAFM(filepath.Join(dir, "out.fm"))
	if err != nil {
		t.Fatalf("%s: result does not read back: %v", what, err)
	}
	checkFM(t, want.asParsed(), fm, true, true)
}

// genLibsvm draws a sparse table and its text.
func genLibsvm(t *rapid.T) (*mmat, string) {
	n := genSize(t, 1, 12, 80, 200)
	k := rapid.IntRange(1, 6).Draw(t, "k")
	numT := rapid.Bool().Draw(t, "numTarget")
	m := &mmat{N: n}
	tgt := &mfeat{Name: "0", Num: numT, Miss: make([]bool, n)}
	m.F = append(m.F, tgt)
	var lines []string
	idx := map[string]int{}
	top := 0
	cols := make([][]float64, k)
	for j := range cols {
		cols[j] = make([]float64, n)
	}
	for i := 0; i < n; i++ {
		m.Labels = append(m.Labels, strconv.Itoa(i))
		s := rapid.SampledFrom([]string{"1", "-1", "2", "pos"}).Draw(t, "cls")
		if numT {
			s = fmt.Sprintf("%.2f", float64(rapid.IntRange(-999, 999).Draw(t, "y"))/10)
			v, _ := strconv.ParseFloat(s, 64)
			tgt.V = append(tgt.V, v)
			tgt.C = append(tgt.C, 0)
		} else {
			if _, ok := idx[s]; !ok {
				idx[s] = len(tgt.Cats)
				tgt.Cats = append(tgt.Cats, s)
			}
			tgt.C = append(tgt.C, idx[s])
		}
		for j := 0; j < k; j++ {
			if rapid.Bool().Draw(t, "has") {
				v := drawNum(t, "grid", "x")
				cols[j][i] = v
				s += fmt.Sprintf(" %d:%v", j+1, v)
				if j+1 > top {
					top = j + 1
				}
			}
		}
		lines = append(lines, s)
	}
	for j := 0; j < top; j++ {
		m.F = append(m.F, &mfeat{Name: strconv.Itoa(j + 1), Num: true, V: cols[j], Miss: make([]bool, n)})
	}
	return m, strings.Join(lines, "\n") + "\n"
}

// ---------------------------------------------------------------- C35

type aceLine struct {
	target, name string
	p, mean      float64
}

func readACE(t *rapid.T, dir, what string) []aceLine {
	text, ok := readFile(filepath.Join(dir, "ace.tsv"))
	if !ok {
		t.Fatalf("%s: no report", what)
	}
	var out []aceLine
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		c := strings.Split(l, "\t")
		if len(c) != 4 {
			t.Fatalf("%s: report line %q", what, l)
		}
		p, e1 := strconv.ParseFloat(c[2], 64)
		m, e2 := strconv.ParseFloat(c[3], 64)
		if e1 != nil || e2 != nil {
			t.Fatalf("%s: report line %q", what, l)
		}
		out = append(out, aceLine{c[0], c[1], p, m})
	}
	return out
}

// genACE draws training data, growing options and contrast options of growforest.
func genACE(t *rapid.T, dir string, g *growArgs, more ...string) (args []string, k, nTrees int, mtry string) {
	train, _ := writeData(t, dir, "train", g.m)
	k = rapid.SampledFrom([]int{1, 2, 3, 3, 4, 5}).Draw(t, "ace")
	nTrees = rapid.SampledFrom([]int{1, 2, 3, 5, 8}).Draw(t, "nTrees")
	mtry, _ = amount(t, "mTry", len(g.cands)+2, len(g.cands))
	args = []string{"-train", train, "-target", g.r.col.Name, "-nTrees", strconv.Itoa(nTrees), "-leafSize", strconv.Itoa(g.leaf), "-maxDepth", strconv.Itoa(g.depth),
		"-noseed", "-importance", "ace.tsv", "-rfpred", "f.sf"}
	if rapid.IntRange(0, 3).Draw(t, "mTry given") > 0 {
		args = append(args, "-mTry", mtry)
	} else {
		mtry = ""
	}
	if rapid.IntRange(0, 3).Draw(t, "selftest") == 0 {
		args = append(args, "-selftest")
	}
	args = append(args, more...)
	args = append(args, g.candFlags(t, dir)...)
	return
}

// checkReport judges the form of the report and which features it is about.
func checkReport(t *rapid.T, what string, g *growArgs, rep []aceLine) {
	if len(rep) != len(g.m.F) {
		t.Fatalf("%s: %d report lines for %d features", what, len(rep), len(g.m.F))
	}
	for i, f := range g.m.F {
		l := rep[i]
		if l.target != g.r.col.Name || l.name != f.Name {
			t.Fatalf("%s: line %d reports %q for %q, want %q for %q", what, i, l.name, l.target, f.Name, g.r.col.Name)
		}
		if l.p < -1e-9 || l.p > 1+1e-9 {
			t.Fatalf("%s: %s has p-value %v", what, f.Name, l.p)
		}
		if math.IsNaN(l.mean) || math.IsInf(l.mean, 0) {
			t.Fatalf("%s: %s has importance %v", what, f.Name, l.mean)
		}
		if !containsInt(g.cands, i) && l.mean != 0 {
			t.Fatalf("%s: %s is not used but has importance %v", what, f.Name, l.mean)
		}
	}
}

// TestC35_Report recomputes the report: the mean of every set of cases determines the set, so the leaves
// of the forests with 1, 2 ... contrast rounds (each writes its last one) tell the gain of every split,
// those on shuffled copies included.
func TestC35_Report(t *testing.T) {
	forall(t, "p-values of two features are well determined", 250, 4000, func(t *rapid.T, c *Case) {
		n := rapid.IntRange(4, 9).Draw(t, "n")
		g := &growArgs{m: genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 5, maxCats: 4})}
		col := &mfeat{Name: "N:target", Num: true, Miss: make([]bool, n), V: make([]float64, n), C: make([]int, n)}
		for i := range col.V {
			col.V[i] = math.Round(rapid.Float64Range(-100, 100).Draw(t, "y")*1e6) / 1e6
		}
		if n > 4 && rapid.IntRange(0, 3).Draw(t, "tmiss") == 0 {
			col.Miss[rapid.IntRange(0, n-1).Draw(t, "tm")] = true
		}
		g.m.F = append(g.m.F, col)
		g.m = g.m.asParsed()
		g.ti = len(g.m.F) - 1
		g.r = &rt{kind: "num", col: g.m.F[g.ti]}
		p := rapid.Permutation(seq(g.ti)).Draw(t, "cands")
		g.cands = append([]int(nil), p[:rapid.IntRange(1, g.ti).Draw(t, "ncand")]...)
		g.bag = g.known()
		g.leaf = rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, "leaf")
		g.depth = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "depth")
		// sets of cases by their mean
		type setMean struct {
			set  int
			mean float64
		}
		var sets []setMean
		for s := 1; s < 1<<uint(len(g.bag)); s++ {
			sum, cnt := 0.0, 0
			for j, i := range g.bag {
				if s>>uint(j)&1 == 1 {
					sum += col.V[i]
					cnt++
				}
			}
			sets = append(sets, setMean{s, sum / float64(cnt)})
		}
		sort.Slice(sets, func(a, b int) bool { return sets[a].mean < sets[b].mean })
		for j := 1; j < len(sets); j++ {
			if sets[j].mean-sets[j-1].mean < 1e-8 {
				return // another draw
			}
		}
		setOf := func(pred string) (int, bool) {
			x, err := strconv.ParseFloat(pred, 64)
			if err != nil {
				return 0, false
			}
			j := sort.Search(len(sets), func(j int) bool { return sets[j].mean > x-2e-9 })
			return sets[min(j, len(sets)-1)].set, j < len(sets) && math.Abs(sets[j].mean-x) < 2e-9
		}
		ss := func(set int) (q float64, cnt int) { // sum of squares around the mean
			sum := 0.0
			for j, i := range g.bag {
				if set>>uint(j)&1 == 1 {
					sum += col.V[i]
					cnt++
				}
			}
			for j, i := range g.bag {
				if set>>uint(j)&1 == 1 {
					q += (col.V[i] - sum/float64(cnt)) * (col.V[i] - sum/float64(cnt))
				}
			}
			return
		}
		dir, done := scratchDir()
		defer done()
		args, k, nTrees, _ := genACE(t, dir, g, "-nobag")
		what := fmt.Sprintf("growforest %q on %v", args, g.m)
		index := map[string]int{}
		for i, f := range g.m.F {
			index[f.Name], index[f.Name+":SHUFFLED"] = i, i+len(g.m.F)
		}
		imps := make([][]float64, 2*len(g.m.F))
		var rep []aceLine
		for j := 1; j <= k; j++ {
			mustRun(t, dir, "growforest", append(args, "-ace", strconv.Itoa(j))...)
			rep = readACE(t, dir, what)
			checkReport(t, what, g, rep)
			sf := loadSF(t, dir, "f.sf", what)
			if len(sf.trees) != nTrees {
				t.Fatalf("%s: %d trees", what, len(sf.trees))
			}
			for i := range imps {
				imps[i] = append(imps[i], 0)
			}
			for _, tr := range sf.trees {
				var down func(n *mnode) int
				down = func(n *mnode) int {
					if n.leaf() {
						s, ok := setOf(n.pred)
						if !ok {
							t.Fatalf("%s: leaf %s of %v predicts %s, the mean of no cases", what, n.path, tr.root, n.pred)
						}
						return s
					}
					l, r := down(n.l), down(n.g)
					fi, ok := index[n.r.f.Name]
					if !ok || l&r != 0 {
						t.Fatalf("%s: node %s of %v splits on %q", what, n.path, tr.root, n.r.f.Name)
					}
					if !containsInt(g.cands, fi%len(g.m.F)) {
						t.Fatalf("%s: excluded %s is used", what, n.r.f.Name)
					}
					// the impurity of cases is the sum of their squared deviations
					ql, nl := ss(l)
					qr, nr := ss(r)
					q, cnt := ss(l | r)
					imps[fi][j-1] += (q - (float64(nl)*ql+float64(nr)*qr)/float64(cnt)) / float64(nTrees)
					return l | r
				}
				if got := down(tr.root); got != 1<<uint(len(g.bag))-1 {
					t.Fatalf("%s: tree %v was not grown from all cases", what, tr.root)
				}
			}
			sure := 0
			for i, f := range g.m.F {
				am, av := refMoments(imps[i])
				bm, bv := refMoments(imps[i+len(g.m.F)])
				if !close2(rep[i].mean, am, 1e-7) {
					t.Fatalf("%s -ace %d: %s has importances %v, reported mean %v", what, j, f.Name, imps[i], rep[i].mean)
				}
				if j < 2 || math.Sqrt(av+bv) < 1e-6*(math.Abs(am)+math.Abs(bm)) || av+bv == 0 {
					continue
				}
				sure++
				x := av/float64(j) + bv/float64(j)
				df := x * x / (av*av/float64(j*j*(j-1)) + bv*bv/float64(j*j*(j-1)))
				tt := (am - bm) / math.Sqrt(x)
				wp := tUpper(tt, df)
				if math.IsNaN(rep[i].p) || math.Abs(wp-rep[i].p) > 1e-5 {
					t.Fatalf("%s -ace %d: %s has importances %v and its contrasts %v, p-value %v, reported %v", what, j, f.Name, imps[i], imps[i+len(g.m.F)], wp, rep[i].p)
				}
			}
			c.ClassIf(sure > 0, fmt.Sprintf("with %d rounds", j))
			if sure > 1 {
				c.NT(fmt.Sprint(args, j), g.m.String())
				c.Sample("%v -ace %d on %v: %v", args, j, g.m, rep)
			}
		}
	})
}

// TestC35_FreshShuffles: were the shuffled copies the same for every forest the forests of one tree over
// all cases and features would be too, and nothing would vary.
func TestC35_FreshShuffles(t *testing.T) {
	forall(t, "every case (importances of a used feature must vary)", 60, 600, func(t *rapid.T, c *Case) {
		n := rapid.IntRange(12, 16).Draw(t, "n")
		m := &mmat{N: n}
		for i := 0; i < n; i++ {
			m.Labels = append(m.Labels, fmt.Sprintf("s%d", i))
		}
		nf := rapid.IntRange(2, 5).Draw(t, "nf")
		ti := rapid.IntRange(0, nf-1).Draw(t, "ti")
		var others []string
		used := rapid.IntRange(0, nf-2).Draw(t, "used")
		if used >= ti {
			used++
		}
		for j := 0; j < nf; j++ {
			f := &mfeat{Name: fmt.Sprintf("N:f%d", j), Num: true, Miss: make([]bool, n)}
			for _, x := range genPerm(t, n, f.Name) {
				f.V = append(f.V, math.Sqrt(float64(x)+1.5)*float64(x%3+1))
			}
			if j != ti && j != used {
				others = append(others, f.Name)
			}
			m.F = append(m.F, f)
		}
		dir, done := scratchDir()
		defer done()
		train, _ := writeData(t, dir, "train", m)
		k := rapid.IntRange(6, 9).Draw(t, "k")
		args := []string{"-train", train, "-target", m.F[ti].Name, "-nobag", "-nTrees", "1", "-mTry", "2", "-leafSize", "1", "-noseed", "-ace", strconv.Itoa(k), "-importance", "ace.tsv"}
		if len(others) > 0 {
			writeFile(dir, "black", strings.Join(others, "\n")+"\n")
			args = append(args, "-blacklist", "black")
		}
		what := fmt.Sprintf("growforest %q on %v", args, m)
		mustRun(t, dir, "growforest", args...)
		rep := readACE(t, dir, what)
		if len(rep) != nf {
			t.Fatalf("%s: report %v", what, rep)
		}
		for j, l := range rep {
			if l.name != m.F[j].Name || (j != used && l.mean != 0) || (j == used && (!(l.p > 0) || !(l.p < 1))) {
				t.Fatalf("%s: report %v, feature %q must vary", what, rep, m.F[used].Name)
			}
		}
		c.NT(fmt.Sprint(args), m.String())
		c.Sample("%v: %v", args, rep)
	})
}

func TestC35_Cutoff(t *testing.T) {
	forall(t, "some but not all candidates pass the cutoff", 250, 4000, func(t *rapid.T, c *Case) {
		g := genCli(t, []string{"gini", "gini", "entropy", "wrf", "regret", "np", "num", "num", "l1", "ordinal"}, false)
		dir, done := scratchDir()
		defer done()
		more := append(g.targetFlags(), g.modeFlags()...)
		nobag := rapid.IntRange(0, 3).Draw(t, "nobag") > 0
		if nobag {
			more = append(more, "-nobag")
		}
		more = append(more, "-nCores", rapid.SampledFrom([]string{"1", "1", "1", "3"}).Draw(t, "cores"))
		if rapid.IntRange(0, 3).Draw(t, "oob") == 0 && !nobag {
			more = append(more, "-oob")
		}
		args, k, nTrees, mtry := genACE(t, dir, g, more...)
		k++
		cut := rapid.SampledFrom([]float64{0.01, 0.1, 0.3, 0.5, 0.9, 1.5}).Draw(t, "cutoff")
		args = append(args, "-ace", strconv.Itoa(k), "-cutoff", strconv.FormatFloat(cut, 'g', -1, 64))
		what := fmt.Sprintf("growforest %q on %v", args, g.m)
		res := mustRun(t, dir, "growforest", args...)
		rep := readACE(t, dir, what)
		checkReport(t, what, g, rep)
		var pass []int
		for i, l := range rep {
			if l.p < cut && l.mean > 0 {
				pass = append(pass, i)
			}
		}
		said := fmt.Sprintf("Growing non-ACE forest with %d features with p-value < %v.", len(pass), cut)
		if !strings.Contains(res.stdout, said) {
			t.Fatalf("%s: reports %v, does not say %q: %s", what, rep, said, res.stdout)
		}
		all := g.cands
		g.cands = pass
		if s := rapid.Just(mtry).Draw(t, "m"); s != "" {
			if strings.Contains(s, ".") {
				x, _ := strconv.ParseFloat(s, 64)
				g.mTry = int(math.Ceil(x * float64(len(pass))))
			} else {
				g.mTry, _ = strconv.Atoi(s)
			}
		} else {
			g.mTry = int(math.Ceil(math.Sqrt(float64(len(pass)))))
		}
		if want := fmt.Sprintf("\nmTry: %d\n", g.mTry); !strings.Contains(res.stdout[strings.Index(res.stdout, said):], want) {
			t.Fatalf("%s: with %d features left, mTry is not %d: %s", what, len(pass), g.mTry, res.stdout)
		}
		if g.mTry > len(pass) {
			g.mTry = len(pass)
		}
		sf := loadSF(t, dir, "f.sf", what)
		if len(sf.trees) != nTrees {
			t.Fatalf("%s: %d trees", what, len(sf.trees))
		}
		for i, tr := range sf.trees {
			if len(pass) == 0 {
				if !tr.root.leaf() {
					t.Fatalf("%s: tree %d splits although no feature is left: %v", what, i, tr.root)
				}
				continue
			}
			if nobag {
				g.checkCliTree(t, what, i, tr.root)
			} else {
				g.checkBaggedTree(t, what, i, tr.root, len(g.bag))
			}
		}
		c.Class("target %s", g.r.kind)
		c.ClassIf(len(pass) == 0, "none passes")
		if len(pass) > 0 && len(pass) < len(all) {
			c.NT(fmt.Sprint(args), g.m.String())
			c.Sample("%v on %v: %v", args, g.m, rep)
		}
	})
}
