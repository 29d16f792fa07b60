package cfverif

import (
	"archive/zip"
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	CF "github.com/ryanbressler/CloudForest"
	"pgregory.net/rapid"
)

// checkFeature compares a real column with the model through the public accessors.
func checkFeature(t *rapid.T, want *mfeat, f CF.Feature, exactFlag bool) {
	if f.GetName() != want.Name {
		t.Fatalf("feature name %q, want %q", f.GetName(), want.Name)
	}
	if f.Length() != len(want.Miss) {
		t.Fatalf("feature %q: length %d, want %d", want.Name, f.Length(), len(want.Miss))
	}
	anyMiss := want.hasMissing()
	if anyMiss && !f.MissingVals() {
		t.Fatalf("feature %q has missing cells but says it has none", want.Name)
	}
	if exactFlag && !anyMiss && f.MissingVals() {
		t.Fatalf("feature %q says it has missing values but none is missing", want.Name)
	}
	if want.Num {
		nf, ok := f.(CF.NumFeature)
		if !ok {
			t.Fatalf("feature %q read as %T, want numerical", want.Name, f)
		}
		if f.NCats() != 0 {
			t.Fatalf("numerical feature %q reports %d categories", want.Name, f.NCats())
		}
		for i := range want.Miss {
			if f.IsMissing(i) != want.Miss[i] {
				t.Fatalf("feature %q case %d: missing=%v, want %v", want.Name, i, f.IsMissing(i), want.Miss[i])
			}
			if want.Miss[i] {
				if f.GetStr(i) != "NA" {
					t.Fatalf("feature %q case %d: missing cell prints %q", want.Name, i, f.GetStr(i))
				}
				continue
			}
			if nf.Get(i) != want.V[i] {
				t.Fatalf("feature %q case %d: value %v, want %v", want.Name, i, nf.Get(i), want.V[i])
			}
			if v, err := strconv.ParseFloat(f.GetStr(i), 64); err != nil || v != want.V[i] {
				t.Fatalf("feature %q case %d: prints %q, want %v", want.Name, i, f.GetStr(i), want.V[i])
			}
		}
		return
	}
	cf, ok := f.(CF.CatFeature)
	if !ok {
		t.Fatalf("feature %q read as %T, want categorical", want.Name, f)
	}
	num2lab := map[int]string{}
	lab2num := map[string]int{}
	for i := range want.Miss {
		if f.IsMissing(i) != want.Miss[i] {
			t.Fatalf("feature %q case %d: missing=%v, want %v", want.Name, i, f.IsMissing(i), want.Miss[i])
		}
		if want.Miss[i] {
			if f.GetStr(i) != "NA" {
				t.Fatalf("feature %q case %d: missing cell prints %q", want.Name, i, f.GetStr(i))
			}
			continue
		}
		lab := want.Cats[want.C[i]]
		if f.GetStr(i) != lab {
			t.Fatalf("feature %q case %d: label %q, want %q", want.Name, i, f.GetStr(i), lab)
		}
		k := cf.Geti(i)
		if l, ok := num2lab[k]; ok && l != lab {
			t.Fatalf("feature %q: number %d stands for %q and %q", want.Name, k, l, lab)
		}
		if l, ok := lab2num[lab]; ok && l != k {
			t.Fatalf("feature %q: label %q has numbers %d and %d", want.Name, lab, l, k)
		}
		num2lab[k], lab2num[lab] = lab, k
		if cf.NumToCat(k) != lab {
			t.Fatalf("feature %q: NumToCat(%d)=%q, want %q", want.Name, k, cf.NumToCat(k), lab)
		}
		if k < 0 || k >= f.NCats() {
			t.Fatalf("feature %q: category number %d out of %d", want.Name, k, f.NCats())
		}
	}
	if exactFlag && f.NCats() != len(lab2num) {
		t.Fatalf("feature %q: %d categories, want the %d that occur", want.Name, f.NCats(), len(lab2num))
	}
}

func checkFM(t *rapid.T, m *mmat, fm *CF.FeatureMatrix, labels bool, exact bool) {
	if fm == nil {
		t.Fatalf("no matrix")
	}
	if len(fm.Data) != len(m.F) {
		t.Fatalf("%d features, want %d", len(fm.Data), len(m.F))
	}
	for i, want := range m.F {
		checkFeature(t, want, fm.Data[i], exact)
		if j, ok := fm.Map[want.Name]; !ok || j != i {
			t.Fatalf("feature %q is looked up at %d (found %v), want %d", want.Name, j, ok, i)
		}
	}
	if len(fm.Map) != len(m.F) {
		t.Fatalf("name lookup has %d entries, want %d", len(fm.Map), len(m.F))
	}
	if labels {
		if len(fm.CaseLabels) != len(m.Labels) {
			t.Fatalf("%d case labels, want %d", len(fm.CaseLabels), len(m.Labels))
		}
		for i := range m.Labels {
			if fm.CaseLabels[i] != m.Labels[i] {
				t.Fatalf("case label %d is %q, want %q", i, fm.CaseLabels[i], m.Labels[i])
			}
		}
	} else if len(fm.CaseLabels) != m.N {
		t.Fatalf("%d case labels, want %d", len(fm.CaseLabels), m.N)
	}
}

func (m *mmat) sel(cases []int) *mmat {
	out := &mmat{N: len(cases)}
	for _, c := range cases {
		out.Labels = append(out.Labels, m.Labels[c])
	}
	for _, f := range m.F {
		g := &mfeat{Name: f.Name, Num: f.Num, Cats: f.Cats}
		for _, c := range cases {
			g.Miss = append(g.Miss, f.Miss[c])
			if f.Num {
				g.V = append(g.V, f.V[c])
			} else {
				g.C = append(g.C, f.C[c])
			}
		}
		out.F = append(out.F, g)
	}
	return out
}

var missTokens = []string{"NA", "?", "nan", "NaN", "NAN", "na", "Na", "nA", "null", "NULL", "Null", "", "Nan"}
var notNumbers = []string{"abc", "1.2.3", "-", "1,5", "12x", "--3", "e5", "NA ", " 1", "1 2", "0x", "five"}

func genCatLabel(t *rapid.T, extra string) string {
	if rapid.IntRange(0, 19).Draw(t, "nearly missing") == 0 {
		return rapid.SampledFrom([]string{"none", "None", "N/A", "n/a", "nil", "missing", "-", ".", "??", "NaN0", "nulls", "NAs", "0", "-1", "nan.", "#NA", "#", "//", "*", "@", "false", "\\N", "'", "\\t"}).Draw(t, "word")
	}
	for {
		s := rapid.StringMatching(`[A-Za-z0-9_.+*/()<>=!;:'@%^&#`+extra+`-]{1,8}`).Draw(t, "label")
		switch strings.ToLower(s) {
		case "na", "nan", "null", "?":
			continue
		}
		return s
	}
}

// genTextTable draws a table together with the text of every cell.
func genTextTable(t *rapid.T, mkName func(j int, num bool) string, mkLab func(t *rapid.T) string) (*mmat, [][]string) {
	n := rapid.IntRange(1, 12).Draw(t, "n")
	k := rapid.IntRange(1, 7).Draw(t, "k")
	s := src{t: t}
	var words []string
	switch rapid.IntRange(0, 79).Draw(t, "shape") {
	case 79: // many cases: long rows
		n = rapid.SampledFrom([]int{100, 400, 1500, 9000}).Draw(t, "about") + n
		k = 1 + k%4
		s = source(t, n)
	case 78: // many features
		k = rapid.SampledFrom([]int{80, 300, 1100}).Draw(t, "about") + k
		n = 1 + n%4
		s = source(t, k)
	}
	if s.r != nil {
		for i := 0; i < 30; i++ {
			words = append(words, mkLab(t))
		}
	}
	m := &mmat{N: n}
	cells := make([][]string, k)
	for j := 0; j < k; j++ {
		num := s.int(0, 1, "num") == 1
		f := &mfeat{Name: mkName(j, num), Num: num}
		idx := map[string]int{}
		var pool []string
		missDen := []int{1 << 20, 8, 3, 2, 1}[s.int(0, 4, "missDen")]
		newLab := s.int(0, 1, "many labels") == 1
		for i := 0; i < n; i++ {
			var text string
			miss := s.int(0, missDen-1, "m") == missDen-1
			if miss {
				text = missTokens[s.int(0, len(missTokens)-1, "tok")]
				if num && s.int(0, 3, "notnum") == 0 {
					text = notNumbers[s.int(0, len(notNumbers)-1, "tok2")]
				}
				f.Miss = append(f.Miss, true)
				f.V = append(f.V, 0)
				f.C = append(f.C, 0)
				cells[j] = append(cells[j], text)
				continue
			}
			if num {
				switch s.int(0, 4, "fmt") {
				case 0:
					text = strconv.Itoa(s.int(-99, 99, "int"))
				case 1:
					text = fmt.Sprintf("%.2f", float64(s.int(-9999, 9999, "c"))/100)
				case 2:
					if s.r != nil {
						text = fmt.Sprintf("%.3e", (s.r.Float64()-0.5)*2e20)
						break
					}
					text = fmt.Sprintf("%.3e", rapid.Float64Range(-1e20, 1e20).Draw(t, "e"))
				case 3:
					v := 0.0
					if s.r != nil {
						v = math.Float64frombits(s.r.Uint64())
					} else {
						v = rapid.Float64().Draw(t, "f")
					}
					if math.IsInf(v, 0) || math.IsNaN(v) {
						v = 0
					}
					text = strconv.FormatFloat(v, 'g', -1, 64)
				case 4:
					odd := []string{"+3", ".5", "-.25", "1E3", "007", "1e-300", "0", "-0", "100000000000000000000", "Inf", "-inf", "+Inf", "infinity"}
					text = odd[s.int(0, len(odd)-1, "odd")]
				}
				v, err := strconv.ParseFloat(text, 64)
				if err != nil {
					v = 0
					text = "0"
				}
				f.V = append(f.V, v)
				f.C = append(f.C, 0)
			} else {
				switch {
				case s.r != nil:
					text = words[s.r.Intn(len(words))]
					if newLab { // as many labels as cases, nearly
						text += strconv.Itoa(s.r.Intn(2 * n))
					}
				case len(pool) > 0 && rapid.IntRange(0, 2).Draw(t, "reuse") > 0:
					text = rapid.SampledFrom(pool).Draw(t, "again")
				default:
					text = mkLab(t)
					if rapid.IntRange(0, 399).Draw(t, "long") == 399 {
						text += strings.Repeat("x", rapid.SampledFrom([]int{100, 4000, 5000, 70000}).Draw(t, "times"))
					}
					pool = append(pool, text)
				}
				c, ok := idx[text]
				if !ok {
					c = len(f.Cats)
					idx[text] = c
					f.Cats = append(f.Cats, text)
				}
				f.V = append(f.V, 0)
				f.C = append(f.C, c)
			}
			f.Miss = append(f.Miss, false)
			cells[j] = append(cells[j], text)
		}
		m.F = append(m.F, f)
	}
	lab := ""
	for i := 0; i < n; i++ {
		if i < 30 {
			lab = rapid.StringMatching(`[A-Za-z0-9_ .=,#%"-]{0,5}`).Draw(t, "lab")
		}
		m.Labels = append(m.Labels, fmt.Sprintf("%s%d", lab, i))
	}
	return m, cells
}

// genCaseList draws a non-empty list of cases with repeats: short, or longer than the table.
func genCaseList(t *rapid.T, n int) []int {
	if n > smallTable {
		s := source(t, n)
		out := make([]int, 1+s.r.Intn(2*n))
		for i := range out {
			out[i] = s.r.Intn(n)
		}
		return out
	}
	return rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 14).Draw(t, "cases")
}

// brief quotes the start of a text.
func brief(s string) string {
	if len(s) > 600 {
		return fmt.Sprintf("%q... (%d bytes)", s[:600], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func afmName(t *rapid.T) func(int, bool) string {
	return func(j int, num bool) string {
		if !num && j < 26 && rapid.IntRange(0, 14).Draw(t, "short") == 0 {
			return string(rune('a' + j))
		}
		body := rapid.StringMatching(`[A-Za-z0-9_=, .:()%"-]{0,6}`).Draw(t, "name")
		if num {
			return fmt.Sprintf("N:%s~%d", body, j)
		}
		p := rapid.SampledFrom([]string{"C:", "B:", "C:", "X", "n:", "NN", "", "#", "//", "%"}).Draw(t, "prefix")
		s := fmt.Sprintf("%s%s~%d", p, body, j)
		if strings.HasPrefix(s, "N:") {
			s = "C:" + s
		}
		return s
	}
}

func eol(t *rapid.T) string { return rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(t, "eol") }

// tsvRow joins cells with tabs, quoting those that need it and some that don't.
func tsvRow(t *rapid.T, cells []string) string {
	out := append([]string(nil), cells...)
	all := rapid.IntRange(0, 39).Draw(t, "quoted") == 39
	for i, s := range out {
		if all || strings.ContainsAny(s, "\"\t") {
			out[i] = `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
		}
	}
	return strings.Join(out, "\t")
}

func renderRows(t *rapid.T, m *mmat, cells [][]string) string {
	nl := eol(t)
	lines := []string{rapid.SampledFrom([]string{".", "FEATURE", ""}).Draw(t, "corner") + "\t" + tsvRow(t, m.Labels)}
	for j, f := range m.F {
		lines = append(lines, tsvRow(t, append([]string{f.Name}, cells[j]...)))
	}
	s := strings.Join(lines, nl)
	if rapid.Bool().Draw(t, "finalNL") {
		s += nl
	}
	return s
}

func renderCols(t *rapid.T, m *mmat, cells [][]string) string {
	nl := eol(t)
	names := []string{}
	for _, f := range m.F {
		names = append(names, f.Name)
	}
	lines := []string{rapid.SampledFrom([]string{".", "case", ""}).Draw(t, "corner") + "\t" + tsvRow(t, names)}
	for i := 0; i < m.N; i++ {
		row := []string{m.Labels[i]}
		for j := range m.F {
			row = append(row, cells[j][i])
		}
		lines = append(lines, tsvRow(t, row))
	}
	s := strings.Join(lines, nl)
	if rapid.Bool().Draw(t, "finalNL") {
		s += nl
	}
	return s
}

func classifyTable(c *Case, m *mmat) {
	anyMiss, cat, num := false, false, false
	for _, f := range m.F {
		if f.hasMissing() {
			anyMiss = true
		}
		if f.Num {
			num = true
		} else {
			cat = true
		}
	}
	c.ClassIf(anyMiss, "with missing")
	c.ClassIf(cat && num, "mixed kinds")
	c.ClassIf(m.N == 1, "single case")
	c.ClassIf(m.N > smallTable, "hundreds or thousands of cases")
	c.ClassIf(len(m.F) > smallTable, "hundreds of features")
}

func TestC01_Parse(t *testing.T) {
	forall(t, "random table rendered in either layout; non-trivial: at least two features and two cases", 2500, 20000, func(t *rapid.T, c *Case) {
		m, cells := genTextTable(t, afmName(t), func(t *rapid.T) string { return genCatLabel(t, " ,\"\t") })
		cols := rapid.Bool().Draw(t, "cols")
		var text string
		if cols {
			if p := m.F[0].Name; !strings.HasPrefix(p, "N:") && !strings.HasPrefix(p, "C:") && !strings.HasPrefix(p, "B:") {
				m.F[0].Name = "B:" + m.F[0].Name
			}
			text = renderCols(t, m, cells)
		} else {
			if len(m.Labels[0]) > 1 {
				if p := m.Labels[0][:2]; p == "N:" || p == "C:" || p == "B:" {
					m.Labels[0] = "_" + m.Labels[0]
				}
			}
			text = renderRows(t, m, cells)
		}
		classifyTable(c, m)
		c.ClassIf(cols, "features in columns")
		if len(m.F) > 1 && m.N > 1 {
			c.NT(text)
			c.Sample("%s", brief(text))
		}
		checkFM(t, m, CF.ParseAFM(strings.NewReader(text)), true, true)
	})
}

func TestC01_LoadFile(t *testing.T) {
	forall(t, "random table in a plain or zipped file loaded by name; non-trivial: zipped or more than one feature", 150, 1000, func(t *rapid.T, c *Case) {
		m, cells := genTextTable(t, afmName(t), func(t *rapid.T) string { return genCatLabel(t, " ,\"\t") })
		m.Labels[0] = "_" + m.Labels[0]
		text := renderRows(t, m, cells)
		dir, done := scratchDir()
		defer done()
		name := rapid.SampledFrom([]string{"data.afm", "data.fm", "data.tsv", "data.zip", "my.data.fm"}).Draw(t, "fname")
		path := filepath.Join(dir, name)
		zipped := rapid.Bool().Draw(t, "zip")
		if zipped {
			var b bytes.Buffer
			zw := zip.NewWriter(&b)
			w, _ := zw.Create("inner.afm")
			w.Write([]byte(text))
			zw.Close()
			os.WriteFile(path, b.Bytes(), 0o644)
		} else {
			os.WriteFile(path, []byte(text), 0o644)
		}
		c.ClassIf(zipped, "zipped")
		c.NT(text, zipped)
		c.Sample("%s zipped=%v %s", name, zipped, brief(text))
		fm, err := CF.LoadAFM(path)
		if err != nil {
			t.Fatalf("LoadAFM: %v", err)
		}
		checkFM(t, m, fm, true, true)
		if _, err := CF.LoadAFM(filepath.Join(dir, "absent.afm")); err == nil {
			t.Fatalf("no error for a file that does not exist")
		}
	})
}

func TestC01_RoundTrip(t *testing.T) {
	forall(t, "random matrix and case selection (with repeats), written and read back; non-trivial: a proper or repeated selection of several cases", 2000, 15000, func(t *rapid.T, c *Case) {
		m, _ := genTextTable(t, afmName(t), func(t *rapid.T) string { return genCatLabel(t, " ,\"\t") })
		for i := range m.Labels {
			m.Labels[i] = "_" + m.Labels[i]
		}
		fm := m.real()
		cases := genCaseList(t, m.N)
		var b bytes.Buffer
		if err := fm.WriteCases(&b, cases); err != nil {
			t.Fatalf("WriteCases: %v", err)
		}
		classifyTable(c, m)
		if len(cases) > 1 && m.N > 1 {
			c.NT(b.String())
			c.Sample("%s", brief(fmt.Sprintf("cases=%v of %v", cases, m)))
		}
		back := CF.ParseAFM(bytes.NewReader(b.Bytes()))
		checkFM(t, m.sel(cases), back, true, true)
		checkFM(t, m, fm, true, false) // writing leaves the source alone
	})
}

// ---------------------------------------------------------------- ARFF

func arffName(t *rapid.T) func(int, bool) string {
	return func(j int, num bool) string {
		if rapid.IntRange(0, 3).Draw(t, "prefixes") == 0 { // what tells types apart elsewhere, here and there
			return fmt.Sprintf("%s%d", rapid.StringMatching(`([NCB]:|[NCB]|x|:){1,3}`).Draw(t, "name"), j)
		}
		return fmt.Sprintf("%s%d", rapid.StringMatching(`[A-Za-z_:=.()-]{0,6}`).Draw(t, "name"), j)
	}
}

func csvCell(s string) string {
	if strings.ContainsAny(s, ",\"\t") || strings.HasPrefix(s, " ") || strings.HasPrefix(s, "%") {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

func TestC02_Parse(t *testing.T) {
	forall(t, "random table rendered as ARFF with comments, blank lines and case variants; non-trivial: two attributes and two rows", 2000, 15000, func(t *rapid.T, c *Case) {
		m, cells := genTextTable(t, arffName(t), func(t *rapid.T) string { return genCatLabel(t, " ,\"") })
		kw := func(s string) string {
			switch rapid.IntRange(0, 2).Draw(t, "kwcase") {
			case 0:
				return strings.ToUpper(s)
			case 1:
				return strings.ToLower(s)
			}
			return strings.Title(strings.ToLower(s))
		}
		var sb strings.Builder
		junk := func() {
			switch rapid.IntRange(0, 7).Draw(t, "junk") {
			case 0:
				sb.WriteString("% a comment @attribute fake numeric\n")
			case 2:
				sb.WriteString("%@data\n")
			case 3:
				sb.WriteString("% the @data follow\n")
			case 1:
				sb.WriteString("\n")
			}
		}
		junk()
		sb.WriteString("@" + kw("RELATION") + " some relation\n")
		for j, f := range m.F {
			junk()
			typ := ""
			if f.Num {
				typ = kw(rapid.SampledFrom([]string{"NUMERIC", "REAL"}).Draw(t, "type"))
			} else {
				switch rapid.IntRange(0, 2).Draw(t, "nom") {
				case 0:
					typ = "{" + strings.Join(f.Cats, ",") + "}"
				case 1:
					typ = "{ " + strings.Join(f.Cats, ", ") + " }"
				case 2:
					typ = kw("STRING")
				}
			}
			_ = j
			sep := rapid.SampledFrom([]string{" ", "\t", "   "}).Draw(t, "sep")
			sb.WriteString("@" + kw("ATTRIBUTE") + sep + f.Name + sep + typ + "\n")
		}
		junk()
		comma := rapid.SampledFrom([]string{",", ",", ", ", ",  ", ",\t"}).Draw(t, "comma")
		c.ClassIf(comma != ",", "blanks after the commas")
		sb.WriteString("@" + kw("DATA") + "\n")
		for i := 0; i < m.N; i++ {
			if rapid.IntRange(0, 6).Draw(t, "cmt") == 0 {
				sb.WriteString("% comment, in, the data\n")
			}
			row := []string{}
			for j := range m.F {
				cell := cells[j][i]
				if i >= 0 && j == 0 && strings.HasPrefix(cell, "%") {
					cell = csvCell("," + cell)[0:0] + `"` + strings.ReplaceAll(cell, `"`, `""`) + `"`
				} else {
					cell = csvCell(cell)
				}
				if len(m.F) == 1 && cell == "" {
					cell = "?" // a blank line is not a row
				}
				row = append(row, cell)
			}
			sb.WriteString(strings.Join(row, comma))
			if i < m.N-1 || rapid.Bool().Draw(t, "finalNL") {
				sb.WriteString("\n")
			}
		}
		classifyTable(c, m)
		if len(m.F) > 1 && m.N > 1 {
			c.NT(sb.String())
			c.Sample("%s", brief(sb.String()))
		}
		for i := range m.Labels {
			m.Labels[i] = strconv.Itoa(i)
		}
		checkFM(t, m, CF.ParseARFF(strings.NewReader(sb.String())), false, true)
	})
}

func TestC02_RoundTrip(t *testing.T) {
	forall(t, "random matrix and case selection written as ARFF and read back; non-trivial: several cases and features", 2000, 15000, func(t *rapid.T, c *Case) {
		m, _ := genTextTable(t, arffName(t), func(t *rapid.T) string { return genCatLabel(t, " ,\"") })
		fm := m.real()
		cases := genCaseList(t, m.N)
		var b bytes.Buffer
		rel := rapid.StringMatching(`[a-z ]{1,10}`).Draw(t, "relation")
		if err := CF.WriteArffCases(fm, cases, rel, &b); err != nil {
			t.Fatalf("WriteArffCases: %v", err)
		}
		classifyTable(c, m)
		if len(cases) > 1 && len(m.F) > 1 {
			c.NT(b.String())
			c.Sample("%s", brief(fmt.Sprintf("cases=%v of %v", cases, m)))
		}
		back := CF.ParseARFF(bytes.NewReader(b.Bytes()))
		checkFM(t, m.sel(cases), back, false, true)
		checkFM(t, m, fm, true, false)
	})
}

// ---------------------------------------------------------------- libsvm

func TestC03_Parse(t *testing.T) {
	forall(t, "random sparse rows with columns first appearing late, class or real targets; non-trivial: a column appears after the first row", 3000, 25000, func(t *rapid.T, c *Case) {
		n := rapid.IntRange(1, 12).Draw(t, "n")
		k := rapid.IntRange(1, 9).Draw(t, "k")
		s := src{t: t}
		switch rapid.IntRange(0, 79).Draw(t, "shape") {
		case 79:
			n = rapid.SampledFrom([]int{100, 400, 2000}).Draw(t, "about") + n
			s = source(t, n)
		case 78:
			k = rapid.SampledFrom([]int{80, 300, 3000}).Draw(t, "about") + k
			s = source(t, k)
		}
		numT := rapid.Bool().Draw(t, "numTarget")
		style := rapid.SampledFrom(bigStyles).Draw(t, "style")
		shuffled := rapid.IntRange(0, 3).Draw(t, "shuffled") == 0
		ends := rapid.SampledFrom([]string{"", "", "", " ", "\r"}).Draw(t, "ends")
		c.ClassIf(shuffled, "entries of a row not in column order")
		c.ClassIf(ends != "", "rows end in a blank or carriage return")
		tgt := &mfeat{Name: "0", Num: numT, Miss: make([]bool, n)}
		dense := make([][]float64, k)
		for j := range dense {
			dense[j] = make([]float64, n)
		}
		idx := map[string]int{}
		maxCol, late := 0, false
		var lines []string
		for i := 0; i < n; i++ {
			var cells []string
			if numT {
				v := float64(s.int(-999, 999, "y")) / 10
				tgt.V = append(tgt.V, v)
				if i > 0 && v == math.Trunc(v) && s.int(0, 1, "int") == 1 {
					cells = append(cells, fmt.Sprintf("%.0f", v)) // only the first row decides the type
				} else {
					cells = append(cells, fmt.Sprintf("%.2f", v))
				}
			} else {
				l := []string{"1", "-1", "0", "2", "+1", "a"}[s.int(0, 5, "cls")]
				if _, ok := idx[l]; !ok {
					idx[l] = len(tgt.Cats)
					tgt.Cats = append(tgt.Cats, l)
				}
				tgt.C = append(tgt.C, idx[l])
				cells = append(cells, l)
			}
			dens := []int{1, 2, 5, 40}[s.int(0, 3, "dens")]
			for j := 0; j < k; j++ {
				if s.int(0, dens, "has") != 0 {
					continue
				}
				v := s.num(style, "x")
				dense[j][i] = v
				cells = append(cells, fmt.Sprintf("%d:%v", j+1, v))
				if j+1 > maxCol {
					maxCol = j + 1
					if i > 0 {
						late = true
					}
				}
			}
			if shuffled {
				for j := len(cells) - 1; j > 1; j-- {
					o := s.int(1, j, "swap")
					cells[j], cells[o] = cells[o], cells[j]
				}
			}
			line := strings.Join(cells, []string{" ", "  ", "\t"}[s.int(0, 2, "sep")])
			lines = append(lines, line+ends)
		}
		text := strings.Join(lines, "\n")
		final := rapid.Bool().Draw(t, "finalNL")
		if final {
			text += "\n"
		}
		m := &mmat{N: n, F: []*mfeat{tgt}}
		for j := 0; j < maxCol; j++ {
			m.F = append(m.F, &mfeat{Name: strconv.Itoa(j + 1), Num: true, V: dense[j], Miss: make([]bool, n)})
		}
		c.ClassIf(late, "column first appears after row 1")
		c.ClassIf(n > smallTable, "hundreds or thousands of rows")
		c.ClassIf(k > smallTable, "hundreds or thousands of columns")
		c.ClassIf(!final, "no final newline")
		c.ClassIf(numT, "numerical target")
		if late {
			c.NT(text)
			c.Sample("%s", brief(text))
		}
		checkFM(t, m, CF.ParseLibSVM(strings.NewReader(text)), false, true)
	})
}

// encodedModel is the reference imputed numerical encoding used for libsvm output.
func encodedModel(m *mmat, target string) []*mfeat {
	var out []*mfeat
	for _, f := range m.F {
		if f.Name == target {
			continue
		}
		if f.Num {
			sum, n := 0.0, 0
			for i := range f.V {
				if !f.Miss[i] {
					sum += f.V[i]
					n++
				}
			}
			g := &mfeat{Name: f.Name, Num: true, Miss: make([]bool, m.N), V: make([]float64, m.N)}
			for i := range f.V {
				g.V[i] = f.V[i]
				if f.Miss[i] {
					g.V[i] = 0 // a column without known values has nothing to impute
					if n > 0 {
						g.V[i] = sum / float64(n)
					}
				}
			}
			out = append(out, g)
			continue
		}
		vals := make([]int, m.N)
		counts := make([]int, len(f.Cats))
		for i := range f.C {
			if !f.Miss[i] {
				counts[f.C[i]]++
			}
		}
		mode := 0
		for k := range counts {
			if counts[k] > counts[mode] {
				mode = k
			}
		}
		for i := range vals {
			vals[i] = f.C[i]
			if f.Miss[i] { // category 0 without known values
				vals[i] = mode
			}
		}
		if len(f.Cats) <= 2 {
			g := &mfeat{Name: f.Name, Num: true, Miss: make([]bool, m.N), V: make([]float64, m.N)}
			for i, v := range vals {
				g.V[i] = float64(v)
			}
			out = append(out, g)
			continue
		}
		for k, s := range f.Cats {
			g := &mfeat{Name: f.Name + "==" + s, Num: true, Miss: make([]bool, m.N), V: make([]float64, m.N)}
			for i, v := range vals {
				if v == k {
					g.V[i] = 1
				}
			}
			out = append(out, g)
		}
	}
	return out
}

// uniqueModes tells whether imputation is unambiguous and possible.
func uniqueModes(m *mmat) bool {
	for _, f := range m.F {
		known := 0
		counts := map[int]int{}
		for i := range f.Miss {
			if !f.Miss[i] {
				known++
				if !f.Num {
					counts[f.C[i]]++
				}
			}
		}
		if !f.Num && f.hasMissing() && known > 0 {
			best, ties := 0, 0
			for _, v := range counts {
				if v > best {
					best, ties = v, 1
				} else if v == best {
					ties++
				}
			}
			if ties > 1 {
				return false
			}
		}
	}
	return true
}

func testLibsvmWrite(t *rapid.T, c *Case, useCases bool) {
	m := genMat(t, matOpts{minN: 2, maxN: 14, minF: 1, maxF: 6, missing: true, styles: bigStyles, maxCats: 5, appear: true, large: []int{90, 400}})
	ti := rapid.IntRange(0, len(m.F)-1).Draw(t, "target")
	tgt := m.F[ti]
	for i := range tgt.Miss { // a target must be known to be written
		tgt.Miss[i] = false
	}
	if !tgt.Num && len(tgt.Cats) == 0 {
		tgt.Cats = []string{"one"}
	}
	if !uniqueModes(m) {
		c.Class("ambiguous imputation skipped")
		t.Skip("ambiguous imputation")
	}
	fm := m.real()
	var b bytes.Buffer
	cases := seq(m.N)
	var err error
	if useCases {
		cases = genCaseList(t, m.N)
		err = CF.WriteLibSvmCases(fm, cases, tgt.Name, &b)
	} else {
		err = CF.WriteLibSvm(fm, tgt.Name, &b)
	}
	if err != nil {
		t.Fatalf("write: %v", err)
	}
	if len(m.F) > 1 {
		c.NT(b.String(), m.String())
		c.Sample("%s", brief(fmt.Sprintf("target=%s cases=%v %v", tgt.Name, cases, m)))
	}
	checkFM(t, m, fm, true, false)
	enc := encodedModel(m, tgt.Name)
	back := CF.ParseLibSVM(bytes.NewReader(b.Bytes()))
	if back == nil || len(back.Data) == 0 {
		t.Fatalf("written libsvm does not read back: %q", b.String())
	}
	bt := back.Data[0]
	if bt.Length() != len(cases) {
		t.Fatalf("%d cases read back, want %d", bt.Length(), len(cases))
	}
	if tgt.Num {
		nf, ok := bt.(CF.NumFeature)
		if !ok {
			t.Fatalf("numerical target reads back as %T from %q", bt, b.String())
		}
		for i, cs := range cases {
			if nf.Get(i) != tgt.V[cs] {
				t.Fatalf("target of case %d reads back as %v, want %v", i, nf.Get(i), tgt.V[cs])
			}
		}
	} else {
		cf, ok := bt.(CF.CatFeature)
		if !ok {
			t.Fatalf("class target reads back as %T from %q", bt, b.String())
		}
		a2b, b2a := map[int]string{}, map[string]int{}
		for i, cs := range cases {
			l := cf.GetStr(i)
			if p, ok := a2b[tgt.C[cs]]; ok && p != l {
				t.Fatalf("class %d reads back as %q and %q", tgt.C[cs], p, l)
			}
			if p, ok := b2a[l]; ok && p != tgt.C[cs] {
				t.Fatalf("classes %d and %d read back alike", tgt.C[cs], p)
			}
			a2b[tgt.C[cs]], b2a[l] = l, tgt.C[cs]
		}
	}
	if len(back.Data)-1 > len(enc) {
		t.Fatalf("%d columns read back, want at most %d", len(back.Data)-1, len(enc))
	}
	for j, e := range enc {
		for i, cs := range cases {
			got := 0.0
			if j+1 < len(back.Data) {
				got = back.Data[j+1].(CF.NumFeature).Get(i)
			}
			if !close2(got, e.V[cs], 1e-12) {
				t.Fatalf("column %d (%s) case %d reads back as %v, want %v", j+1, e.Name, cs, got, e.V[cs])
			}
		}
	}
	if err := CF.WriteLibSvmCases(fm, cases, "no such target", &b); err == nil {
		t.Fatalf("no error for an unknown target")
	}
}

func TestC03_WriteAll(t *testing.T) {
	forall(t, "random matrix written in libsvm form and read back; non-trivial: at least one predictor", 1200, 10000, func(t *rapid.T, c *Case) { testLibsvmWrite(t, c, false) })
}

func TestC03_WriteCases(t *testing.T) {
	forall(t, "random matrix and case selection written in libsvm form and read back; non-trivial: at least one predictor", 1200, 10000, func(t *rapid.T, c *Case) { testLibsvmWrite(t, c, true) })
}
