package cfverif

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	CF "github.com/ryanbressler/CloudForest"
	"pgregory.net/rapid"
)

// C36: what can't be read or written completely is reported.

var errFault = errors.New("injected fault")

// faultyWriter takes room bytes, then fails: once, or from then on.
type faultyWriter struct {
	room   int
	once   bool
	failed int
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.failed > 0 && w.once {
		return len(p), nil
	}
	if len(p) > w.room {
		n := w.room
		w.room = 0
		w.failed++
		return n, errFault
	}
	w.room -= len(p)
	return len(p), nil
}

// faultyReader delivers data in pieces, then fails instead of ending.
type faultyReader struct {
	data  []byte
	piece int
}

func (r *faultyReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, errFault
	}
	n := len(p)
	if n > r.piece {
		n = r.piece
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	return n, nil
}

func TestC36_FailingWriter(t *testing.T) {
	forall(t, "the writer fails before everything is written", 2500, 25000, func(t *rapid.T, c *Case) {
		var write func(w io.Writer) error
		what := rapid.SampledFrom([]string{"afm", "arff", "libsvm", "libsvm cases", "forest", "forest", "trees"}).Draw(t, "what")
		if what == "forest" || what == "trees" {
			m, trees, target := genSfForest(t, 4)
			f := &CF.Forest{Target: target}
			for _, tr := range trees {
				f.Trees = append(f.Trees, tr.real(m))
			}
			if rapid.Bool().Draw(t, "intercept") {
				f.Intercept = 1.5
			}
			write = func(w io.Writer) error {
				fw := CF.NewForestWriter(w)
				if what == "forest" {
					fw.WriteForest(f)
				} else {
					for i, tr := range f.Trees {
						fw.WriteTree(tr, i)
					}
				}
				return fw.Err()
			}
		} else {
			m := genMat(t, matOpts{minN: 1, maxN: 14, minF: 1, maxF: 6, missing: true, styles: bigStyles, maxCats: 5, appear: true, large: []int{90, 700}})
			tgt := m.F[rapid.IntRange(0, len(m.F)-1).Draw(t, "target")]
			for i := range tgt.Miss {
				tgt.Miss[i] = false
			}
			if !tgt.Num && len(tgt.Cats) == 0 {
				tgt.Cats = []string{"one"}
			}
			if strings.HasPrefix(what, "libsvm") && !uniqueModes(m) {
				t.Skip("ambiguous imputation")
			}
			cases := genCaseList(t, m.N)
			if rapid.IntRange(0, 9).Draw(t, "none") == 0 {
				cases = nil
			}
			write = func(w io.Writer) error {
				fm := m.real()
				switch what {
				case "afm":
					return fm.WriteCases(w, cases)
				case "arff":
					return CF.WriteArffCases(fm, cases, "relation", w)
				case "libsvm":
					return CF.WriteLibSvm(fm, tgt.Name, w)
				}
				return CF.WriteLibSvmCases(fm, cases, tgt.Name, w)
			}
		}
		var full bytes.Buffer
		if err := write(&full); err != nil {
			t.Fatalf("%s: %v writing to memory", what, err)
		}
		room := rapid.IntRange(0, full.Len()).Draw(t, "room")
		if rapid.IntRange(0, 3).Draw(t, "at the end") == 0 {
			room = full.Len() - rapid.IntRange(0, 2).Draw(t, "short")
			if room < 0 {
				room = 0
			}
		}
		w := &faultyWriter{room: room, once: rapid.Bool().Draw(t, "once")}
		err := write(w)
		if fits := room >= full.Len(); fits != (err == nil) || fits != (w.failed == 0) {
			t.Fatalf("%s: %d of %d bytes written (a single failure: %v) and the error is %v; all of it is %s", what, room, full.Len(), w.once, err, brief(full.String()))
		}
		c.Class("%s", what)
		c.ClassIf(w.once, "single failure")
		if err != nil {
			c.NT(full.String(), room)
			c.Sample("%s fails after %d of %d bytes: %v", what, room, full.Len(), err)
		}
	})
}

func TestC36_FailingReader(t *testing.T) {
	forall(t, "reading fails inside or after a forest with splits", 1500, 15000, func(t *rapid.T, c *Case) {
		m, trees, target := genSfForest(t, 4)
		f := &CF.Forest{Target: target}
		for _, tr := range trees {
			f.Trees = append(f.Trees, tr.real(m))
		}
		var b bytes.Buffer
		CF.NewForestWriter(&b).WriteForest(f)
		k := rapid.IntRange(0, b.Len()).Draw(t, "delivered")
		if rapid.IntRange(0, 3).Draw(t, "all") == 0 {
			k = b.Len()
		}
		r := &faultyReader{data: append([]byte(nil), b.Bytes()[:k]...), piece: rapid.SampledFrom([]int{1, 7, 100, 5000}).Draw(t, "piece")}
		g, err := CF.NewForestReader(r).ReadForest()
		if err == nil || err == io.EOF {
			t.Fatalf("reading fails after %d of %d bytes, got %v with error %v: %s", k, b.Len(), g, err, brief(b.String()))
		}
		sfNontrivial(c, trees, b.String())
	})
}

// TestC36_CutForest: a forest file that ends too early gives the trees before the cut or an error.
func TestC36_CutForest(t *testing.T) {
	forall(t, "the cut is inside a tree with splits", 3000, 30000, func(t *rapid.T, c *Case) {
		m, trees, target := genSfForest(t, 4)
		var b bytes.Buffer
		w := CF.NewForestWriter(&b)
		w.WriteForestHeader(0, target, 2.5)
		head := b.Len()
		ends := []int{}
		for i, tr := range trees {
			w.WriteTree(tr.real(m), i)
			ends = append(ends, b.Len())
		}
		text := b.String()
		k := rapid.IntRange(1, len(text)).Draw(t, "cut")
		how := "cut"
		if rapid.IntRange(0, 2).Draw(t, "how") == 0 {
			// cut at the end of a line, or drop a line from the middle
			lines := strings.SplitAfter(text[head:], "\n")
			lines = lines[:len(lines)-1]
			j := rapid.IntRange(0, len(lines)-1).Draw(t, "line")
			if rapid.Bool().Draw(t, "drop") && !strings.HasPrefix(lines[j], "TREE") {
				how = "drop"
				checkDropped(t, c, m, trees, text[:head], lines, j)
				return
			}
			k = head + len(strings.Join(lines[:j], ""))
		}
		g, err := CF.NewForestReader(strings.NewReader(text[:k])).ReadForest()
		whole := 0
		for _, e := range ends {
			if e-1 <= k { // the last new line may be missing
				whole++
			}
		}
		if err == nil {
			if g == nil {
				t.Fatalf("%q: neither a forest nor an error", text[:k])
			}
			for i, tr := range g.Trees {
				if why := incomplete(tr.Root); why != "" {
					t.Fatalf("%q: tree %d %s and there is no error", text[:k], i, why)
				}
			}
			if len(g.Trees) < whole {
				t.Fatalf("%q: %d trees, %d are complete", text[:k], len(g.Trees), whole)
			}
			checkSameTrees(t, fmt.Sprintf("cut %q", text[:k]), trees[:whole], g.Trees[:whole], m)
		} else if whole == len(trees) {
			t.Fatalf("%q: %v", text[:k], err)
		}
		c.ClassIf(err != nil, "reported")
		c.ClassIf(err == nil && whole < len(trees), "a shorter forest")
		inside := k > head
		for i, e := range ends {
			if e-1 <= k && (i+1 == len(ends) || k <= e+5) {
				inside = false
			}
		}
		if inside {
			c.NT(text, k)
			c.Sample("%s at %d: %v", how, k, err)
		}
	})
}

// TestC36_MalformedNumbers: a forest with a number that can't be read is refused.
func TestC36_MalformedNumbers(t *testing.T) {
	forall(t, "the forest has a tree with a numerical split", 2000, 20000, func(t *rapid.T, c *Case) {
		m, trees, target := genSfForest(t, 4)
		var b bytes.Buffer
		w := CF.NewForestWriter(&b)
		w.WriteForestHeader(0, target, 2.5)
		for i, tr := range trees {
			w.WriteTree(tr.real(m), i)
		}
		lines := strings.SplitAfter(b.String(), "\n")
		type num struct {
			line, from, to int
			what           string
		}
		nums := []num{}
		at := func(i int, key, end string) {
			l := lines[i]
			k := strings.LastIndex(l, key)
			if k < 0 {
				t.Fatalf("no %q in %q", key, l)
			}
			k += len(key)
			e := strings.LastIndex(l, end)
			if e < k {
				t.Fatalf("no %q after %q in %q", end, key, l)
			}
			nums = append(nums, num{i, k, e, strings.Trim(key, ",=")})
		}
		splits := false
		ti := 0
		for i, l := range lines {
			switch {
			case i == 0:
				at(i, ",INTERCEPT=", "\n")
			case strings.HasPrefix(l, "TREE="):
				if trees[ti].weight >= 0 {
					at(i, ",WEIGHT=", "\n")
				}
				ti++
			case strings.HasPrefix(l, "NODE=") && strings.Contains(l, ",SPLITTERTYPE=NUMERICAL,LVALUES="):
				at(i, ",LVALUES=", ",RVALUES=")
				splits = true
			}
		}
		k := nums[rapid.IntRange(0, len(nums)-1).Draw(t, "which")]
		if rapid.IntRange(0, 2).Draw(t, "late") > 0 && len(nums) > 1 {
			k = nums[rapid.IntRange(1, len(nums)-1).Draw(t, "which else")]
		}
		l := lines[k.line]
		old := l[k.from:k.to]
		bad := rapid.SampledFrom([]string{"", "abc", "1.2.3", "1e999", "-1e999", "--1", "1e", "0x", "1 2", old + "x", "x" + old, "1,5"}).Draw(t, "bad")
		lines[k.line] = l[:k.from] + bad + l[k.to:]
		text := strings.Join(lines, "")
		g, err := CF.NewForestReader(strings.NewReader(text)).ReadForest()
		if err == nil {
			n := -1
			if g != nil {
				n = len(g.Trees)
			}
			t.Fatalf("%q: %s is %q and a forest with %d trees is read without an error", text, k.what, bad, n)
		}
		c.Class(k.what)
		c.ClassIf(bad == "", "empty")
		if splits {
			c.NT(text)
			c.Sample("%s=%q: %v", k.what, bad, err)
		}
	})
}

// checkDropped reads the forest without one node line.
func checkDropped(t *rapid.T, c *Case, m *mmat, trees []*mtree, head string, lines []string, j int) {
	text := head + strings.Join(lines[:j], "") + strings.Join(lines[j+1:], "")
	path := strings.TrimPrefix(strings.SplitN(strings.TrimSpace(lines[j]), ",", 2)[0], "NODE=")
	type res struct {
		g   *CF.Forest
		err error
	}
	var r res
	r.g, r.err = CF.NewForestReader(strings.NewReader(text)).ReadForest()
	c.NT(text)
	if r.err != nil {
		c.Class("dropped node reported")
		return
	}
	if r.g == nil || len(r.g.Trees) != len(trees) {
		t.Fatalf("%q: %v", text, r.g)
	}
	for i, tr := range r.g.Trees {
		if why := incomplete(tr.Root); why != "" {
			t.Fatalf("%q without node %s: tree %d %s and there is no error", text, path, i, why)
		}
	}
	c.Class("dropped node not needed")
	// only a missing branch that is a leaf isn't missed by its parent
	if !strings.HasSuffix(path, "M") {
		t.Fatalf("%q: node %s is gone and there is no error", text, path)
	}
}

// incomplete says what a tree lacks to be applied.
func incomplete(n *CF.Node) (why string) {
	if n == nil {
		return "has no nodes"
	}
	seen := map[*CF.Node]bool{}
	var walk func(n *CF.Node)
	walk = func(n *CF.Node) {
		if seen[n] {
			why = "contains itself"
			return
		}
		seen[n] = true
		if n.Splitter != nil && (n.Left == nil || n.Right == nil) {
			why = "has a split without children"
			return
		}
		if n.Splitter == nil && (n.Left != nil || n.Right != nil || n.Missing != nil) {
			why = "has children without a split"
			return
		}
		for _, x := range []*CF.Node{n.Left, n.Right, n.Missing} {
			if x != nil {
				walk(x)
			}
		}
	}
	walk(n)
	return
}

// damage spoils one line of a table so that it no longer has the shape of the others; "" when it can't.
func damage(t *rapid.T, lines []string, sep string, first int) ([]string, string) {
	if len(lines)-first < 1 {
		return nil, ""
	}
	out := append([]string(nil), lines...)
	d := rapid.IntRange(first, len(lines)-1).Draw(t, "damaged line")
	cells := strings.Split(out[d], sep)
	kind := rapid.SampledFrom([]string{"extra", "missing", "open quote", "stray quote"}).Draw(t, "damage")
	k := rapid.IntRange(0, len(cells)-1).Draw(t, "cell")
	switch kind {
	case "extra":
		cells = append(cells, "1")
	case "missing":
		if len(cells) < 2 {
			return nil, ""
		}
		cells = append(cells[:k:k], cells[k+1:]...)
	case "open quote":
		cells[k] = `"` + strings.Replace(cells[k], `"`, "", -1)
	case "stray quote":
		cells[k] = `x"` + strings.Replace(cells[k], `"`, "", -1)
	}
	out[d] = strings.Join(cells, sep)
	if strings.TrimSpace(out[d]) == "" || kind == "missing" && len(cells) == 1 && cells[0] == "" {
		return nil, ""
	}
	return out, fmt.Sprintf("%s in line %d of %d", kind, d+1, len(lines))
}

// simpleTable is a table without cells that need quoting in any format.
func simpleTable(t *rapid.T) *mmat {
	return genMat(t, matOpts{minN: 1, maxN: 14, minF: 1, maxF: 6, missing: true, styles: bigStyles, maxCats: 5, appear: true, large: []int{90, 700}})
}

func TestC36_DamagedTable(t *testing.T) {
	forall(t, "the file is damaged", 1200, 12000, func(t *rapid.T, c *Case) {
		m := simpleTable(t)
		dir, done := scratchDir()
		defer done()
		name, what := "", ""
		var data []byte
		format := rapid.SampledFrom([]string{"rows", "cols", "arff", "libsvm", "zip", "folder", "empty"}).Draw(t, "format")
		plain := func(lines []string) {
			data = []byte(strings.Join(lines, "\n") + "\n")
		}
		rows := strings.Split(strings.TrimSpace(m.afm()), "\n")
		switch format {
		case "rows":
			name = "d.afm"
			lines, w := damage(t, rows, "\t", 0)
			what = w
			plain(lines)
		case "cols":
			name = "d.tsv"
			lines, w := damage(t, strings.Split(strings.TrimRight(colsOf(m), "\n"), "\n"), "\t", 0)
			what = w
			plain(lines)
		case "arff":
			name = "d.arff"
			lines := strings.Split(strings.TrimRight(m.arff(), "\n"), "\n")
			first := len(lines) - m.N
			switch rapid.IntRange(0, 3).Draw(t, "part") {
			case 0: // the header ends early
				k := rapid.IntRange(1, first-1).Draw(t, "end")
				lines, what = lines[:k], fmt.Sprintf("no data after line %d", k)
			case 1:
				k := 2 + rapid.IntRange(0, len(m.F)-1).Draw(t, "attribute")
				lines[k] = strings.Join(strings.Fields(lines[k])[:rapid.IntRange(1, 2).Draw(t, "words")], " ")
				what = fmt.Sprintf("attribute %q", lines[k])
			default:
				lines, what = damage(t, lines, ",", first)
			}
			plain(lines)
		case "libsvm":
			name = "d.libsvm"
			var lines []string
			for i := 0; i < m.N; i++ {
				line := "1"
				for j := range m.F {
					line += fmt.Sprintf(" %d:%d", j+1, i)
				}
				lines = append(lines, line)
			}
			d := rapid.IntRange(0, m.N-1).Draw(t, "damaged line")
			toks := strings.Split(lines[d], " ")
			k := rapid.IntRange(1, len(toks)-1).Draw(t, "entry")
			toks[k] = rapid.SampledFrom([]string{"7", "x:1", ":1", "0:1", "-1:1", "1.5:2", "1:2:3", "1::2", "a"}).Draw(t, "entry is")
			lines[d] = strings.Join(toks, " ")
			what = fmt.Sprintf("entry %q in line %d of %d", toks[k], d+1, len(lines))
			plain(lines)
		case "zip":
			name = "d.zip"
			var b bytes.Buffer
			zw := zip.NewWriter(&b)
			method := rapid.SampledFrom([]uint16{zip.Store, zip.Deflate}).Draw(t, "method")
			w, _ := zw.CreateHeader(&zip.FileHeader{Name: "inner.afm", Method: method})
			w.Write([]byte(m.afm()))
			zw.Close()
			data = b.Bytes()
			r, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
			if err != nil {
				harnessErr("zip: %v", err)
			}
			off, _ := r.File[0].DataOffset()
			if rapid.IntRange(0, 3).Draw(t, "damaged text") == 0 {
				// an intact archive of a damaged table
				lines, w := damage(t, rows, "\t", 0)
				if w == "" {
					return
				}
				b.Reset()
				zw := zip.NewWriter(&b)
				iw, _ := zw.CreateHeader(&zip.FileHeader{Name: "inner.afm", Method: method})
				iw.Write([]byte(strings.Join(lines, "\n")))
				zw.Close()
				data, what = b.Bytes(), "zipped "+w
				break
			}
			at := int(off) + rapid.IntRange(0, int(r.File[0].CompressedSize64)-1).Draw(t, "byte")
			data[at] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, "bit"))
			if r, err := zip.NewReader(bytes.NewReader(data), int64(len(data))); err == nil {
				if in, err := r.File[0].Open(); err == nil {
					if _, err := io.ReadAll(in); err == nil {
						return // bits the archive doesn't use
					}
				}
			}
			what = fmt.Sprintf("byte %d of the archive (method %d)", at, method)
		case "folder":
			name, what = "d.afm", "a folder"
			if rapid.Bool().Draw(t, "arff") {
				name = rapid.SampledFrom([]string{"d.arff", "d.libsvm"}).Draw(t, "name")
			}
			os.Mkdir(filepath.Join(dir, name), 0o755)
		case "empty":
			name, what = rapid.SampledFrom([]string{"d.afm", "d.arff", "d.libsvm"}).Draw(t, "name"), "an empty file"
		}
		if what == "" {
			return
		}
		if format != "folder" {
			writeFile(dir, name, string(data))
		}
		fm, err := CF.LoadAFM(filepath.Join(dir, name))
		if err == nil {
			t.Fatalf("LoadAFM(%s) with %s has no error and %d features: %s", name, what, len(fm.Data), brief(string(data)))
		}
		c.Class("%s", format)
		c.NT(string(data), what)
		c.Sample("%s %s: %v", name, what, err)
	})
}

// colsOf is the table with features in columns.
func colsOf(m *mmat) string {
	var names []string
	for _, f := range m.F {
		names = append(names, f.Name)
	}
	out := ".\t" + strings.Join(names, "\t") + "\n"
	cells := m.cells()
	for i := 0; i < m.N; i++ {
		row := []string{m.Labels[i]}
		for j := range m.F {
			row = append(row, cells[j][i])
		}
		out += strings.Join(row, "\t") + "\n"
	}
	return out
}

// mutate spoils a text in a few places.
func mutate(t *rapid.T, text string) string {
	b := []byte(text)
	for k := rapid.IntRange(1, 4).Draw(t, "edits"); k > 0 && len(b) > 0; k-- {
		i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		j := i + rapid.SampledFrom([]int{1, 1, 2, 5, 20, 80}).Draw(t, "length")
		if j > len(b) {
			j = len(b)
		}
		switch rapid.IntRange(0, 5).Draw(t, "edit") {
		case 0: // delete
			b = append(b[:i:i], b[j:]...)
		case 1: // repeat
			b = append(b[:j:j], b[i:]...)
		case 2: // end
			b = b[:i]
		case 3, 4: // insert
			s := rapid.SampledFrom([]string{"\t", "\n", "\n\n", " ", ",", ":", "=", "\"", "%", "@", "?", "*", "L", "R", "M", "NODE=*LLL", "TREE=0\n", "FOREST=0\n", "N:", "C:", "@data\n", "@attribute x\n", "-1", "NaN", "1e999", "\x00", "\xff", "\r"}).Draw(t, "insert")
			b = append(b[:i:i], append([]byte(s), b[i:]...)...)
		case 5: // overwrite
			b[i] = byte(rapid.IntRange(0, 255).Draw(t, "byte"))
		}
	}
	return string(b)
}

// TestC36_AnyText: whatever the bytes, reading ends with a table or forest that holds together or an error.
func TestC36_AnyText(t *testing.T) {
	forall(t, "a damaged text that is read without an error, or reported", 6000, 60000, func(t *rapid.T, c *Case) {
		what := rapid.SampledFrom([]string{"forest", "forest", "forest", "afm", "cols", "arff", "libsvm"}).Draw(t, "what")
		text := ""
		if what == "forest" {
			m, trees, target := genSfForest(t, 3)
			var b bytes.Buffer
			w := CF.NewForestWriter(&b)
			if rapid.Bool().Draw(t, "header") {
				w.WriteForestHeader(0, target, 0.5)
			}
			for i, tr := range trees {
				w.WriteTree(tr.real(m), i)
			}
			text = mutate(t, b.String())
			quiet(func() {
				g, err := CF.NewForestReader(strings.NewReader(text)).ReadForest()
				if err != nil {
					c.Class("forest: reported")
					return
				}
				if g == nil {
					t.Fatalf("%q: neither a forest nor an error", text)
				}
				for i, tr := range g.Trees {
					if why := incomplete(tr.Root); why != "" {
						t.Fatalf("%q: tree %d %s and there is no error", text, i, why)
					}
				}
				c.Class("forest: read")
			})
			c.NT(text)
			c.Sample("%s", brief(text))
			return
		}
		m := simpleTable(t)
		name := "d.afm"
		switch what {
		case "afm":
			text = m.afm()
		case "cols":
			text = colsOf(m)
		case "arff":
			text, name = m.arff(), "d.arff"
		case "libsvm":
			for i := 0; i < m.N; i++ {
				text += "1.5"
				for j := range m.F {
					if rapid.Bool().Draw(t, "entry") || m.N > 50 {
						text += fmt.Sprintf(" %d:%d", j+1, i)
					}
				}
				text += "\n"
			}
			name = "d.libsvm"
		}
		text = mutate(t, text)
		if what == "libsvm" {
			// a column number is a promise of as many columns
			for _, tok := range strings.Fields(text) {
				if n, err := strconv.Atoi(strings.SplitN(tok, ":", 2)[0]); err == nil && n > 3000 {
					return
				}
			}
		}
		dir, done := scratchDir()
		defer done()
		writeFile(dir, name, text)
		fm, err := CF.LoadAFM(filepath.Join(dir, name))
		c.NT(text, name)
		c.Sample("%s", brief(text))
		if err != nil {
			c.Class("%s: reported", what)
			return
		}
		c.Class("%s: read", what)
		for _, f := range fm.Data {
			if f.Length() != len(fm.CaseLabels) {
				t.Fatalf("%s %q is read without an error and feature %q has %d values for %d cases", name, text, f.GetName(), f.Length(), len(fm.CaseLabels))
			}
			for i := 0; i < f.Length(); i++ {
				f.GetStr(i)
				f.IsMissing(i)
			}
		}
	})
}

// TestC36_Tools: the tools fail when the disk is full or what they read is damaged.
func TestC36_Tools(t *testing.T) {
	forall(t, "a full disk, or a damaged data or forest file", 150, 1500, func(t *rapid.T, c *Case) {
		g := genCli(t, []string{"gini", "num"}, false)
		dir, done := scratchDir()
		defer done()
		target := g.r.col.Name
		writeFile(dir, "train.afm", g.m.afm())
		grow := []string{"-train", "train.afm", "-target", target, "-rfpred", "f.sf", "-nTrees", rapid.SampledFrom([]string{"1", "2", "5"}).Draw(t, "trees"), "-noseed", "-leafSize", "1",
			"-nCores", rapid.SampledFrom([]string{"1", "3"}).Draw(t, "cores"), "-importance", "imp.tsv", "-scikitforest", "sk.json"}
		mustRun(t, dir, "growforest", grow...)
		tool, args, outs := "growforest", append(grow, "-oobpreds", "oob.tsv"), []string{"f.sf", "imp.tsv", "sk.json", "oob.tsv"}
		data, forest := "train.afm", ""
		switch rapid.IntRange(0, 4).Draw(t, "tool") {
		case 1:
			tool, args, outs, forest = "applyforest", []string{"-fm", data, "-rfpred", "f.sf", "-preds", "p.tsv"}, []string{"p.tsv"}, "f.sf"
			if !g.r.isNum() {
				args, outs = append(args, "-votes", "v.tsv"), append(outs, "v.tsv")
			}
		case 2:
			tool, args, outs, forest = "leafcount", []string{"-fm", data, "-rfpred", "f.sf", "-leaves", "l.tsv", "-branches", "b.tsv", "-splits", "s.json"}, []string{"l.tsv", "b.tsv", "s.json"}, "f.sf"
		case 3:
			tool, args, outs = "nfold", []string{"-fm", data, "-target", target, "-folds", "2"}, []string{"train_0.fm", "test_0.fm", "train_1.fm", "test_1.fm"}
			if rapid.Bool().Draw(t, "writeall") {
				args = append(args, "-writeall")
				for _, o := range outs[:4] {
					outs = append(outs, o+".arff", o+".libsvm")
				}
			}
		case 4:
			tool, args, outs = "toafm", []string{"-data", data, "-out", "o.afm"}, []string{"o.afm"}
			if rapid.IntRange(0, 2).Draw(t, "libsvm") == 0 {
				args = append(args, "-libsvmtarget", target)
			}
		}
		what := ""
		kind := rapid.SampledFrom([]string{"disk", "disk", "data", "forest"}).Draw(t, "fault")
		switch {
		case kind == "disk":
			mustRun(t, dir, tool, args...)
			out := filepath.Join(dir, rapid.SampledFrom(outs).Draw(t, "output"))
			if st, err := os.Stat(out); err != nil || st.Size() == 0 {
				c.Class("nothing to write")
				return
			}
			os.Remove(out)
			if err := os.Symlink("/dev/full", out); err != nil {
				harnessErr("symlink: %v", err)
			}
			what = "no room for " + filepath.Base(out)
		case kind == "forest" && forest != "":
			text, _ := readFile(filepath.Join(dir, forest))
			lines := strings.SplitAfter(strings.TrimSuffix(text, "\n"), "\n")
			j := rapid.IntRange(0, len(lines)-1).Draw(t, "line")
			if strings.HasPrefix(lines[j], "NODE=") && strings.HasSuffix(strings.SplitN(lines[j], ",", 2)[0], "M") || strings.HasPrefix(lines[j], "FOREST") || j > 0 && strings.HasPrefix(lines[j], "TREE") {
				return // not missed
			}
			text = strings.Join(lines[:j], "") + strings.Join(lines[j+1:], "")
			writeFile(dir, forest, text)
			what = fmt.Sprintf("forest without line %q", lines[j])
		default:
			lines, w := damage(t, strings.Split(strings.TrimSpace(g.m.afm()), "\n"), "\t", 0)
			if w == "" {
				return
			}
			writeFile(dir, data, strings.Join(lines, "\n")+"\n")
			what = "data with " + w
		}
		res := runTool(dir, tool, args...)
		if res.rc == 0 || strings.TrimSpace(res.stderr) == "" {
			t.Fatalf("%s: %s %q succeeds or is silent (%d): %s %s", what, tool, args, res.rc, res.stdout, res.stderr)
		}
		if strings.Contains(res.stderr, "goroutine ") {
			t.Fatalf("%s: %s %q panics: %s", what, tool, args, tail(res.stderr, 1500))
		}
		c.Class("%s %s", tool, kind)
		c.NT(fmt.Sprint(args), what, g.m.String())
		c.Sample("%s %v: %s: %s", tool, args, what, tail(strings.TrimSpace(res.stderr), 200))
	})
}
