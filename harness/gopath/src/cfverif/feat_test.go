package cfverif

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"testing"

	CF "github.com/ryanbressler/CloudForest"
	"pgregory.net/rapid"
)

// col is a live column with its list-of-optionals model.
type col struct {
	id    string
	f     CF.Feature
	num   bool
	miss  []bool
	v     []float64
	s     []string
	marks bool // some cell was marked missing since creation or the last imputation
	nums  map[string]int
}

func (k *col) clone(id string, f CF.Feature) *col {
	n := &col{id: id, f: f, num: k.num, marks: k.marks, nums: map[string]int{}}
	n.miss = append([]bool(nil), k.miss...)
	n.v = append([]float64(nil), k.v...)
	n.s = append([]string(nil), k.s...)
	for a, b := range k.nums {
		n.nums[a] = b
	}
	return n
}

func isMissTok(s string) bool {
	switch strings.ToLower(s) {
	case "", "?", "nan", "na", "null":
		return true
	}
	return false
}

func (k *col) set(i int, text string) {
	if k.num {
		x, err := strconv.ParseFloat(text, 64)
		if err != nil || math.IsNaN(x) {
			k.miss[i] = true
			k.marks = true
			return
		}
		k.v[i], k.miss[i] = x, false
		return
	}
	if isMissTok(text) {
		k.miss[i] = true
		k.marks = true
		return
	}
	k.s[i], k.miss[i] = text, false
}

func (k *col) check(t *rapid.T) {
	f := k.f
	if f.Length() != len(k.miss) {
		t.Fatalf("%s: length %d, model %d", k.id, f.Length(), len(k.miss))
	}
	any := false
	for i, m := range k.miss {
		any = any || m
		if f.IsMissing(i) != m {
			t.Fatalf("%s: case %d missing=%v, model %v", k.id, i, f.IsMissing(i), m)
		}
		if m {
			if f.GetStr(i) != "NA" {
				t.Fatalf("%s: missing case %d prints %q", k.id, i, f.GetStr(i))
			}
			continue
		}
		if k.num {
			if g := f.(CF.NumFeature).Get(i); g != k.v[i] {
				t.Fatalf("%s: case %d is %v, model %v", k.id, i, g, k.v[i])
			}
			if f.GetStr(i) != fmt.Sprintf("%v", k.v[i]) {
				t.Fatalf("%s: case %d prints %q, model %v", k.id, i, f.GetStr(i), k.v[i])
			}
		} else if f.GetStr(i) != k.s[i] {
			t.Fatalf("%s: case %d is %q, model %q", k.id, i, f.GetStr(i), k.s[i])
		}
	}
	for _, cases := range [][]int{seq(len(k.miss)), rotate(append(seq(len(k.miss)), seq(len(k.miss))...), 1)} {
		var got, want []int
		for _, i := range cases {
			if !k.miss[i] {
				want = append(want, i)
			}
		}
		switch x := f.(type) {
		case *CF.DenseNumFeature:
			x.FilterMissing(&cases, &got)
		case *CF.DenseCatFeature:
			x.FilterMissing(&cases, &got)
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fatalf("%s: cases %v without missing ones are %v, want %v", k.id, cases, got, want)
		}
	}
	if any && !f.MissingVals() {
		t.Fatalf("%s denies having missing values", k.id)
	}
	if !k.marks && f.MissingVals() {
		t.Fatalf("%s claims missing values though none was ever marked missing", k.id)
	}
	if k.num {
		if f.NCats() != 0 {
			t.Fatalf("%s: numerical column with %d categories", k.id, f.NCats())
		}
		return
	}
	cf := f.(CF.CatFeature)
	if f.NCats() != len(k.nums) {
		t.Fatalf("%s: %d categories, model knows %d (%v)", k.id, f.NCats(), len(k.nums), k.nums)
	}
	seen := map[string]bool{}
	for n := 0; n < f.NCats(); n++ {
		l := cf.NumToCat(n)
		if seen[l] {
			t.Fatalf("%s: two numbers for label %q", k.id, l)
		}
		seen[l] = true
		old, ok := k.nums[l]
		if !ok {
			t.Fatalf("%s: label %q was never entered", k.id, l)
		}
		if old >= 0 && old != n {
			t.Fatalf("%s: label %q changed from number %d to %d", k.id, l, old, n)
		}
		k.nums[l] = n
	}
	for l, n := range k.nums {
		if g := cf.CatToNum(l); g != n {
			t.Fatalf("%s: label %q maps to %d but %d stands for it", k.id, l, g, n)
		}
	}
	for i, m := range k.miss {
		if !m && cf.NumToCat(cf.Geti(i)) != k.s[i] {
			t.Fatalf("%s: case %d number %d stands for %q, want %q", k.id, i, cf.Geti(i), cf.NumToCat(cf.Geti(i)), k.s[i])
		}
	}
}

func (k *col) learn(l string) {
	if k.num || isMissTok(l) {
		return
	}
	if _, ok := k.nums[l]; !ok {
		k.nums[l] = -1
	}
}

func (k *col) key(i int) string {
	if k.miss[i] {
		return "NA!"
	}
	if k.num {
		return fmt.Sprint(k.v[i])
	}
	return "=" + k.s[i]
}

// resync adopts the current content of the real column after a permutation limited to idx.
func (k *col) resync(t *rapid.T, idx []int, what string) {
	in := map[int]bool{}
	for _, i := range idx {
		in[i] = true
	}
	before := map[string]int{}
	for i := range k.miss {
		if in[i] {
			before[k.key(i)]++
		}
	}
	for i := range k.miss {
		m := k.f.IsMissing(i)
		if !in[i] {
			continue // check() verifies these against the old model
		}
		k.miss[i] = m
		if !m {
			if k.num {
				k.v[i] = k.f.(CF.NumFeature).Get(i)
			} else {
				k.s[i] = k.f.GetStr(i)
			}
		}
		before[k.key(i)]--
	}
	for s, n := range before {
		if n != 0 {
			t.Fatalf("%s: %s changed the number of %q by %d", k.id, what, s, -n)
		}
	}
}

func (k *col) known() (n int) {
	for _, m := range k.miss {
		if !m {
			n++
		}
	}
	return
}

func newRealCol(num bool, how int, name string, cells []string) CF.Feature {
	if how == 0 { // as parsed from a file
		return CF.ParseFeature(append([]string{name}, cells...))
	}
	var f CF.Feature
	if num {
		f = &CF.DenseNumFeature{Name: name}
	} else {
		f = &CF.DenseCatFeature{CatMap: &CF.CatMap{Map: map[string]int{}}, Name: name}
	}
	for _, s := range cells {
		f.Append(s)
	}
	return f
}

func drawCellText(t *rapid.T, num bool) string {
	if rapid.IntRange(0, 3).Draw(t, "cellmiss") == 0 {
		return rapid.SampledFrom(missTokens).Draw(t, "tok")
	}
	if num {
		return fmt.Sprintf("%v", drawNum(t, rapid.SampledFrom([]string{"few", "grid", "float"}).Draw(t, "st"), "cell"))
	}
	return rapid.SampledFrom([]string{"red", "green", "blue", "a", "b", "x y", "1", "true"}).Draw(t, "catcell")
}

func TestC17_Machine(t *testing.T) {
	forall(t, "random operation history over a column and up to four live copies; non-trivial: a write happened after a copy was taken", 1500, 12000, func(t *rapid.T, c *Case) {
		num := rapid.Bool().Draw(t, "num")
		name := "C:x"
		if num {
			name = "N:x"
		}
		n := genSize(t, 1, 8, 100)
		cells := make([]string, n)
		for i := range cells {
			cells[i] = drawCellText(t, num)
		}
		k0 := &col{id: "column", num: num, miss: make([]bool, n), v: make([]float64, n), s: make([]string, n), nums: map[string]int{}}
		k0.f = newRealCol(num, rapid.IntRange(0, 1).Draw(t, "how"), name, cells)
		for i := range cells {
			k0.set(i, cells[i])
			k0.learn(cells[i])
		}
		cols := []*col{k0}
		allocs := CF.NewBestSplitAllocs(256, CF.Target(nil2(k0.f)))
		wroteAfterCopy := false
		trace := []string{}
		pick := func() *col { return cols[rapid.IntRange(0, len(cols)-1).Draw(t, "col")] }
		idx := func(k *col) int { return rapid.IntRange(0, len(k.miss)-1).Draw(t, "i") }
		log := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
		wrote := func() {
			if len(cols) > 1 {
				wroteAfterCopy = true
			}
		}
		acts := map[string]func(*rapid.T){
			"append": func(t *rapid.T) {
				k := pick()
				if len(k.miss) >= 200 {
					return
				}
				s := drawCellText(t, num)
				k.f.Append(s)
				k.miss, k.v, k.s = append(k.miss, false), append(k.v, 0), append(k.s, "")
				k.set(len(k.miss)-1, s)
				k.learn(s)
				wrote()
				log("%s.Append(%q)", k.id, s)
			},
			"putStr": func(t *rapid.T) {
				k := pick()
				i, s := idx(k), drawCellText(t, num)
				k.f.PutStr(i, s)
				k.set(i, s)
				k.learn(s)
				wrote()
				log("%s.PutStr(%d,%q)", k.id, i, s)
			},
			"putMissing": func(t *rapid.T) {
				k := pick()
				i := idx(k)
				k.f.PutMissing(i)
				k.miss[i], k.marks = true, true
				wrote()
				log("%s.PutMissing(%d)", k.id, i)
			},
			"put": func(t *rapid.T) {
				k := pick()
				i := idx(k)
				if num {
					x := drawNum(t, "grid", "x")
					k.f.(CF.NumFeature).Put(i, x)
					k.v[i], k.miss[i] = x, false
				} else if k.f.NCats() > 0 {
					n := rapid.IntRange(0, k.f.NCats()-1).Draw(t, "cat")
					k.f.(CF.CatFeature).Puti(i, n)
					k.s[i], k.miss[i] = k.f.(CF.CatFeature).NumToCat(n), false
				}
				wrote()
				log("%s.Put(%d)", k.id, i)
			},
			"newLabel": func(t *rapid.T) {
				if num {
					return
				}
				k := pick()
				l := rapid.SampledFrom([]string{"new1", "new2", "red", "b"}).Draw(t, "nl")
				k.f.(CF.CatFeature).CatToNum(l)
				k.learn(l)
				wrote()
				log("%s.CatToNum(%q)", k.id, l)
			},
			"copy": func(t *rapid.T) {
				k := pick()
				cp := k.clone(fmt.Sprintf("copy%d", len(trace)), k.f.Copy())
				if cp.f.GetName() != k.f.GetName() {
					t.Fatalf("copy is named %q, not %q", cp.f.GetName(), k.f.GetName())
				}
				if len(cols) < 5 {
					cols = append(cols, cp)
				} else {
					cols[rapid.IntRange(1, 4).Draw(t, "slot")] = cp
				}
				if cp.f.MissingVals() != k.f.MissingVals() {
					t.Fatalf("copy answers MissingVals=%v, original %v", cp.f.MissingVals(), k.f.MissingVals())
				}
				log("%s=%s.Copy()", cp.id, k.id)
			},
			"copyInto": func(t *rapid.T) {
				a, b := pick(), pick()
				if a == b || len(a.miss) != len(b.miss) {
					return
				}
				if !num { // only between columns that number their labels alike
					if a.f.NCats() != b.f.NCats() {
						return
					}
					for n := 0; n < a.f.NCats(); n++ {
						if a.f.(CF.CatFeature).NumToCat(n) != b.f.(CF.CatFeature).NumToCat(n) {
							return
						}
					}
				}
				a.f.CopyInTo(b.f)
				copy(b.miss, a.miss)
				copy(b.v, a.v)
				copy(b.s, a.s)
				b.marks = a.marks || b.marks
				c.Class("copyInto")
				log("%s.CopyInTo(%s)", a.id, b.id)
			},
			"shuffle": func(t *rapid.T) {
				k := pick()
				k.f.Shuffle()
				k.resync(t, seq(len(k.miss)), "Shuffle")
				wrote()
				log("%s.Shuffle()", k.id)
			},
			"shuffleCases": func(t *rapid.T) {
				k := pick()
				p := genPerm(t, len(k.miss), "perm")
				p = append([]int(nil), p[:rapid.IntRange(0, len(p)).Draw(t, "np")]...)
				k.f.ShuffleCases(&p, allocs)
				k.resync(t, p, "ShuffleCases")
				wrote()
				log("%s.ShuffleCases(%v)", k.id, p)
			},
			"impute": func(t *rapid.T) {
				k := pick()
				if k.known() == 0 {
					return
				}
				if num {
					sum := 0.0
					for i, m := range k.miss {
						if !m {
							sum += k.v[i]
						}
					}
					mean := sum / float64(k.known())
					k.f.ImputeMissing()
					for i, m := range k.miss {
						if m {
							g := k.f.(CF.NumFeature).Get(i)
							if !closeAt(g, mean, maxAbs(k.v)) {
								t.Fatalf("%s: imputed %v, mean %v", k.id, g, mean)
							}
							k.v[i], k.miss[i] = g, false
						}
					}
				} else {
					cnt := map[string]int{}
					best := 0
					for i, m := range k.miss {
						if !m {
							cnt[k.s[i]]++
							if cnt[k.s[i]] > best {
								best = cnt[k.s[i]]
							}
						}
					}
					k.f.ImputeMissing()
					for i, m := range k.miss {
						if m {
							g := k.f.GetStr(i)
							if cnt[g] != best {
								t.Fatalf("%s: imputed %q which occurs %d times, mode occurs %d", k.id, g, cnt[g], best)
							}
							k.s[i], k.miss[i] = g, false
						}
					}
				}
				k.marks = false
				c.Class("impute")
				log("%s.ImputeMissing()", k.id)
			},
			"": func(t *rapid.T) {
				for _, k := range cols {
					k.check(t)
				}
			},
		}
		t.Repeat(acts)
		c.ClassIf(len(cols) > 1, "with copies")
		c.ClassIf(num, "numerical")
		if wroteAfterCopy {
			c.NT(cells, trace)
			c.Sample("%v cells=%v", trace, cells)
		}
	})
}

// nil2 gives allocation sizes for a column that is used as its own target.
func nil2(f CF.Feature) CF.Target { return f.(CF.Target) }

// ---------------------------------------------------------------- C18

func TestC18_Permute(t *testing.T) {
	forall(t, "random column shuffled wholly, over a case subset, or into a contrast copy; non-trivial: at least three cases and two distinct cells", 3000, 20000, func(t *rapid.T, c *Case) {
		n := genSize(t, 1, 25, 100, 1000)
		var mf *mfeat
		if rapid.Bool().Draw(t, "num") {
			mf = genNumFeatStyle(t, "N:f", n, true, rapid.SampledFrom(allStyles).Draw(t, "style"))
		} else {
			mf = genCatFeat(t, "C:f", n, true, rapid.IntRange(1, 8).Draw(t, "k"), true)
		}
		f := mf.real()
		cellsOf := func(f CF.Feature) []string {
			out := make([]string, f.Length())
			for i := range out {
				out[i] = f.GetStr(i)
			}
			return out
		}
		before := cellsOf(f)
		distinct := map[string]bool{}
		for _, s := range before {
			distinct[s] = true
		}
		allocs := CF.NewBestSplitAllocs(n, f.(CF.Target))
		mode := rapid.SampledFrom([]string{"shuffle", "cases", "contrast"}).Draw(t, "mode")
		idx := seq(n)
		switch mode {
		case "shuffle":
			f.Shuffle()
		case "cases":
			p := genPerm(t, n, "perm")
			idx = append([]int(nil), p[:rapid.IntRange(0, n).Draw(t, "np")]...)
			orig := cp(idx)
			f.ShuffleCases(&idx, allocs)
			if !sameMultiset(orig, idx) {
				t.Fatalf("shuffling over cases changed the case list %v to %v", orig, idx)
			}
		case "contrast":
			g := f.ShuffledCopy()
			if g.GetName() != f.GetName()+":SHUFFLED" {
				t.Fatalf("contrast of %q is named %q", f.GetName(), g.GetName())
			}
			for i, s := range cellsOf(f) {
				if s != before[i] {
					t.Fatalf("making a contrast changed case %d of the original from %q to %q", i, before[i], s)
				}
			}
			checkFeature(t, mf, f, true)
			if mf.hasMissing() != g.MissingVals() {
				t.Fatalf("contrast of a column with missing=%v says %v", mf.hasMissing(), g.MissingVals())
			}
			f = g
		}
		after := cellsOf(f)
		in := map[int]bool{}
		for _, i := range idx {
			in[i] = true
		}
		diff := map[string]int{}
		for i := range before {
			if !in[i] && before[i] != after[i] {
				t.Fatalf("case %d outside the shuffled set changed from %q to %q", i, before[i], after[i])
			}
			diff[before[i]]++
			diff[after[i]]--
		}
		for s, d := range diff {
			if d != 0 {
				t.Fatalf("%s: %q occurs %d times fewer after shuffling (%v -> %v)", mode, s, d, before, after)
			}
		}
		c.Class(mode)
		if n > 2 && len(distinct) > 1 {
			c.NT(before, mode)
			c.Sample("%s idx=%v %v", mode, idx, mf)
		}
	})
}

func TestC18_Contrasts(t *testing.T) {
	forall(t, "random matrix with contrasts added; non-trivial: more than one contrast column", 1500, 10000, func(t *rapid.T, c *Case) {
		m := genMat(t, matOpts{minN: 1, maxN: 12, large: []int{100, 500}, minF: 1, maxF: 6, missing: true, styles: allStyles, maxCats: 6, appear: true})
		fm := m.real()
		all := rapid.Bool().Draw(t, "all")
		k := len(m.F)
		if all {
			fm.ContrastAll()
		} else {
			k = rapid.IntRange(0, 10).Draw(t, "k")
			fm.AddContrasts(k)
		}
		if len(fm.Data) != len(m.F)+k {
			t.Fatalf("%d columns after adding %d contrasts to %d", len(fm.Data), k, len(m.F))
		}
		for i, f := range m.F {
			checkFeature(t, f, fm.Data[i], true)
			if fm.Map[f.Name] != i {
				t.Fatalf("lookup of %q moved to %d", f.Name, fm.Map[f.Name])
			}
		}
		for i := len(m.F); i < len(fm.Data); i++ {
			g := fm.Data[i]
			orig := m.feat(strings.TrimSuffix(g.GetName(), ":SHUFFLED"))
			if orig == nil || !strings.HasSuffix(g.GetName(), ":SHUFFLED") {
				t.Fatalf("contrast is named %q", g.GetName())
			}
			if all && orig != m.F[i-len(m.F)] {
				t.Fatalf("contrast %d is of %q", i, orig.Name)
			}
			j, ok := fm.Map[g.GetName()]
			if !ok || fm.Data[j].GetName() != g.GetName() {
				t.Fatalf("contrast %q is not found by name", g.GetName())
			}
			d := map[string]int{}
			for i := 0; i < m.N; i++ {
				d[orig.str(i)]++
				d[g.GetStr(i)]--
			}
			for s, x := range d {
				if x != 0 {
					t.Fatalf("contrast %q is not a rearrangement: %q off by %d", g.GetName(), s, x)
				}
			}
		}
		// contrasts are separate columns
		if len(fm.Data) > len(m.F) {
			g := fm.Data[len(fm.Data)-1]
			g.PutStr(0, "77")
			for i, f := range m.F {
				checkFeature(t, f, fm.Data[i], false)
			}
		}
		c.ClassIf(all, "all")
		if k > 1 {
			c.NT(m.String(), k)
			c.Sample("k=%d %v", k, m)
		}
	})
}

func TestC18_Reach(t *testing.T) {
	forall(t, "all arrangements of a 2 to 4 element column come up within 60*n! shuffles, about equally often; non-trivial: all cases", 60, 400, func(t *rapid.T, c *Case) {
		n := rapid.IntRange(2, 4).Draw(t, "n")
		num := rapid.Bool().Draw(t, "num")
		mode := rapid.SampledFrom([]string{"shuffle", "cases", "contrast", "contrast all", "add contrasts"}).Draw(t, "mode")
		extra := rapid.IntRange(0, 2).Draw(t, "extra")
		f := CF.Feature(&CF.DenseNumFeature{Name: "N:f"})
		if !num {
			f = &CF.DenseCatFeature{CatMap: &CF.CatMap{Map: map[string]int{}}, Name: "C:f"}
		}
		if mode != "cases" {
			extra = 0
		}
		missing := -1
		if rapid.Bool().Draw(t, "missing") {
			missing = extra + rapid.IntRange(0, n-1).Draw(t, "which")
		}
		for i := 0; i < n+extra; i++ {
			if i == missing {
				f.Append("NA")
			} else {
				f.Append(strconv.Itoa(i))
			}
		}
		allocs := CF.NewBestSplitAllocs(n+extra, f.(CF.Target))
		show := f
		fact := 1
		for i := 2; i <= n; i++ {
			fact *= i
		}
		seen := map[string]int{}
		total := 60 * fact
		idx := seq(n + extra)[extra:]
		for r := 0; r < total; r++ {
			switch mode {
			case "shuffle":
				f.Shuffle()
			case "cases":
				f.ShuffleCases(&idx, allocs)
			case "contrast":
				show = f.ShuffledCopy()
			default:
				fm := &CF.FeatureMatrix{Data: []CF.Feature{f}, Map: map[string]int{f.GetName(): 0}, CaseLabels: make([]string, n)}
				if mode == "contrast all" {
					fm.ContrastAll()
				} else {
					fm.AddContrasts(1)
				}
				show = fm.Data[1]
			}
			s := ""
			for i := 0; i < n+extra; i++ {
				s += show.GetStr(i) + " "
			}
			seen[s]++
		}
		if len(seen) != fact {
			t.Fatalf("%s of %d elements reached %d of %d arrangements in %d tries: %v", mode, n, len(seen), fact, total, seen)
		}
		for s, k := range seen { // expected 60 each; the band is beyond 6.5 standard deviations
			if k < 10 || k > 115 {
				t.Fatalf("arrangement %q came up %d times of %d, expected about 60", s, k, total)
			}
		}
		c.Class(mode)
		c.NT(n, num, mode, extra, missing, rapid.IntRange(0, 1<<30).Draw(t, "tag"))
		c.Sample("n=%d numerical=%v %s extra=%d counts=%v", n, num, mode, extra, seen)
	})
}

// contrasts are drawn from all columns: 40 draws among 2 to 4 miss a column with
// probability below 4*(3/4)^40 = 0.00004 each time, so three misses in a row are required.
func TestC18_ContrastSources(t *testing.T) {
	forall(t, "two or more columns", 60, 400, func(t *rapid.T, c *Case) {
		nf := rapid.IntRange(1, 4).Draw(t, "nf")
		var miss string
		for try := 0; try < 3; try++ {
			fm := &CF.FeatureMatrix{Map: map[string]int{}, CaseLabels: []string{"a", "b"}}
			for j := 0; j < nf; j++ {
				name := fmt.Sprintf("%s:f%d", []string{"N", "C"}[j%2], j)
				fm.Data = append(fm.Data, CF.ParseFeature([]string{name, "1", "2"}))
				fm.Map[name] = j
			}
			fm.AddContrasts(40)
			seen := map[string]int{}
			for _, f := range fm.Data[nf:] {
				seen[strings.TrimSuffix(f.GetName(), ":SHUFFLED")]++
			}
			miss = ""
			for _, f := range fm.Data[:nf] {
				if seen[f.GetName()] == 0 {
					miss = f.GetName()
				}
			}
			if miss == "" {
				break
			}
		}
		if miss != "" {
			t.Fatalf("none of 120 contrasts of %d columns is of %q", nf, miss)
		}
		if nf > 1 {
			c.NT(nf, rapid.IntRange(0, 1<<30).Draw(t, "tag"))
			c.Sample("%d columns all used for contrasts", nf)
		}
	})
}

// ---------------------------------------------------------------- C19

func TestC19_Impute(t *testing.T) {
	forall(t, "random matrix; non-trivial: something was missing", 3000, 25000, func(t *rapid.T, c *Case) {
		m := genMat(t, matOpts{minN: 1, maxN: 25, large: []int{100, 1000}, minF: 1, maxF: 6, missing: true, maxCats: 40, appear: true})
		any := false
		for _, f := range m.F {
			known := 0
			for _, x := range f.Miss {
				if !x {
					known++
				}
			}
			if known == 0 && rapid.IntRange(0, 2).Draw(t, "keep empty") > 0 {
				f.Miss[0] = false
				if !f.Num && len(f.Cats) == 0 {
					f.Cats = []string{"only"}
				}
			}
			c.ClassIf(known == 0 && f.Miss[0], "column without known values")
			any = any || f.hasMissing()
		}
		fm := m.real()
		// a missing cell's leftover storage must not matter
		if rapid.Bool().Draw(t, "dirty") {
			for j, f := range m.F {
				for i := range f.Miss {
					if !f.Miss[i] {
						continue
					}
					if f.Num {
						fm.Data[j].(*CF.DenseNumFeature).NumData[i] = 1e6
					} else {
						fm.Data[j].(*CF.DenseCatFeature).CatData[i] = len(f.Cats) - 1
					}
				}
			}
			c.Class("leftover values under missing cells")
		}
		for _, f := range fm.Data {
			if cf, ok := f.(*CF.DenseCatFeature); ok {
				cf.RandomSearch = rapid.IntRange(0, 2).Draw(t, "random search") == 0
			}
		}
		fm.ImputeMissing()
		for j, f := range m.F {
			g := fm.Data[j]
			known := 0
			for _, x := range f.Miss {
				if !x {
					known++
				}
			}
			if known == 0 { // nothing to impute
				checkFeature(t, f, g, true)
				continue
			}
			if g.MissingVals() {
				t.Fatalf("%s still reports missing values", f.Name)
			}
			want := *f
			want.Miss = make([]bool, m.N)
			if f.Num {
				want.V = append([]float64(nil), f.V...)
				sum, n := 0.0, 0
				for i := range f.V {
					if !f.Miss[i] {
						sum += f.V[i]
						n++
					}
				}
				for i := range f.V {
					if f.Miss[i] {
						got := g.(CF.NumFeature).Get(i)
						if !closeAt(got, sum/float64(n), maxAbs(f.V)) {
							t.Fatalf("%s case %d imputed %v, mean is %v", f.Name, i, got, sum/float64(n))
						}
						want.V[i] = got
					}
				}
			} else {
				want.C = cp(f.C)
				cnt := make([]int, len(f.Cats))
				for i := range f.C {
					if !f.Miss[i] {
						cnt[f.C[i]]++
					}
				}
				best := 0
				for _, k := range cnt {
					if k > best {
						best = k
					}
				}
				for i := range f.C {
					if f.Miss[i] {
						got := g.(CF.CatFeature).Geti(i)
						if got < 0 || got >= len(cnt) || cnt[got] != best {
							t.Fatalf("%s case %d imputed category %d (%q), not a most frequent one", f.Name, i, got, g.GetStr(i))
						}
						want.C[i] = got
					}
				}
			}
			checkFeature(t, &want, g, false)
		}
		snapshot := make([][]string, len(fm.Data))
		for j := range fm.Data {
			for i := 0; i < m.N; i++ {
				snapshot[j] = append(snapshot[j], fm.Data[j].GetStr(i))
			}
		}
		fm.ImputeMissing()
		for j := range fm.Data {
			for i := 0; i < m.N; i++ {
				if fm.Data[j].GetStr(i) != snapshot[j][i] {
					t.Fatalf("imputing again changed %s case %d", m.F[j].Name, i)
				}
			}
		}
		if any {
			c.NT(m.String())
			c.Sample("%v", m)
		}
	})
}

// ---------------------------------------------------------------- C21

func TestC21_Encode(t *testing.T) {
	forall(t, "random matrix encoded numerically, one-hot or stripped of strings; non-trivial: a categorical feature with three or more categories", 3000, 20000, func(t *rapid.T, c *Case) {
		m := genMat(t, matOpts{minN: 1, maxN: 15, large: []int{100, 400}, minF: 1, maxF: 6, missing: true, maxCats: rapid.SampledFrom([]int{8, 8, 8, 70}).Draw(t, "maxCats"), appear: rapid.Bool().Draw(t, "appear")})
		fm := m.real()
		mode := rapid.SampledFrom([]string{"num", "onehot"}).Draw(t, "mode")
		var out *CF.FeatureMatrix
		if mode == "num" {
			out = fm.EncodeToNum()
		} else {
			out = fm.OneHot()
		}
		many := false
		type exp struct {
			name string
			src  *mfeat
			k    int // -1 passthrough, -2 two-category column
		}
		var want []exp
		for _, f := range m.F {
			switch {
			case f.Num:
				want = append(want, exp{f.Name, f, -1})
			case len(f.Cats) <= 2:
				want = append(want, exp{f.Name, f, -2})
			default:
				many = true
				for k, s := range f.Cats {
					want = append(want, exp{f.Name + "==" + s, f, k})
				}
			}
		}
		if len(out.Data) != len(want) {
			t.Fatalf("%s: %d columns for %v, want %d", mode, len(out.Data), m, len(want))
		}
		for j, w := range want {
			g := out.Data[j]
			if g.GetName() != w.name || out.Map[w.name] != j {
				t.Fatalf("%s: column %d is %q (lookup %d), want %q", mode, j, g.GetName(), out.Map[w.name], w.name)
			}
			if g.Length() != m.N {
				t.Fatalf("%s: %q has %d cases", mode, w.name, g.Length())
			}
			if g.MissingVals() != w.src.hasMissing() {
				t.Fatalf("%s: %q MissingVals=%v", mode, w.name, g.MissingVals())
			}
			_, isNum := g.(CF.NumFeature)
			if mode == "num" && !isNum {
				t.Fatalf("num: %q is %T", w.name, g)
			}
			seenVal := map[string]string{}
			for i := 0; i < m.N; i++ {
				if g.IsMissing(i) != w.src.Miss[i] {
					t.Fatalf("%s: %q case %d missing=%v", mode, w.name, i, g.IsMissing(i))
				}
				if w.src.Miss[i] {
					continue
				}
				switch {
				case w.k == -1:
					if g.(CF.NumFeature).Get(i) != w.src.V[i] {
						t.Fatalf("%s: numerical %q case %d changed", mode, w.name, i)
					}
				case w.k == -2:
					lab, got := w.src.str(i), g.GetStr(i)
					if p, ok := seenVal[lab]; ok && p != got {
						t.Fatalf("%s: %q: %q encoded as %q and %q", mode, w.name, lab, p, got)
					}
					for l2, g2 := range seenVal {
						if l2 != lab && g2 == got {
							t.Fatalf("%s: %q: %q and %q encoded alike", mode, w.name, lab, l2)
						}
					}
					seenVal[lab] = got
				default:
					is := w.src.C[i] == w.k
					if mode == "num" {
						v := g.(CF.NumFeature).Get(i)
						if (v == 1) != is || (v != 0 && v != 1) {
							t.Fatalf("num: %q case %d (%q) is %v", w.name, i, w.src.str(i), v)
						}
					} else if g.GetStr(i) != fmt.Sprint(is) {
						t.Fatalf("onehot: %q case %d (%q) is %q", w.name, i, w.src.str(i), g.GetStr(i))
					}
				}
			}
		}
		for i, l := range m.Labels {
			if out.CaseLabels[i] != l {
				t.Fatalf("case label %d became %q", i, out.CaseLabels[i])
			}
		}
		checkFM(t, m, fm, true, false)
		// independence: changing one encoded column changes neither the originals nor its siblings
		if len(want) > 0 && m.N > 0 {
			j := rapid.IntRange(0, len(want)-1).Draw(t, "touch")
			if want[j].k != -1 {
				i := rapid.IntRange(0, m.N-1).Draw(t, "touchCase")
				sib := [][]string{}
				for q, g := range out.Data {
					row := []string{}
					for r := 0; r < m.N; r++ {
						row = append(row, g.GetStr(r))
					}
					sib = append(sib, row)
					_ = q
				}
				if out.Data[j].IsMissing(i) {
					if mode == "num" {
						out.Data[j].(CF.NumFeature).Put(i, 9)
					} else {
						out.Data[j].(CF.CatFeature).Puti(i, 0)
					}
				} else {
					out.Data[j].PutMissing(i)
				}
				checkFM(t, m, fm, true, false)
				for q, g := range out.Data {
					if q == j {
						continue
					}
					for r := 0; r < m.N; r++ {
						if g.GetStr(r) != sib[q][r] {
							t.Fatalf("%s: changing case %d of column %q changed case %d of %q from %q to %q", mode, i, want[j].name, r, want[q].name, sib[q][r], g.GetStr(r))
						}
					}
				}
				c.Class("independence")
			}
		}
		c.Class(mode)
		if many {
			c.NT(m.String(), mode)
			c.Sample("%s %v", mode, m)
		}
	})
}

func TestC21_Strip(t *testing.T) {
	forall(t, "random matrix stripped of strings; non-trivial: a categorical feature and the target not first", 2000, 12000, func(t *rapid.T, c *Case) {
		m := genMat(t, matOpts{minN: 1, maxN: 15, large: []int{100, 400}, minF: 1, maxF: 6, missing: true, styles: allStyles, maxCats: rapid.SampledFrom([]int{8, 8, 8, 70}).Draw(t, "maxCats"), appear: true})
		fm := m.real()
		ti := rapid.IntRange(0, len(m.F)-1).Draw(t, "target")
		fm.StripStrings(m.F[ti].Name)
		if len(fm.Data) != len(m.F) || len(fm.Map) != len(m.F) {
			t.Fatalf("%d columns, %d names after stripping %d", len(fm.Data), len(fm.Map), len(m.F))
		}
		order := seq(len(m.F))
		order[0], order[ti] = order[ti], order[0]
		for j, o := range order {
			f, g := m.F[o], fm.Data[j]
			p := "C:"
			if f.Num {
				p = "N:"
			}
			if g.GetName() != fmt.Sprintf("%s%d", p, j) || fm.Map[g.GetName()] != j {
				t.Fatalf("column %d is called %q (lookup %d)", j, g.GetName(), fm.Map[g.GetName()])
			}
			want := *f
			want.Name = g.GetName()
			if !f.Num {
				want.Cats = make([]string, len(f.Cats))
				for k := range want.Cats {
					want.Cats[k] = strconv.Itoa(k)
				}
				if g.NCats() != len(f.Cats) {
					t.Fatalf("%q has %d categories, want %d", f.Name, g.NCats(), len(f.Cats))
				}
				for k := 0; k < g.NCats(); k++ {
					l := g.(CF.CatFeature).NumToCat(k)
					if n := g.(CF.CatFeature).CatToNum(l); n != k {
						t.Fatalf("after stripping, category %d of column %d is %q which maps to %d", k, j, l, n)
					}
				}
			}
			checkFeature(t, &want, g, true)
		}
		for i, l := range fm.CaseLabels {
			if l != strconv.Itoa(i) {
				t.Fatalf("case %d is labelled %q", i, l)
			}
		}
		if ti > 0 {
			c.NT(m.String(), ti)
			c.Sample("target=%d %v", ti, m)
		}
	})
}

// ---------------------------------------------------------------- C22

var _ = rand.Int
var _ = sort.Ints
