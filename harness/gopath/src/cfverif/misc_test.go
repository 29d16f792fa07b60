package cfverif

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	CF "github.com/ryanbressler/CloudForest"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C33

// presentation is one data set, how to train on it, and how its predictions relate to the original's.
type presentation struct {
	what  string
	m     *mmat
	bag   []int
	exact bool                     // the grown tree is the same tree: every case is predicted alike
	caseI func(i int) int          // where case i went
	pred  func(want string) string // nil: the same
	tpred func(v float64) float64  // numerical predictions, when they change
	scale float64                  // of the target, 0: none
}

func cloneMat(m *mmat) *mmat {
	out := &mmat{N: m.N, Labels: append([]string(nil), m.Labels...)}
	for _, f := range m.F {
		g := *f
		g.V = append([]float64(nil), f.V...)
		g.C = append([]int(nil), f.C...)
		g.Cats = append([]string(nil), f.Cats...)
		g.Miss = append([]bool(nil), f.Miss...)
		out.F = append(out.F, &g)
	}
	return out
}

// genericTarget has values for which no two different ways to part the cases are equally good.
func genericTarget(n int, num bool, k int) *mfeat {
	f := &mfeat{Name: "C:target", Miss: make([]bool, n), C: make([]int, n)}
	if num {
		f = &mfeat{Name: "N:target", Num: true, Miss: make([]bool, n), V: make([]float64, n)}
		for i := range f.V {
			f.V[i] = rand.Float64() * 1e4
		}
		return f
	}
	f.Cats = catLabels(k)
	for i := range f.C {
		f.C[i] = rand.Intn(k)
	}
	return f
}

type presArgs struct {
	mTry, leaf, depth                         int
	splitmissing, force, vet, evaloob, xrandm bool
	kind                                      string
	seed                                      int64
}

// train grows one tree and gives the prediction of every case ("" when it is dropped).
func (a *presArgs) train(m *mmat, bag []int, ti int) ([]string, *mnode, *CF.FeatureMatrix) {
	fm := m.real()
	var tg CF.Target
	switch a.kind {
	case "entropy":
		tg = &CF.EntropyTarget{CatFeature: fm.Data[ti].(CF.CatFeature)}
	case "l1":
		tg = &CF.L1Target{NumFeature: fm.Data[ti].(CF.NumFeature)}
	default:
		tg = fm.Data[ti].(CF.Target)
	}
	var cands []int
	for i := range m.F {
		if i != ti {
			cands = append(cands, i)
		}
	}
	oob := []int{}
	in := map[int]bool{}
	for _, i := range bag {
		in[i] = true
	}
	for i := 0; i < m.N; i++ {
		if !in[i] {
			oob = append(oob, i)
		}
	}
	mTry := a.mTry
	if mTry == 0 {
		mTry = len(cands)
	}
	rand.Seed(a.seed)
	tr := CF.NewTree()
	tr.Grow(fm, tg, cp(bag), cands, oob, mTry, a.leaf, a.depth, a.splitmissing, a.force, a.vet, a.evaloob && len(oob) > 0, a.xrandm, nil, nil, CF.NewBestSplitAllocs(len(bag)+m.N, tg))
	out := make([]string, m.N)
	for _, l := range tr.GetLeaves(fm, nil) {
		for _, i := range l.Cases {
			out[i] = l.Pred
		}
	}
	return out, modelOf(tr.Root, "*"), fm
}

func same(i int) int { return i }

// present draws one other presentation of the data.
func present(t *rapid.T, m *mmat, bag []int, ti int, num bool) *presentation {
	p := &presentation{m: cloneMat(m), bag: cp(bag), caseI: same}
	kinds := []string{"scale", "scale", "rename labels", "rename features", "rename cases", "missing values drawn again"}
	if num {
		kinds = append(kinds, "monotone", "monotone", "renumber", "constants", "constants", "reorder features", "reorder cases", "target shift", "target scale", "negate target", "negate features")
	} else {
		kinds = append(kinds, "rename classes")
	}
	p.what = rapid.SampledFrom(kinds).Draw(t, "presentation")
	switch p.what {
	case "scale":
		p.exact = true
		for _, f := range p.m.F[:ti] {
			if f.Num {
				// values are multiples of 1/16 up to 2^20: scaling by a power of two and shifting by such a multiple is exact
				a, b := math.Ldexp(1, rapid.IntRange(0, 8).Draw(t, "exp")), float64(rapid.IntRange(-1000, 1000).Draw(t, "off"))/8
				for i := range f.V {
					if !f.Miss[i] {
						f.V[i] = f.V[i]*a + b
					}
				}
			}
		}
	case "monotone", "negate features":
		for _, f := range p.m.F[:ti] {
			if !f.Num || rapid.IntRange(0, 3).Draw(t, "keep") == 0 {
				continue
			}
			vals := append([]float64(nil), f.V...)
			sort.Float64s(vals)
			to := map[float64]float64{}
			at := float64(rapid.IntRange(-100, 100).Draw(t, "from"))
			for _, v := range vals {
				if _, ok := to[v]; !ok {
					to[v] = at
					at += math.Ldexp(1, rapid.IntRange(-6, 10).Draw(t, "gap"))
				}
			}
			for i := range f.V {
				if !f.Miss[i] {
					if p.what == "monotone" {
						f.V[i] = to[f.V[i]]
					} else {
						f.V[i] = -f.V[i]
					}
				}
			}
		}
	case "rename labels":
		p.exact = true
		for _, f := range p.m.F[:ti] {
			for i := range f.Cats {
				f.Cats[i] = fmt.Sprintf("%c%d%s", 'a'+rand.Intn(26), i, f.Cats[i])
			}
		}
	case "rename classes":
		p.exact = true
		to := map[string]string{}
		f := p.m.F[ti]
		for i := range f.Cats {
			n := fmt.Sprintf("%c%d", 'a'+rand.Intn(26), i)
			to[f.Cats[i]] = n
			f.Cats[i] = n
		}
		p.pred = func(s string) string { return to[s] }
	case "rename features":
		p.exact = true
		for i, f := range p.m.F {
			f.Name = fmt.Sprintf("%s%c%d", f.Name[:2], 'a'+rand.Intn(26), i)
		}
	case "rename cases":
		p.exact = true
		for i := range p.m.Labels {
			p.m.Labels[i] = fmt.Sprintf("%c%d", 'a'+rand.Intn(26), rand.Intn(5))
		}
	case "missing values drawn again":
		// the value stored under a missing cell is nobody's business
		p.exact = true
	case "renumber":
		for _, f := range p.m.F[:ti] {
			if f.Num {
				continue
			}
			k := len(f.Cats)
			if k < 5 { // the search is exhaustive up to five categories
				k++
			}
			perm := rapid.Permutation(seq(k)).Draw(t, "catperm")
			cats := make([]string, k)
			cats[perm[k-1]] = "never"
			for i, s := range f.Cats {
				cats[perm[i]] = s
			}
			for i := range f.C {
				if !f.Miss[i] {
					f.C[i] = perm[f.C[i]]
				}
			}
			f.Cats = cats
		}
	case "constants":
		k := rapid.IntRange(1, 4).Draw(t, "nconst")
		tgt := p.m.F[ti]
		p.m.F = p.m.F[:ti:ti]
		for j := 0; j < k; j++ {
			f := &mfeat{Name: fmt.Sprintf("N:const%d", j), Num: true, V: make([]float64, m.N), Miss: make([]bool, m.N)}
			if rapid.Bool().Draw(t, "catconst") {
				f = &mfeat{Name: fmt.Sprintf("C:const%d", j), C: make([]int, m.N), Miss: make([]bool, m.N), Cats: []string{"only"}}
			}
			if rapid.IntRange(0, 2).Draw(t, "constmiss") == 0 {
				f.Miss = genMiss(t, m.N, true)
			}
			at := rapid.IntRange(0, len(p.m.F)).Draw(t, "at")
			p.m.F = append(p.m.F[:at:at], append([]*mfeat{f}, p.m.F[at:]...)...)
		}
		p.m.F = append(p.m.F, tgt)
	case "reorder features":
		perm := rapid.Permutation(seq(ti)).Draw(t, "featperm")
		fs := []*mfeat{}
		for _, j := range perm {
			fs = append(fs, p.m.F[j])
		}
		p.m.F = append(fs, p.m.F[ti])
	case "reorder cases":
		perm := genPerm(t, m.N, "caseperm")
		for j, f := range m.F {
			g := p.m.F[j]
			for i := range f.Miss {
				g.Miss[perm[i]] = f.Miss[i]
				if f.Num {
					g.V[perm[i]] = f.V[i]
				} else {
					g.C[perm[i]] = f.C[i]
				}
			}
		}
		for i := range bag {
			p.bag[i] = perm[bag[i]]
		}
		if rapid.Bool().Draw(t, "shufflebag") {
			rand.Shuffle(len(p.bag), func(a, b int) { p.bag[a], p.bag[b] = p.bag[b], p.bag[a] })
		}
		p.caseI = func(i int) int { return perm[i] }
	case "target shift":
		d := float64(rapid.IntRange(-50000, 50000).Draw(t, "shift")) / 8
		p.tpred = func(v float64) float64 { return v + d }
	case "target scale":
		a := rapid.SampledFrom([]float64{2, 16, 3, 10.5, 0.5, 1e6, 1e-3, 1e-5, 1e-6, 1.0 / (1 << 20)}).Draw(t, "tscale")
		p.scale = a
		p.tpred = func(v float64) float64 { return v * a }
	case "negate target":
		p.tpred = func(v float64) float64 { return -v }
	}
	if p.tpred != nil {
		f := p.m.F[len(p.m.F)-1]
		for i := range f.V {
			f.V[i] = p.tpred(f.V[i])
		}
	}
	return p
}

func TestC33_Presentations(t *testing.T) {
	forall(t, "the tree has at least two splits", 6000, 60000, func(t *rapid.T, c *Case) {
		n := rapid.SampledFrom([]int{5, 8, 11, 14, 17, 20}).Draw(t, "n")
		if rapid.IntRange(0, 79).Draw(t, "large") == 79 {
			n = rapid.SampledFrom([]int{80, 250}).Draw(t, "manycases")
		}
		m := genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 5, missing: true, maxCats: 5, styles: []string{"few", "grid", "grid", "wide", "binary"}})
		num := rapid.IntRange(0, 3).Draw(t, "classify") != 0
		tgt := genericTarget(n, num, rapid.IntRange(2, 4).Draw(t, "nclass"))
		ti := len(m.F)
		m.F = append(m.F, tgt)
		bag := genBag(t, n)
		a := &presArgs{leaf: rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "leaf"), depth: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 4}).Draw(t, "maxDepth"),
			splitmissing: rapid.Bool().Draw(t, "splitmissing"), force: rapid.IntRange(0, 3).Draw(t, "force") == 0,
			seed: int64(rapid.IntRange(1, 1<<30).Draw(t, "growseed"))}
		if !num && rapid.Bool().Draw(t, "entropy") {
			a.kind = "entropy"
		}
		p := present(t, m, bag, ti, num)
		if !p.exact {
			// without missing branch two equally good splits can drop different cases
			a.splitmissing = true
		}
		if p.exact {
			// the same random choices must lead to the same tree
			a.mTry = rapid.IntRange(0, ti).Draw(t, "mTry")
			a.vet, a.evaloob = rapid.IntRange(0, 4).Draw(t, "vet") == 0, rapid.IntRange(0, 4).Draw(t, "evaloob") == 0
			a.xrandm = p.what != "scale" && rapid.IntRange(0, 4).Draw(t, "extra") == 0
		}
		want, tree, _ := a.train(m, bag, ti)
		if p.scale != 0 && p.scale < 1 {
			// decreases up to 1e-7 count as none
			r := &rt{kind: "num", col: tgt}
			reach := members(tree, m, bag)
			small := math.Inf(1)
			tree.walk(func(nd *mnode, d int) {
				if !nd.leaf() {
					small = math.Min(small, math.Min(nmGain(r, reach[nd.l], reach[nd.g]), r.gain(reach[nd.l], reach[nd.g], reach[nd.m])))
				}
			})
			if small*p.scale*p.scale < 1e-6 {
				c.Class("decreases too small to scale down")
				return
			}
		}
		var got []string
		var tree2 *mnode
		if p.what == "missing values drawn again" {
			got, tree2 = a.trainJunk(p.m, p.bag, ti)
		} else {
			got, tree2, _ = a.train(p.m, p.bag, len(p.m.F)-1)
		}
		cases := sortedInts(bag)
		if p.exact {
			cases = seq(n)
		}
		for _, i := range cases {
			w, g := want[i], got[p.caseI(i)]
			if p.pred != nil && w != "" {
				w = p.pred(w)
			}
			if w == g {
				continue
			}
			x, err := strconv.ParseFloat(w, 64)
			y, err2 := strconv.ParseFloat(g, 64)
			if num && err == nil && err2 == nil {
				if p.tpred != nil {
					x = p.tpred(x)
				}
				if closeAt(x, y, maxAbs(p.m.F[len(p.m.F)-1].V)) {
					continue
				}
			}
			t.Fatalf("%s: case %d is predicted %q instead of %q\ndata %v\nbag %v %+v\ntree %v\n\nother data %v\nbag %v\ntree %v", p.what, i, g, w, m, bag, *a, tree, p.m, p.bag, tree2)
		}
		c.Class("%s", p.what)
		if tree.splits() >= 2 {
			c.NT(p.what, m.String(), fmt.Sprint(bag, *a))
			c.Sample("%s: %v and %v", p.what, tree, tree2)
		}
	})
}

// trainJunk trains with other values stored under the missing cells of the features.
func (a *presArgs) trainJunk(m *mmat, bag []int, ti int) ([]string, *mnode) {
	j := cloneMat(m)
	fmJunk := j.real()
	for fi, f := range j.F {
		for i, miss := range f.Miss {
			if !miss {
				continue
			}
			if f.Num {
				fmJunk.Data[fi].(*CF.DenseNumFeature).NumData[i] = float64(rand.Intn(100)) - 50
			} else {
				fmJunk.Data[fi].(*CF.DenseCatFeature).CatData[i] = rand.Intn(len(f.Cats))
			}
		}
	}
	// same as train, on the prepared matrix
	var tg CF.Target
	switch a.kind {
	case "entropy":
		tg = &CF.EntropyTarget{CatFeature: fmJunk.Data[ti].(CF.CatFeature)}
	default:
		tg = fmJunk.Data[ti].(CF.Target)
	}
	cands := seq(ti)
	in := map[int]bool{}
	for _, i := range bag {
		in[i] = true
	}
	oob := []int{}
	for i := 0; i < m.N; i++ {
		if !in[i] {
			oob = append(oob, i)
		}
	}
	mTry := a.mTry
	if mTry == 0 {
		mTry = ti
	}
	rand.Seed(a.seed)
	tr := CF.NewTree()
	tr.Grow(fmJunk, tg, cp(bag), cands, oob, mTry, a.leaf, a.depth, a.splitmissing, a.force, a.vet, a.evaloob && len(oob) > 0, a.xrandm, nil, nil, CF.NewBestSplitAllocs(len(bag)+m.N, tg))
	out := make([]string, m.N)
	for _, l := range tr.GetLeaves(fmJunk, nil) {
		for _, i := range l.Cases {
			out[i] = l.Pred
		}
	}
	return out, modelOf(tr.Root, "*")
}

// whole forests under renaming and exact rescaling: the same seed gives the same forest
func TestC33_Forests(t *testing.T) {
	forall(t, "some tree has a split", 1500, 15000, func(t *rapid.T, c *Case) {
		n := rapid.SampledFrom([]int{5, 9, 13, 18}).Draw(t, "n")
		if rapid.IntRange(0, 79).Draw(t, "large") == 79 {
			n = rapid.SampledFrom([]int{80, 250}).Draw(t, "manycases")
		}
		m := genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 5, missing: true, maxCats: rapid.SampledFrom([]int{3, 6, 12}).Draw(t, "maxCats"), styles: []string{"few", "grid", "wide", "binary"}})
		num := rapid.Bool().Draw(t, "regress")
		ti := len(m.F)
		m.F = append(m.F, genericTarget(n, num, rapid.IntRange(2, 4).Draw(t, "nclass")))
		var p *presentation
		for try := 0; ; try++ {
			p = present(t, m, seq(n), ti, false)
			if p.exact && p.what != "missing values drawn again" {
				break
			}
		}
		mTry, leaf, depth := rapid.IntRange(1, ti).Draw(t, "mTry"), rapid.IntRange(1, 3).Draw(t, "leaf"), rapid.IntRange(0, 4).Draw(t, "depth")
		sm, force := rapid.Bool().Draw(t, "splitmissing"), rapid.Bool().Draw(t, "force")
		seed := int64(rapid.IntRange(1, 1<<30).Draw(t, "growseed"))
		run := func(m *mmat) ([]string, int, []float64) {
			fm := m.real()
			rand.Seed(seed)
			imp := CF.NewRunningMeans(len(m.F))
			f := CF.GrowRandomForest(fm, fm.Data[ti].(CF.Target), seq(ti), n, mTry, 3, leaf, depth, sm, force, false, false, imp)
			splits := 0
			out := []string{}
			var bb CF.VoteTallyer = CF.NewCatBallotBox(n)
			if num {
				bb = CF.NewNumBallotBox(n)
			}
			for _, tr := range f.Trees {
				tr.Vote(fm, bb)
				splits += modelOf(tr.Root, "*").splits()
			}
			for i := 0; i < n; i++ {
				out = append(out, bb.Tally(i))
			}
			var is []float64
			for _, r := range *imp {
				x, k := r.Read()
				is = append(is, x, k)
			}
			return out, splits, is
		}
		if num && p.pred != nil { // class renaming does not apply
			p.pred = nil
		}
		want, splits, imp := run(m)
		got, _, imp2 := run(p.m)
		for i := range want {
			w := want[i]
			if p.pred != nil && w != "NA" {
				w = p.pred(w)
			}
			if w != got[i] {
				t.Fatalf("%s: case %d is predicted %q instead of %q; seed %d mTry %d leaf %d depth %d in %v and %v", p.what, i, got[i], w, seed, mTry, leaf, depth, m, p.m)
			}
		}
		for i := range imp {
			if !close2(imp[i], imp2[i], 1e-9) {
				t.Fatalf("%s: importances %v instead of %v in %v and %v", p.what, imp2, imp, m, p.m)
			}
		}
		c.Class("%s", p.what)
		if splits > 0 {
			c.NT(p.what, m.String(), seed)
			c.Sample("%s: %v: %v", p.what, m, got)
		}
	})
}

// ---------------------------------------------------------------- C32

// together runs the workers at the same time.
func together(k int, f func(w int)) {
	var wg sync.WaitGroup
	start := make(chan bool)
	for w := 0; w < k; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			f(w)
		}(w)
	}
	close(start)
	wg.Wait()
}

type contribution struct {
	i, j, n int
	v       float64
	w       float64
	label   string
}

func genWork(t *rapid.T) (k, size int, work [][]contribution) {
	k = rapid.SampledFrom([]int{2, 3, 4, 6, 8}).Draw(t, "workers")
	size = rapid.SampledFrom([]int{1, 2, 3, 6}).Draw(t, "size")
	nl := rapid.IntRange(1, 12).Draw(t, "labels")
	each := rapid.SampledFrom([]int{3, 20, 60, 150}).Draw(t, "each")
	for w := 0; w < k; w++ {
		var cs []contribution
		for x := 0; x < each; x++ {
			cs = append(cs, contribution{rand.Intn(size), rand.Intn(4), rand.Intn(5) - 1, float64(rand.Intn(64)-20) / 4, float64(1 + rand.Intn(8)), fmt.Sprintf("c%d", rand.Intn(nl))})
		}
		work = append(work, cs)
	}
	return
}

func TestC32_Accumulators(t *testing.T) {
	forall(t, "at least two workers with twenty or more contributions each to the same few places", 250, 3000, func(t *rapid.T, c *Case) {
		k, size, work := genWork(t)
		rms := *CF.NewRunningMeans(size)
		var sc CF.SparseCounter
		cb, nb, sb := CF.NewCatBallotBox(size), CF.NewNumBallotBox(size), CF.NewSumBallotBox(size)
		read := rapid.Bool().Draw(t, "readers")
		known := &mfeat{Name: "C:t", C: make([]int, size), Miss: make([]bool, size), Cats: []string{"c0", "c1"}}
		knownNum := &mfeat{Name: "N:t", Num: true, V: make([]float64, size), Miss: make([]bool, size)}
		for i := range knownNum.V {
			knownNum.V[i] = float64(i)
		}
		kc, kn := known.real(), knownNum.real()
		extra := 0
		if read {
			extra = 1
		}
		together(k+extra, func(w int) {
			if w == k { // somebody looks on
				for x := 0; x < 15; x++ {
					for i := 0; i < size; i++ {
						if p := cb.Tally(i); p != "NA" && !strings.HasPrefix(p, "c") {
							panic("tally " + p)
						}
						nb.Tally(i)
						sb.Tally(i)
						rms[i].Read()
					}
					cb.TallyError(kc)
					nb.TallyError(kn)
				}
				return
			}
			for _, x := range work[w] {
				rms[x.i].WeightedAdd(x.v, x.w)
				rms[x.i].Add(x.v)
				sc.Add(x.i, x.j, x.n)
				cb.Vote(x.i, x.label, x.w)
				nb.Vote(x.i, strconv.FormatFloat(x.v, 'g', -1, 64), x.w)
				sb.Vote(x.i, strconv.FormatFloat(x.v, 'g', -1, 64), x.w)
			}
		})
		for i := 0; i < size; i++ {
			sum, cnt, nsum, nw := 0.0, 0.0, 0.0, 0.0
			cells := map[int]int{}
			var votes []mvote
			for _, cs := range work {
				for _, x := range cs {
					if x.i != i {
						continue
					}
					sum += x.v*x.w + x.v
					cnt += x.w + 1
					nsum += x.v * x.w
					nw += x.w
					cells[x.j] += x.n
					votes = append(votes, mvote{x.label, x.w})
				}
			}
			mean, n := rms[i].Read()
			if n != cnt || (cnt > 0 && !close2(mean, sum/cnt, 1e-9)) {
				t.Fatalf("%d workers: mean %v of %v contributions, want %v of %v", k, mean, n, sum/cnt, cnt)
			}
			for j := 0; j < 4; j++ {
				got := 0
				if sc.Map[i] != nil {
					got = sc.Map[i][j]
				}
				if got != cells[j] {
					t.Fatalf("%d workers: sparse count %d of %d,%d, want %d", k, got, i, j, cells[j])
				}
			}
			if got := sb.TallyNum(i); got != nsum {
				t.Fatalf("%d workers: sum of votes %v, want %v", k, got, nsum)
			}
			if nw > 0 && !close2(nb.TallyNum(i), nsum/nw, 1e-9) {
				t.Fatalf("%d workers: mean of votes %v, want %v", k, nb.TallyNum(i), nsum/nw)
			}
			checkCatTally(t, "concurrent votes", cb, i, votes)
			_, sums := tallyCat(votes)
			for l, s := range sums {
				ci, ok := cb.CatMap.Map[l]
				if !ok || cb.Box[i].Map[ci] != s || cb.CatMap.Back[ci] != l {
					t.Fatalf("%d workers: total %v of label %s for case %d, want %v; labels %v", k, cb.Box[i].Map[ci], l, i, s, cb.CatMap)
				}
			}
			if len(cb.Box[i].Map) != len(sums) {
				t.Fatalf("%d workers: case %d has %v, want %v", k, i, cb.Box[i].Map, sums)
			}
		}
		c.Class("%d workers", k)
		c.ClassIf(read, "readers")
		if len(work[0]) >= 20 {
			c.NT(k, size, fmt.Sprint(work))
			c.Sample("%d workers, %d each, on %d places; first worker starts %v", k, len(work[0]), size, work[0][:3])
		}
	})
}

// workers grow trees from the same data and vote with them, as growforest does
func TestC32_GrowAndVote(t *testing.T) {
	forall(t, "several trees with splits", 120, 1500, func(t *rapid.T, c *Case) {
		n := rapid.SampledFrom([]int{8, 14, 20}).Draw(t, "n")
		if rapid.IntRange(0, 39).Draw(t, "large") == 39 {
			n = rapid.SampledFrom([]int{80, 200}).Draw(t, "manycases")
		}
		m := genMat(t, matOpts{minN: n, maxN: n, minF: 2, maxF: 5, missing: true, maxCats: rapid.SampledFrom([]int{4, 9}).Draw(t, "maxCats")})
		r := &rt{kind: rapid.SampledFrom([]string{"gini", "entropy", "num", "l1", "ordinal", "regret", "wrf", "density", "hdist"}).Draw(t, "kind")}
		density := r.kind == "density"
		if density {
			r.kind = "num"
		}
		genTargetKind(t, n, r, false)
		ti := len(m.F)
		m.F = append(m.F, r.col)
		fm := m.real()
		tg := r.wrap(fm.Data[ti])
		fs := fm.Data[:ti]
		if density {
			tg = &CF.DensityTarget{Features: &fs, N: n}
		}
		k := rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "workers")
		per := rapid.IntRange(1, 3).Draw(t, "trees")
		imp := CF.NewRunningMeans(ti + 1)
		cb, nb := CF.NewCatBallotBox(n), CF.NewNumBallotBox(n)
		trees := make([][]*CF.Tree, k)
		oobs := make([][][]int, k)
		vet, evaloob, xr := rapid.Bool().Draw(t, "vet") && !density, rapid.Bool().Draw(t, "evaloob"), rapid.Bool().Draw(t, "extra")
		leaf, depth := rapid.IntRange(1, 3).Draw(t, "leaf"), rapid.IntRange(0, 4).Draw(t, "depth")
		sm := rapid.Bool().Draw(t, "splitmissing")
		mTry := rapid.IntRange(1, ti).Draw(t, "mTry")
		together(k, func(w int) {
			allocs := CF.NewBestSplitAllocs(n, tg)
			cands := seq(ti)
			for x := 0; x < per; x++ {
				bag := CF.SampleWithReplacment(n, n)
				in := make([]bool, n)
				for _, i := range bag {
					in[i] = true
				}
				oob := []int{}
				for i, b := range in {
					if !b {
						oob = append(oob, i)
					}
				}
				tr := CF.NewTree()
				tr.Grow(fm, tg, bag, cands, oob, mTry, leaf, depth, sm, false, vet, evaloob, xr, imp, nil, allocs)
				tr.VoteCases(fm, cb, oob)
				tr.VoteCases(fm, nb, oob)
				trees[w] = append(trees[w], tr)
				oobs[w] = append(oobs[w], oob)
			}
		})
		for i, f := range m.F {
			checkFeatureVals(t, f, fm.Data[i])
		}
		used := make([]float64, ti+1)
		votes := make([][]mvote, n)
		withSplits := 0
		for w := range trees {
			for x, tr := range trees[w] {
				root := modelOf(tr.Root, "*")
				if root.splits() > 0 {
					withSplits++
				}
				root.walk(func(nd *mnode, d int) {
					if !nd.leaf() {
						used[fm.Map[nd.r.f.Name]]++
					}
				})
				refVotes([]*mtree{{root: root, weight: -1}}, m, oobs[w][x], votes)
			}
		}
		for i := range used {
			if _, cnt := (*imp)[i].Read(); cnt != used[i] {
				t.Fatalf("%d workers: feature %d counted %v times, used by %v splits", k, i, cnt, used[i])
			}
		}
		for i := range votes {
			checkCatTally(t, "concurrent growing", cb, i, votes[i])
			checkNumTally(t, "concurrent growing", nb, i, votes[i])
		}
		c.Class("%d workers", k)
		c.ClassIf(density, "density")
		c.ClassIf(!density, r.kind)
		if withSplits > 1 {
			c.NT(k, per, m.String(), r.String())
			c.Sample("%d workers, %d trees each, %v in %v", k, per, r, m)
		}
	})
}

// trees grown at the same time from one matrix and one target are the trees that grow alone
func TestC32_TogetherAsAlone(t *testing.T) {
	forall(t, "at least two of the trees have splits", 400, 4000, func(t *rapid.T, c *Case) {
		g := genGrowSized(t, append([]string{"density"}, allKinds()...), true, bigStyles, []int{8, 12, 20}, []int{4, 9}, 90, 150)
		density := g.r.kind == "density"
		if density {
			g.vet, g.r.kind = false, "gini"
		}
		n := g.m.N
		fm := g.m.real()
		tg := g.r.wrap(fm.Data[g.ti])
		fs := fm.Data[:g.ti]
		if density {
			tg = &CF.DensityTarget{Features: &fs, N: n}
		}
		k := rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "workers")
		per := rapid.IntRange(1, 3).Draw(t, "trees")
		type job struct {
			seed      int64
			bag, oob  []int
			pred, imp string
		}
		jobs := make([]*job, k*per)
		for i := range jobs {
			jobs[i] = &job{seed: int64(rapid.IntRange(0, 1<<30).Draw(t, "seed")), bag: genBag(t, n), oob: genCases(t, n, 1, 12, true)}
		}
		splits := 0
		run := func(j *job, allocs *CF.BestSplitAllocs) (string, string, int) {
			allocs.Rnd = rand.New(rand.NewSource(j.seed))
			imp, depth := *CF.NewRunningMeans(g.ti + 1), unused(g.ti+1)
			tr := CF.NewTree()
			tr.Grow(fm, tg, cp(j.bag), cp(g.cands), cp(j.oob), g.mTry, g.leaf, g.depth, g.splitmissing, g.force, g.vet, g.evaloob, g.xrandm, &imp, &depth, allocs)
			cb := CF.NewCatBallotBox(n)
			tr.Vote(fm, cb)
			s := fmt.Sprint(depth)
			for _, x := range imp {
				m, cnt := x.Read()
				s += fmt.Sprintf(" %v/%v", m, cnt)
			}
			for i := 0; i < n; i++ {
				s += " " + cb.Tally(i)
			}
			root := modelOf(tr.Root, "*")
			return root.String(), s, root.splits()
		}
		most := 40
		for _, j := range jobs {
			for _, l := range []int{len(j.bag), len(j.oob)} {
				if l > most {
					most = l
				}
			}
		}
		alone := CF.NewBestSplitAllocs(most, tg)
		for _, j := range jobs {
			ns := 0
			j.pred, j.imp, ns = run(j, alone)
			if ns > 0 {
				splits++
			}
		}
		got := make([][2]string, len(jobs))
		together(k, func(w int) {
			allocs := CF.NewBestSplitAllocs(most, tg)
			for x := w * per; x < (w+1)*per; x++ {
				got[x][0], got[x][1], _ = run(jobs[x], allocs)
			}
		})
		for i, j := range jobs {
			if got[i][0] != j.pred || got[i][1] != j.imp {
				t.Fatalf("%v: with %d workers the tree for cases %v became\n%s\n%s\nalone it is\n%s\n%s", g, k, j.bag, got[i][0], got[i][1], j.pred, j.imp)
			}
		}
		for i, f := range g.m.F {
			if g.r.kind != "gradboost" || i != g.ti {
				checkFeatureVals(t, f, fm.Data[i])
			}
		}
		c.Class("%d workers", k)
		c.ClassIf(density, "density")
		c.ClassIf(!density, g.r.kind)
		c.ClassIf(g.vet, "vetted")
		if splits > 1 {
			c.NT(k, per, g.String())
			c.Sample("%d workers, %d trees each, %v", k, per, g)
		}
	})
}
