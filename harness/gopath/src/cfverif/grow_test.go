package cfverif

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"testing"

	CF "github.com/ryanbressler/CloudForest"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- growing problems

type growArgs struct {
	free bool // splits needn't be the best by the target

	m                                         *mmat // with the target as last column
	r                                         *rt
	ti                                        int
	cands, bag, oob                           []int
	mTry, leaf, depth                         int
	splitmissing, force, vet, evaloob, xrandm bool
}

func (g *growArgs) String() string {
	return fmt.Sprintf("%v candidates %v cases %v oob %v mTry %d leaf %d depth %d splitmissing %v force %v vet %v evaloob %v extra %v in %v",
		g.r, g.cands, g.bag, g.oob, g.mTry, g.leaf, g.depth, g.splitmissing, g.force, g.vet, g.evaloob, g.xrandm, g.m)
}

func (g *growArgs) plain() bool { return !g.vet && !g.evaloob && !g.xrandm }

func genGrow(t *rapid.T, kinds []string, modes bool) *growArgs {
	return genGrowStyles(t, kinds, modes, allStyles)
}

func genGrowStyles(t *rapid.T, kinds []string, modes bool, styles []string) *growArgs {
	if rapid.IntRange(0, 39).Draw(t, "large") == 39 {
		return genGrowSized(t, kinds, modes, styles, []int{70, 100, 150}, []int{4, 9, 40})
	}
	return genGrowSized(t, kinds, modes, styles, []int{4, 6, 8, 10, 12, 14, 16, 18}, []int{3, 5, 9})
}

func genGrowSized(t *rapid.T, kinds []string, modes bool, styles []string, sizes, cats []int, large ...int) *growArgs {
	n := rapid.SampledFrom(sizes).Draw(t, "n")
	if len(large) > 0 && rapid.IntRange(0, 39).Draw(t, "large") == 39 {
		n = rapid.SampledFrom(large).Draw(t, "manycases")
	}
	g := &growArgs{m: genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 6, missing: true, styles: styles, maxCats: rapid.SampledFrom(cats).Draw(t, "maxCats")})}
	g.r = searchProblem(t, g.m.F[0], n, kinds)
	g.m.F = append(g.m.F, g.r.col)
	g.ti = len(g.m.F) - 1
	p := rapid.Permutation(seq(g.ti)).Draw(t, "cands")
	g.cands = append([]int(nil), p[:rapid.IntRange(1, g.ti).Draw(t, "ncand")]...)
	g.bag = genBag(t, n)
	g.oob = genCases(t, n, 1, 12, true)
	g.mTry = len(g.cands)
	if rapid.Bool().Draw(t, "some") {
		g.mTry = rapid.IntRange(1, len(g.cands)).Draw(t, "mTry")
	}
	g.leaf = rapid.SampledFrom([]int{1, 1, 1, 2, 3, 4}).Draw(t, "leaf")
	g.depth = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4}).Draw(t, "maxDepth")
	g.splitmissing = rapid.Bool().Draw(t, "splitmissing")
	g.force = rapid.IntRange(0, 3).Draw(t, "force") == 0
	if modes && rapid.IntRange(0, 2).Draw(t, "modes") == 0 {
		g.vet, g.evaloob, g.xrandm = rapid.Bool().Draw(t, "vet"), rapid.Bool().Draw(t, "evaloob"), rapid.Bool().Draw(t, "extra")
	}
	return g
}

// genBag draws training cases: all once, a bootstrap sample, or a bag of any size.
func genBag(t *rapid.T, n int) []int {
	switch rapid.SampledFrom([]string{"all", "boot", "boot", "free"}).Draw(t, "bagkind") {
	case "all":
		return genPerm(t, n, "perm")
	case "boot":
		return genCases(t, n, n, n, true)
	}
	return genCases(t, n, 1, 28, true)
}

type grown struct {
	fm    *CF.FeatureMatrix
	tg    CF.Target
	tree  *CF.Tree
	imp   []*CF.RunningMean
	depth []int
	cands []int
	bag   []int
}

func (g *growArgs) prepare() *grown {
	x := &grown{fm: g.m.real(), tree: CF.NewTree()}
	x.tg = g.r.wrap(x.fm.Data[g.ti])
	x.imp = *CF.NewRunningMeans(len(g.m.F))
	x.depth = unused(len(g.m.F))
	return x
}

func (g *growArgs) grow(x *grown, allocs *CF.BestSplitAllocs) {
	if allocs == nil {
		size := 40
		for _, k := range []int{g.m.N, len(g.bag), len(g.oob)} {
			if size < k {
				size = k
			}
		}
		allocs = CF.NewBestSplitAllocs(size, x.tg)
	}
	x.cands, x.bag = cp(g.cands), cp(g.bag)
	x.tree.Grow(x.fm, x.tg, x.bag, x.cands, cp(g.oob), g.mTry, g.leaf, g.depth, g.splitmissing, g.force, g.vet, g.evaloob, g.xrandm, &x.imp, &x.depth, allocs)
}

// members lists, per node, the training cases that reach it.
func members(root *mnode, m *mmat, bag []int) map[*mnode][]int {
	out := map[*mnode][]int{}
	for _, i := range bag {
		path, _ := root.route(m, i)
		for _, n := range path {
			out[n] = append(out[n], i)
		}
	}
	return out
}

// bestOffer is the best decrease any candidate offers for the cases, and whether all searches are exact.
func (g *growArgs) bestOffer(bag []int) (float64, bool) {
	tol := gainTol(g.r, bag)
	b, exact := math.Inf(-1), true
	for _, ci := range g.cands {
		f := g.m.F[ci]
		if !exactSearch(f) {
			exact = false
			continue
		}
		ds := divsOf(f, g.r, bag, g.leaf)
		x, any := best(ds)
		if !any || x <= 1e-7+tol {
			continue
		}
		tot := math.Inf(-1)
		for _, d := range ds {
			if d.gnm >= x-tol {
				tot = math.Max(tot, totalGain(g.r, f, bag, d))
			}
		}
		b = math.Max(b, tot)
	}
	return b, exact
}

// checkGrown judges a grown tree by its arguments.
func (g *growArgs) checkGrown(t *rapid.T, c *Case, x *grown) *mnode {
	root := modelOf(x.tree.Root, "*")
	if !sameMultiset(x.cands, g.cands) || !sameMultiset(x.bag, g.bag) {
		t.Fatalf("%v: candidates became %v, cases %v", g, x.cands, x.bag)
	}
	for i, f := range g.m.F {
		if g.r.kind == "gradboost" && i == g.ti {
			nf := x.fm.Data[i].(CF.NumFeature)
			for k := range f.V {
				if !closeAt(nf.Get(k), f.V[k]-g.r.mean, maxAbs(f.V)) {
					t.Fatalf("%v: growing changed the residual of case %d to %v", g, k, nf.Get(k))
				}
			}
			continue
		}
		checkFeatureVals(t, f, x.fm.Data[i])
	}
	g.checkShape(t, root)
	// the coded splits the grown tree carries say the same as the decoded ones
	leafOf := make([]string, g.m.N)
	for _, l := range x.tree.GetLeaves(x.fm, nil) {
		for _, i := range l.Cases {
			leafOf[i] = "leaf " + l.Pred
		}
	}
	for i := 0; i < g.m.N; i++ {
		_, l := root.route(g.m, i)
		want := ""
		if l != nil {
			want = "leaf " + l.pred
		}
		if leafOf[i] != want {
			t.Fatalf("%v: case %d is in %q by the tree, by its splits in %q: %v", g, i, leafOf[i], want, root)
		}
	}
	return root
}

// checkShape judges the decoded tree by the arguments it was grown with.
func (g *growArgs) checkShape(t *rapid.T, root *mnode) {
	in := members(root, g.m, g.bag)
	root.walk(func(n *mnode, d int) {
		cases := in[n]
		if !n.leaf() {
			if n.r.f.Name == "?BROKEN" {
				t.Fatalf("%v: broken node %s in %v", g, n.path, root)
			}
			f := g.m.feat(n.r.f.Name)
			if f == nil || f.Num != n.r.f.Num {
				t.Fatalf("%v: node %s splits on unknown %v", g, n.path, n.r)
			}
			fi := -1
			for _, k := range g.cands {
				if g.m.F[k] == f {
					fi = k
				}
			}
			if fi < 0 {
				t.Fatalf("%v: node %s splits on %s which is no candidate: %v", g, n.path, f.Name, root)
			}
			if g.depth > 0 && d >= g.depth {
				t.Fatalf("%v: node %s at depth %d is split: %v", g, n.path, d, root)
			}
			w := n.r.want(f, cases)
			if len(w[0]) < g.leaf || len(w[1]) < g.leaf {
				t.Fatalf("%v: node %s splits %v into %v: %v", g, n.path, cases, w, root)
			}
			if want := g.splitmissing && len(w[2]) > 0; want != (n.m != nil) {
				t.Fatalf("%v: node %s has missing cases %v, missing branch %v: %v", g, n.path, w[2], n.m != nil, root)
			}
			if !g.vet && !g.evaloob && !g.free {
				tot := totalGain(g.r, f, cases, div{l: w[0], r: w[1], gnm: nmGain(g.r, w[0], w[1])})
				if !(tot > 1e-7-gainTol(g.r, cases)) {
					t.Fatalf("%v: node %s splits %v into %v with decrease %v: %v", g, n.path, cases, w, tot, root)
				}
			}
			return
		}
		if len(cases) == 0 {
			t.Fatalf("%v: no training case reaches leaf %s of %v", g, n.path, root)
		}
		if err := g.r.okPred(cases, n.pred); err != nil {
			t.Fatalf("%v: leaf %s with %v: %v; %v", g, n.path, cases, err, root)
		}
		// growing stops only for a reason
		if g.plain() && !g.free && g.mTry == len(g.cands) && (g.depth <= 0 || d < g.depth) && len(cases) >= 2*g.leaf {
			if p := g.r.imp(cases); p < 0 || p > 1e-7+gainTol(g.r, cases) {
				if b, _ := g.bestOffer(cases); b > 1e-7+gainTol(g.r, cases) {
					t.Fatalf("%v: leaf %s with %v could be split with decrease %v: %v", g, n.path, cases, b, root)
				}
			}
		}
	})
}

// ---------------------------------------------------------------- C11

func TestC11_TreesRespectSettings(t *testing.T) {
	forall(t, "the tree has at least two splits", 6000, 50000, func(t *rapid.T, c *Case) {
		g := genGrow(t, allKinds(), true)
		x := g.prepare()
		g.grow(x, nil)
		root := g.checkGrown(t, c, x)
		c.Class("%s", g.r.kind)
		c.ClassIf(g.vet, "vetted")
		c.ClassIf(g.evaloob, "out-of-bag evaluated")
		c.ClassIf(g.xrandm, "extra random")
		c.ClassIf(g.force, "forced")
		c.ClassIf(g.depth > 0, "depth bounded")
		root.walk(func(n *mnode, d int) { c.ClassIf(n.m != nil, "missing branch") })
		if root.splits() >= 2 {
			c.NT(g.String(), root.String())
			c.Sample("%v: %v", g, root)
		}
	})
}

// larger trees: the sorts, the searches over many categories and the bookkeeping of constant candidates take
// other paths than with a few cases
func TestC11_LargeTrees(t *testing.T) {
	forall(t, "the tree has at least ten splits", 1500, 15000, func(t *rapid.T, c *Case) {
		g := genGrowSized(t, allKinds(), true, append([]string{"wide", "wide", "float"}, bigStyles...), []int{40, 60, 90, 130, 200}, []int{4, 12, 40, 70})
		x := g.prepare()
		g.grow(x, nil)
		root := g.checkGrown(t, c, x)
		c.Class("%s", g.r.kind)
		root.walk(func(n *mnode, d int) { c.ClassIf(n.m != nil, "missing branch") })
		if root.splits() >= 10 {
			c.NT(g.String(), root.String())
			c.Sample("%d cases, %d features: %d splits", g.m.N, len(g.m.F), root.splits())
		}
	})
}

// decision jungles: trees whose branches may be shared; where none are, all of the above holds
func TestC11_Jungles(t *testing.T) {
	forall(t, "at least two splits", 3000, 25000, func(t *rapid.T, c *Case) {
		g := genGrow(t, allKinds(), true)
		if k := g.r.kind; k != "gini" && k != "entropy" && k != "num" && k != "l1" && k != "ordinal" && g.depth == 0 {
			g.depth = 6 // combining may pay off again and again
		}
		x := g.prepare()
		x.cands, x.bag = cp(g.cands), cp(g.bag)
		if rapid.IntRange(0, 3).Draw(t, "used") == 0 {
			g.grow(x, nil) // into a used tree
			x.cands, x.bag = cp(g.cands), cp(g.bag)
			x.imp, x.depth = *CF.NewRunningMeans(len(g.m.F)), unused(len(g.m.F))
			c.Class("used tree")
		}
		x.tree.GrowJungle(x.fm, x.tg, x.bag, x.cands, cp(g.oob), g.mTry, g.leaf, g.depth, g.splitmissing, g.force, g.vet, g.evaloob, g.xrandm, &x.imp, &x.depth, CF.NewBestSplitAllocs(40+2*g.m.N, x.tg))
		seen := map[*CF.Node]bool{}
		used := map[int]int{}
		shared := false
		var walk func(n *CF.Node, d int)
		walk = func(n *CF.Node, d int) {
			if n == nil {
				return
			}
			if d > 64 {
				t.Fatalf("%v: a branch of the jungle does not end", g)
			}
			if seen[n] {
				shared = true
				return
			}
			seen[n] = true
			if n.Splitter != nil {
				used[x.fm.Map[n.Splitter.Feature]]++
			}
			walk(n.Left, d+1)
			walk(n.Right, d+1)
			walk(n.Missing, d+1)
		}
		walk(x.tree.Root, 0)
		root := modelOf(x.tree.Root, "*")
		g.checkGrown(t, c, x)
		for i := range g.m.F {
			if _, n := x.imp[i].Read(); int(n) != used[i] {
				t.Fatalf("%v: feature %d splits %d nodes, importance counts %v: %v", g, i, used[i], n, root)
			}
			if (x.depth[i] >= 0) != (used[i] > 0) {
				t.Fatalf("%v: feature %d splits %d nodes, shallowest at %v: %v", g, i, used[i], x.depth[i], root)
			}
		}
		c.Class("%s", g.r.kind)
		c.ClassIf(shared, "shared branches")
		if root.splits() >= 2 {
			c.NT(g.String(), root.String())
			c.Sample("%v: %v", g, root)
		}
	})
}

// combining branches pays off for some targets only: absolute deviations, which may be smaller around a
// common mean, and those that aren't concave
// merger makes GrowJungle merge branches more often than its target would.
type merger struct {
	CF.Target
	seed  int
	first *int
	n     int
	was   float64
}

func (m *merger) SplitImpurity(l *[]int, r *[]int, miss *[]int, allocs *CF.BestSplitAllocs) float64 {
	s := m.Target.SplitImpurity(l, r, miss, allocs)
	m.first = nil
	if miss == nil && len(*l) > 0 && len(*r) > 0 {
		m.first, m.n, m.was = &(*l)[0], len(*l)+len(*r), s
	}
	return s
}

func (m *merger) Impurity(cases *[]int, counter *[]int) float64 {
	i := m.Target.Impurity(cases, counter)
	if m.first != nil && len(*cases) == m.n && &(*cases)[0] == m.first && (m.n*2654435761+m.seed*40503)>>7&7 < 5 {
		i = m.was / 2 // what was asked about before is better joined
	}
	m.first = nil
	return i
}

func TestC11_JungleMerges(t *testing.T) {
	forall(t, "branches are shared", 2500, 25000, func(t *rapid.T, c *Case) {
		g := genGrowSized(t, []string{"l1", "np", "trans", "trans", "trans", "trans", "adaboost", "ordinal"}, false, []string{"grid", "grid", "float", "few"}, []int{20, 30, 50}, []int{3, 5, 9})
		if g.r.kind == "trans" {
			g.r.alpha = rapid.SampledFrom([]float64{1.0 / 64, 1.0 / 16, 0.25, 1}).Draw(t, "density weight")
		}
		g.leaf = rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "leafsize")
		g.depth = rapid.IntRange(4, 7).Draw(t, "depth")
		g.splitmissing = rapid.IntRange(0, 3).Draw(t, "withmissing") > 0
		if g.splitmissing {
			for _, f := range g.m.F[:g.ti] {
				for i := range f.Miss {
					f.Miss[i] = f.Miss[i] || rand.Intn(4) == 0
				}
			}
		}
		g.bag = genCases(t, g.m.N, g.m.N, 60, true)
		g.mTry = rapid.SampledFrom([]int{1, 1, len(g.cands)}).Draw(t, "tries")
		eager := rapid.Bool().Draw(t, "eager")
		if eager {
			g.vet, g.free = false, true
		}
		x := g.prepare()
		x.cands, x.bag = cp(g.cands), cp(g.bag)
		tg := x.tg
		if eager {
			tg = &merger{Target: x.tg, seed: rapid.IntRange(0, 1000).Draw(t, "merge seed")}
		}
		x.tree.GrowJungle(x.fm, tg, x.bag, x.cands, cp(g.oob), g.mTry, g.leaf, g.depth, g.splitmissing, g.force, g.vet, g.evaloob, g.xrandm, &x.imp, &x.depth, CF.NewBestSplitAllocs(60+2*g.m.N, x.tg))
		parents := map[*CF.Node]int{}
		missing, several := false, false
		climbed := map[*CF.Node]bool{}
		x.tree.Root.Climb(func(n *CF.Node) {
			if climbed[n] {
				return
			}
			climbed[n] = true
			if n.Missing != nil && (n.Missing == n.Left || n.Missing == n.Right || parents[n.Missing] > 0) {
				missing = true
			}
			for _, k := range []*CF.Node{n.Left, n.Right, n.Missing} {
				if k != nil {
					parents[k]++
					several = several || parents[k] > 2
				}
			}
		})
		shared := false
		for _, k := range parents {
			shared = shared || k > 1
		}
		root := g.checkGrown(t, c, x)
		c.Class("%s", g.r.kind)
		c.ClassIf(shared, g.r.kind+" shared")
		c.ClassIf(missing, "missing branch shared")
		c.ClassIf(several, "three parents")
		c.ClassIf(eager && shared, "eager shared")
		if shared {
			c.NT(g.String(), root.String())
			c.Sample("%v: %v", g, root)
		}
	})
}

// growing into a used tree, with used scratch space
func TestC11_Regrow(t *testing.T) {
	forall(t, "both trees have a split", 3000, 25000, func(t *rapid.T, c *Case) {
		g := genGrow(t, allKinds(), false)
		x := g.prepare()
		allocs := CF.NewBestSplitAllocs(40+2*g.m.N, x.tg)
		g.grow(x, allocs)
		first := g.checkGrown(t, c, x)
		h := *g
		h.bag = genBag(t, g.m.N)
		h.leaf = rapid.IntRange(1, 5).Draw(t, "leaf2")
		h.depth = rapid.IntRange(0, 4).Draw(t, "depth2")
		h.splitmissing = rapid.Bool().Draw(t, "splitmissing2")
		h.grow(x, allocs)
		second := h.checkGrown(t, c, x)
		c.ClassIf(first.splits() > second.splits(), "second tree smaller")
		if first.splits() > 0 && second.splits() > 0 {
			c.NT(g.String(), first.String(), second.String())
			c.Sample("%v then %v of %v", first, second, &h)
		}
	})
}

// whole forests: size, target, intercept, and only known targets are learned from
func TestC11_Forests(t *testing.T) {
	forall(t, "a tree has a split", 2500, 20000, func(t *rapid.T, c *Case) {
		n := genSize(t, 4, 16, 80, 150)
		m := genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 5, missing: true, styles: allStyles, maxCats: 5})
		r := &rt{kind: rapid.SampledFrom([]string{"gini", "entropy", "num", "l1", "ordinal", "regret", "wrf"}).Draw(t, "kind")}
		missTgt := rapid.Bool().Draw(t, "missingTargets")
		genTargetKind(t, n, r, missTgt)
		known := []int{}
		for i, x := range r.col.Miss {
			if !x {
				known = append(known, i)
			}
		}
		if len(known) == 0 {
			c.Class("no known target")
			return
		}
		m.F = append(m.F, r.col)
		ti := len(m.F) - 1
		fm := m.real()
		tg := r.wrap(fm.Data[ti])
		nTrees := genSize(t, 0, 4, 30, 100)
		leaf := rapid.IntRange(1, 3).Draw(t, "leaf")
		depth := rapid.IntRange(0, 4).Draw(t, "depth")
		mTry := rapid.IntRange(1, ti).Draw(t, "mTry")
		imp := CF.NewRunningMeans(ti + 1)
		sm := rapid.Bool().Draw(t, "splitmissing")
		f := CF.GrowRandomForest(fm, tg, seq(ti), n, mTry, nTrees, leaf, depth, sm, rapid.Bool().Draw(t, "force"), false, false, imp)
		what := fmt.Sprintf("%v in %v", r, m)
		if len(f.Trees) != nTrees || f.Target != r.col.Name || f.Intercept != 0 {
			t.Fatalf("%s: %d trees for %q intercept %v, want %d", what, len(f.Trees), f.Target, f.Intercept, nTrees)
		}
		for i, x := range m.F {
			checkFeatureVals(t, x, fm.Data[i])
		}
		splits := 0
		used := make([]float64, ti+1)
		for _, tr := range f.Trees {
			root := modelOf(tr.Root, "*")
			splits += root.splits()
			if tr.Target != r.col.Name {
				t.Fatalf("%s: tree target %q", what, tr.Target)
			}
			in := members(root, m, known)
			root.walk(func(x *mnode, d int) {
				if !x.leaf() {
					used[fm.Map[x.r.f.Name]]++
					if depth > 0 && d >= depth || x.r.f.Name == r.col.Name || m.feat(x.r.f.Name) == nil {
						t.Fatalf("%s: depth %d node %s in %v", what, depth, x.path, root)
					}
					return
				}
				// a bag lies behind the leaf: what it predicts is right for some bag of known cases there
				if len(in[x]) == 0 {
					t.Fatalf("%s: no known case reaches leaf %s of %v", what, x.path, root)
				}
				switch r.kind {
				case "num", "l1":
					v, err := strconv.ParseFloat(x.pred, 64)
					lo, hi := math.Inf(1), math.Inf(-1)
					for _, i := range in[x] {
						lo, hi = math.Min(lo, r.col.V[i]), math.Max(hi, r.col.V[i])
					}
					if err != nil || v < lo-1e-9*(1+math.Abs(lo)) || v > hi+1e-9*(1+math.Abs(hi)) {
						t.Fatalf("%s: leaf %s of %v predicts %q, cases there have %v to %v", what, x.path, root, x.pred, lo, hi)
					}
				default:
					ok := false
					for _, i := range in[x] {
						ok = ok || r.col.str(i) == x.pred
					}
					if !ok {
						t.Fatalf("%s: leaf %s of %v predicts %q which no case there has", what, x.path, root, x.pred)
					}
				}
			})
		}
		for i := range used {
			_, cnt := (*imp)[i].Read()
			if cnt != used[i] {
				t.Fatalf("%s: feature %d counted %v, used by %v splits", what, i, cnt, used[i])
			}
		}
		c.ClassIf(len(known) < n, "missing targets")
		if splits > 0 {
			c.NT(what, nTrees, leaf, depth, mTry, splits)
			c.Sample("%s: %d trees, %d splits", what, nTrees, splits)
		}
	})
}

// ---------------------------------------------------------------- C16

func TestC16_SplitsCounted(t *testing.T) {
	forall(t, "two features are used and one more than once", 5000, 40000, func(t *rapid.T, c *Case) {
		g := genGrow(t, allKinds(), false)
		x := g.prepare()
		allocs := CF.NewBestSplitAllocs(40+2*g.m.N, x.tg)
		k := rapid.IntRange(1, 3).Draw(t, "trees")
		sum, cnt := make([]float64, len(g.m.F)), make([]float64, len(g.m.F))
		tol := 1e-12
		used, multi := map[string]bool{}, false
		trees := ""
		jungle := rapid.IntRange(0, 3).Draw(t, "jungle") == 0
		if jungle && g.depth == 0 {
			g.depth = 6
		}
		for j := 0; j < k; j++ {
			h := *g
			h.bag = genBag(t, g.m.N)
			if j == 0 || rapid.Bool().Draw(t, "new tree") {
				x.tree = CF.NewTree()
			} else {
				c.Class("used tree")
				h.leaf = rapid.IntRange(1, 3).Draw(t, "its leafsize")
			}
			x.depth = unused(len(g.m.F))
			if jungle {
				x.tree.GrowJungle(x.fm, x.tg, cp(h.bag), cp(h.cands), cp(h.oob), h.mTry, h.leaf, h.depth, h.splitmissing, h.force, h.vet, h.evaloob, h.xrandm, &x.imp, &x.depth, allocs)
				if sharesBranches(x.tree.Root) {
					c.Class("shared branches")
					return
				}
				c.Class("jungle")
			} else {
				h.grow(x, allocs)
			}
			root := modelOf(x.tree.Root, "*")
			trees += root.String() + "; "
			in := members(root, g.m, h.bag)
			shallow := map[int]int{}
			root.walk(func(n *mnode, d int) {
				if n.leaf() {
					return
				}
				fi := x.fm.Map[n.r.f.Name]
				f := g.m.F[fi]
				w := n.r.want(f, in[n])
				sum[fi] += totalGain(g.r, f, in[n], div{l: w[0], r: w[1], gnm: nmGain(g.r, w[0], w[1])})
				cnt[fi]++
				tol += gainTol(g.r, in[n])
				multi = multi || used[f.Name]
				used[f.Name] = true
				if s, ok := shallow[fi]; !ok || d < s {
					shallow[fi] = d
				}
			})
			for fi := range g.m.F {
				want, ok := shallow[fi]
				checkDepth(t, fmt.Sprintf("%v: %v", &h, root), g.m.F[fi].Name, x.depth[fi], want, ok)
			}
		}
		for fi := range g.m.F {
			mean, n := x.imp[fi].Read()
			if n != cnt[fi] {
				t.Fatalf("%v: %s counted %v times, used by %v splits: %s", g, g.m.F[fi].Name, n, cnt[fi], trees)
			}
			if n > 0 && math.Abs(mean-sum[fi]/cnt[fi]) > tol {
				t.Fatalf("%v: importance of %s is %v, mean decrease %v: %s", g, g.m.F[fi].Name, mean, sum[fi]/cnt[fi], trees)
			}
		}
		c.Class("%d trees", k)
		if len(used) >= 2 && multi {
			c.NT(g.String(), trees)
			c.Sample("%v: %s counts %v", g, trees, cnt)
		}
	})
}

// sharesBranches tells whether a node is reached in two ways.
func sharesBranches(root *CF.Node) bool {
	seen := map[*CF.Node]bool{}
	shared := false
	var walk func(n *CF.Node)
	walk = func(n *CF.Node) {
		if n == nil {
			return
		}
		if seen[n] {
			shared = true
			return
		}
		seen[n] = true
		walk(n.Left)
		walk(n.Right)
		walk(n.Missing)
	}
	walk(root)
	return shared
}

func TestC16_RunningMean(t *testing.T) {
	forall(t, "three values with different weights", 15000, 120000, func(t *rapid.T, c *Case) {
		k := genSize(t, 0, 30, 300, 1500)
		rm := new(CF.RunningMean)
		sum, wsum, mag := 0.0, 0.0, 0.0
		weights := map[float64]bool{}
		unit := rapid.SampledFrom([]float64{1, 1, 1, 1e-5, 1e-12, 1e7}).Draw(t, "unit of weight")
		ones := unit == 1
		var vs, ws []float64
		for j := 0; j < k; j++ {
			v := drawNum(t, rapid.SampledFrom(numStyles).Draw(t, "s"), "v")
			w := 1.0
			if rapid.Bool().Draw(t, "weighted") || !ones {
				w = unit * float64(rapid.IntRange(0, 32).Draw(t, "w")) / 8
				rm.WeightedAdd(v, w)
			} else {
				rm.Add(v)
			}
			vs, ws = append(vs, v), append(ws, w)
			sum += v * w
			wsum += w
			mag = math.Max(mag, math.Abs(v))
			weights[w] = true
			m, n := rm.Read()
			if math.Abs(n-wsum) > 1e-9*(unit+wsum) {
				t.Fatalf("weight %v, want %v after %v", n, wsum, vs)
			}
			if wsum > 0 && math.Abs(m-sum/wsum) > 1e-9*(1+mag) {
				t.Fatalf("mean %v, want %v after %v weights %v", m, sum/wsum, vs, ws)
			}
			if wsum == 0 && (n != 0 || math.IsNaN(m)) {
				t.Fatalf("mean %v weight %v after zero weights", m, n)
			}
		}
		other := new(CF.RunningMean)
		for _, j := range genPerm(t, k, "order") {
			other.WeightedAdd(vs[j], ws[j])
		}
		a, an := rm.Read()
		b, bn := other.Read()
		if math.Abs(an-bn) > 1e-9*(unit+an) || (an > 0 && math.Abs(a-b) > 1e-9*(1+mag)) {
			t.Fatalf("%v weights %v give %v (%v), in another order %v (%v)", vs, ws, a, an, b, bn)
		}
		if len(weights) >= 3 {
			c.NT(vs, ws)
			c.Sample("%v weights %v mean %v", vs, ws, a)
		}
	})
}

// ---------------------------------------------------------------- C14

// boostRounds drives a boosting target through random or grown partitions.
func partitionOf(t *rapid.T, n int, pred func(cases []int) string) (leaves [][]int, preds []string) {
	k := rapid.IntRange(1, 4).Draw(t, "leaves")
	leaves = make([][]int, k)
	drop := rapid.Bool().Draw(t, "drop")
	s := source(t, n)
	for i := 0; i < n; i++ {
		hi := k - 1
		if drop {
			hi = k
		}
		if j := s.int(0, hi, "in"); j < k {
			leaves[j] = append(leaves[j], i)
		}
	}
	for _, l := range leaves {
		preds = append(preds, pred(l))
	}
	return
}

func TestC14_RegressionAddsUp(t *testing.T) {
	forall(t, "two rounds or more that move some residual", 5000, 40000, func(t *rapid.T, c *Case) {
		n := genSize(t, 2, 16, 80, 150)
		m := genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 4, missing: true, styles: allStyles, maxCats: 5})
		col := genNumFeatStyle(t, "N:target", n, true, rapid.SampledFrom([]string{"few", "grid", "float", "wide"}).Draw(t, "ts"))
		var known []int
		mag := 1.0
		sum := 0.0
		for i := range col.V {
			if !col.Miss[i] {
				known = append(known, i)
				mag = math.Max(mag, math.Abs(col.V[i]))
				sum += col.V[i]
			}
		}
		if len(known) == 0 {
			return
		}
		m.F = append(m.F, col)
		ti := len(m.F) - 1
		fm := m.real()
		lr := float64(rapid.IntRange(1, 20).Draw(t, "lr")) / 16
		tg := CF.NewGradBoostTarget(fm.Data[ti].(CF.NumFeature), lr)
		tol := 1e-9 * mag
		if math.Abs(tg.Intercept()-sum/float64(len(known))) > tol {
			t.Fatalf("intercept %v, mean of the known values %v: %v", tg.Intercept(), sum/float64(len(known)), col)
		}
		rounds := genSize(t, 1, 6, 30)
		score := make([]float64, n)
		allocs := CF.NewBestSplitAllocs(40+2*n, tg)
		moved := 0
		for k := 0; k < rounds; k++ {
			var ls *[][]int
			var ps *[]string
			if rapid.Bool().Draw(t, "grow") {
				tr := CF.NewTree()
				bag := make([]int, 0)
				for _, j := range genCases(t, len(known), 1, 20, true) {
					bag = append(bag, known[j])
				}
				res := make([]float64, n)
				for i := range res {
					res[i] = tg.Get(i)
				}
				tr.Grow(fm, tg, bag, seq(ti), nil, rapid.IntRange(1, ti).Draw(t, "mTry"), 1, rapid.IntRange(1, 3).Draw(t, "depth"), rapid.Bool().Draw(t, "sm"), false, false, false, false, nil, nil, allocs)
				// leaves predict the mean residual of the cases that trained them
				root := modelOf(tr.Root, "*")
				for nd, cs := range members(root, m, bag) {
					if !nd.leaf() {
						continue
					}
					s := 0.0
					for _, i := range cs {
						s += res[i]
					}
					v, err := strconv.ParseFloat(nd.pred, 64)
					if err != nil || math.Abs(v-s/float64(len(cs))) > tol*10 {
						t.Fatalf("round %d: leaf %s of %v predicts %q, mean residual of %v is %v", k, nd.path, root, nd.pred, cs, s/float64(len(cs)))
					}
				}
				ls, ps = tr.Partition(fm)
				c.Class("grown round")
			} else {
				l, p := partitionOf(t, n, func([]int) string { return numPred(t) })
				ls, ps = &l, &p
				c.Class("arbitrary round")
			}
			for j, l := range *ls {
				v, err := strconv.ParseFloat((*ps)[j], 64)
				if err != nil && len(l) > 0 {
					t.Fatalf("round %d: leaf prediction %q", k, (*ps)[j])
				}
				for _, i := range l {
					score[i] += lr * v
					mag = math.Max(mag, math.Abs(score[i]))
					if v != 0 && !col.Miss[i] {
						moved++
					}
				}
			}
			if w := tg.Boost(ls, ps); w != lr {
				t.Fatalf("tree weight %v, want the learning rate %v", w, lr)
			}
			tol = 1e-9 * mag
			for i := 0; i < n; i++ {
				if tg.IsMissing(i) != col.Miss[i] || fm.Data[ti].IsMissing(i) != col.Miss[i] {
					t.Fatalf("round %d: case %d missing=%v, was %v", k, i, tg.IsMissing(i), col.Miss[i])
				}
				if col.Miss[i] {
					continue
				}
				if got := tg.Intercept() + score[i] + tg.Get(i); math.Abs(got-col.V[i]) > tol {
					t.Fatalf("round %d: case %d: intercept %v + predictions %v + residual %v = %v, value is %v", k, i, tg.Intercept(), score[i], tg.Get(i), got, col.V[i])
				}
			}
		}
		for i := 0; i < ti; i++ {
			checkFeatureVals(t, m.F[i], fm.Data[i])
		}
		c.ClassIf(len(known) < n, "missing targets")
		if rounds >= 2 && moved >= 2 {
			c.NT(m.String(), lr, rounds)
			c.Sample("%v learning rate %v, %d rounds, scores %v", m, lr, rounds, score)
		}
	})
}

// whole boosted forests: the sum of votes plus intercept plus residual is the value
func TestC14_BoostedForest(t *testing.T) {
	forall(t, "two or more trees with splits", 2000, 16000, func(t *rapid.T, c *Case) {
		n := genSize(t, 4, 18, 80, 150)
		m := genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 4, missing: true, styles: allStyles, maxCats: 5})
		col := genNumFeatStyle(t, "N:target", n, true, rapid.SampledFrom([]string{"few", "grid", "float"}).Draw(t, "ts"))
		if rapid.Bool().Draw(t, "structured") {
			for i := range col.V {
				if m.F[0].Num && !m.F[0].Miss[i] && math.Abs(m.F[0].V[i]) < 1e100 {
					col.V[i] = m.F[0].V[i]
				}
			}
		}
		known := 0
		mag, sum := 1.0, 0.0
		for i := range col.V {
			if !col.Miss[i] {
				known++
				mag = math.Max(mag, math.Abs(col.V[i]))
				sum += col.V[i]
			}
		}
		if known == 0 {
			return
		}
		m.F = append(m.F, col)
		ti := len(m.F) - 1
		fm := m.real()
		lr := float64(rapid.IntRange(1, 16).Draw(t, "lr")) / 16
		tg := CF.NewGradBoostTarget(fm.Data[ti].(CF.NumFeature), lr)
		nt := genSize(t, 1, 6, 40)
		f := CF.GrowRandomForest(fm, tg, seq(ti), n, rapid.IntRange(1, ti).Draw(t, "mTry"), nt, rapid.IntRange(1, 3).Draw(t, "leaf"), rapid.IntRange(0, 3).Draw(t, "depth"), rapid.Bool().Draw(t, "sm"), false, false, false, nil)
		if math.Abs(f.Intercept-sum/float64(known)) > 1e-9*mag || len(f.Trees) != nt {
			t.Fatalf("intercept %v want %v, %d trees want %d", f.Intercept, sum/float64(known), len(f.Trees), nt)
		}
		score := make([]float64, n)
		withSplits := 0
		for _, tr := range f.Trees {
			if tr.Weight != lr {
				t.Fatalf("tree weight %v, learning rate %v", tr.Weight, lr)
			}
			root := modelOf(tr.Root, "*")
			if root.splits() > 0 {
				withSplits++
			}
			for i := 0; i < n; i++ {
				if _, l := root.route(m, i); l != nil {
					v, err := strconv.ParseFloat(l.pred, 64)
					if err != nil {
						t.Fatalf("leaf prediction %q in %v", l.pred, root)
					}
					score[i] += lr * v
				}
			}
		}
		// voting into a sum box gives the same
		sb := CF.NewSumBallotBox(n)
		for _, tr := range f.Trees {
			tr.Vote(fm, sb)
		}
		for i := 0; i < n; i++ {
			if math.Abs(sb.TallyNum(i)-score[i]) > 1e-9*mag*10 {
				t.Fatalf("case %d is voted %v, trees say %v", i, sb.TallyNum(i), score[i])
			}
			if fm.Data[ti].IsMissing(i) != col.Miss[i] {
				t.Fatalf("case %d: missing=%v, was %v", i, fm.Data[ti].IsMissing(i), col.Miss[i])
			}
			if col.Miss[i] {
				continue
			}
			res := fm.Data[ti].(CF.NumFeature).Get(i)
			if got := f.Intercept + score[i] + res; math.Abs(got-col.V[i]) > 1e-8*mag {
				t.Fatalf("case %d: intercept %v + predictions %v + residual %v = %v, value is %v in %v", i, f.Intercept, score[i], res, got, col.V[i], m)
			}
		}
		c.ClassIf(known < n, "missing targets")
		if withSplits >= 2 {
			c.NT(m.String(), lr, nt, score)
			c.Sample("%v learning rate %v %d trees scores %v", m, lr, nt, score)
		}
	})
}

func expit(x float64) float64 { return 1 / (1 + math.Exp(-x)) }

func TestC14_TwoClass(t *testing.T) {
	forall(t, "two rounds or more that move some residual", 5000, 40000, func(t *rapid.T, c *Case) {
		n := genSize(t, 3, 16, 80, 150)
		m := genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 4, missing: true, styles: allStyles, maxCats: 5})
		col := genCatFeat(t, "C:target", n, true, 2, false)
		cnt := [2]int{}
		var known []int
		for i := range col.C {
			if !col.Miss[i] {
				cnt[col.C[i]]++
				known = append(known, i)
			}
		}
		if cnt[0] == 0 || cnt[1] == 0 {
			c.Class("one class")
			return
		}
		pos := rapid.IntRange(0, 1).Draw(t, "pos")
		m.F = append(m.F, col)
		ti := len(m.F) - 1
		fm := m.real()
		lr := float64(rapid.IntRange(1, 16).Draw(t, "lr")) / 16
		tg := CF.NewGradBoostClassTarget(fm.Data[ti].(CF.CatFeature), lr, col.Cats[pos])
		icpt := math.Log(float64(cnt[pos]) / float64(len(known)-cnt[pos]))
		if !close2(tg.Intercept(), icpt, 1e-12) {
			t.Fatalf("intercept %v, log odds of %q in %v are %v", tg.Intercept(), col.Cats[pos], col, icpt)
		}
		score := make([]float64, n)
		for i := range score {
			score[i] = icpt
		}
		check := func(k int) {
			for i := 0; i < n; i++ {
				if tg.IsMissing(i) != col.Miss[i] {
					t.Fatalf("round %d: case %d missing=%v, was %v", k, i, tg.IsMissing(i), col.Miss[i])
				}
				if col.Miss[i] {
					continue
				}
				y := 0.0
				if col.C[i] == pos {
					y = 1
				}
				if want := y - expit(score[i]); math.Abs(tg.Get(i)-want) > 1e-9 {
					t.Fatalf("round %d: case %d: working target %v, label %v minus logistic of %v is %v", k, i, tg.Get(i), y, score[i], want)
				}
			}
		}
		check(-1)
		rounds := genSize(t, 1, 5, 30)
		allocs := CF.NewBestSplitAllocs(40+2*n, tg)
		moved := 0
		for k := 0; k < rounds; k++ {
			var ls *[][]int
			var ps *[]string
			if rapid.Bool().Draw(t, "grow") {
				tr := CF.NewTree()
				bag := make([]int, 0)
				for _, j := range genCases(t, len(known), 1, 20, true) {
					bag = append(bag, known[j])
				}
				tr.Grow(fm, tg, bag, seq(ti), nil, rapid.IntRange(1, ti).Draw(t, "mTry"), 1, rapid.IntRange(1, 3).Draw(t, "depth"), rapid.Bool().Draw(t, "sm"), false, false, false, false, nil, nil, allocs)
				root := modelOf(tr.Root, "*")
				for nd, cs := range members(root, m, bag) {
					if !nd.leaf() {
						continue
					}
					num, den := 0.0, 0.0
					for _, i := range cs {
						r := tg.Get(i)
						p := expit(score[i])
						num += r
						den += p * (1 - p)
					}
					v, err := strconv.ParseFloat(nd.pred, 64)
					if err != nil || (den > 1e-6 && !close2(v, num/den, 1e-6)) {
						t.Fatalf("round %d: leaf %s of %v predicts %q, want %v/%v for %v", k, nd.path, root, nd.pred, num, den, cs)
					}
				}
				ls, ps = tr.Partition(fm)
			} else {
				l, p := partitionOf(t, n, func([]int) string { return fmt.Sprint(float64(rapid.IntRange(-40, 40).Draw(t, "p")) / 16) })
				ls, ps = &l, &p
			}
			for j, l := range *ls {
				v, err := strconv.ParseFloat((*ps)[j], 64)
				if err != nil || math.IsNaN(v) || math.Abs(v) > 30 {
					return // saturated
				}
				for _, i := range l {
					score[i] += lr * v
					if v != 0 && !col.Miss[i] {
						moved++
					}
				}
			}
			if w := tg.Boost(ls, ps); w != lr {
				t.Fatalf("tree weight %v, want the learning rate %v", w, lr)
			}
			check(k)
		}
		for i := range m.F {
			checkFeatureVals(t, m.F[i], fm.Data[i])
		}
		c.ClassIf(len(known) < n, "missing targets")
		if rounds >= 2 && moved >= 2 {
			c.NT(m.String(), lr, rounds, fmt.Sprint(score))
			c.Sample("%v positive %q learning rate %v, %d rounds, scores %v", m, col.Cats[pos], lr, rounds, score)
		}
	})
}

// ---------------------------------------------------------------- C15

func weightsOK(t *rapid.T, what string, w []float64) {
	s := 0.0
	for i, x := range w {
		if math.IsNaN(x) || math.IsInf(x, 0) || x < 0 {
			t.Fatalf("%s: weight of case %d is %v: %v", what, i, x, w)
		}
		s += x
	}
	if math.Abs(s-1) > 1e-9 {
		t.Fatalf("%s: weights sum to %v: %v", what, s, w)
	}
}

func TestC15_Categorical(t *testing.T) {
	forall(t, "a round with a positive error below one half changes weights", 8000, 60000, func(t *rapid.T, c *Case) {
		n := genSize(t, 2, 16, 80, 300)
		k := rapid.IntRange(2, 4).Draw(t, "k")
		col := genCatFeat(t, "C:target", n, rapid.Bool().Draw(t, "mt"), k, false)
		cost := make([]float64, k)
		costs := map[string]float64{}
		for i := range cost {
			cost[i] = float64(rapid.IntRange(1, 12).Draw(t, "cost")) / 4
			costs[col.Cats[i]] = cost[i]
		}
		adacost := rapid.Bool().Draw(t, "adacost")
		var real CF.Target
		var boost func(*[][]int, *[]string) float64
		var weights func() []float64
		if adacost {
			x := CF.NewAdaCostTarget(col.cat())
			x.SetCosts(costs)
			real = x
			boost, weights = x.Boost, func() []float64 { return x.Weights }
		} else {
			for i := range cost {
				cost[i] = 1
			}
			x := CF.NewAdaBoostTarget(col.cat())
			real = x
			boost, weights = x.Boost, func() []float64 { return x.Weights }
		}
		ref := make([]float64, n)
		for i := range ref {
			ref[i] = 1 / float64(n)
		}
		weightsOK(t, "at first", weights())
		rounds := genSize(t, 1, 6, 30)
		useful := false
		for round := 0; round < rounds; round++ {
			// partitions near the classes, so that errors are below one half now and then
			kl := rapid.IntRange(1, 4).Draw(t, "kl")
			leaves := make([][]int, kl)
			flip := rapid.IntRange(0, 5).Draw(t, "flip")
			drop := rapid.IntRange(0, 3).Draw(t, "drop") == 0
			from := source(t, n)
			for i := 0; i < n; i++ {
				j := col.C[i] % kl
				if flip > 0 && from.int(0, 5, "f") < flip {
					j = from.int(0, kl-1, "j")
				}
				if drop && from.int(0, 4, "d") == 0 {
					continue
				}
				leaves[j] = append(leaves[j], i)
			}
			preds := make([]string, kl)
			wrong := make([]int, n) // 0 not in a leaf or unknown, 1 right, 2 wrong
			err := 0.0
			ambiguous := false
			for j, l := range leaves {
				cnt := make([]int, k)
				for _, i := range l {
					if !col.Miss[i] {
						cnt[col.C[i]]++
					}
				}
				m := 0
				for q := range cnt {
					if cnt[q] > cnt[m] {
						m = q
					}
				}
				for q := range cnt {
					ambiguous = ambiguous || (q != m && cnt[q] == cnt[m] && cnt[q] > 0)
				}
				preds[j] = col.Cats[m]
				for _, i := range l {
					if col.Miss[i] {
						continue
					}
					wrong[i] = 1
					if col.C[i] != m {
						wrong[i] = 2
						err += ref[i] * cost[col.C[i]]
					}
				}
			}
			before := append([]float64(nil), weights()...)
			var lcopy [][]int
			for _, l := range leaves {
				lcopy = append(lcopy, cp(l))
			}
			for j, l := range leaves {
				kn := []int{}
				for _, i := range l {
					if !col.Miss[i] {
						kn = append(kn, i)
					}
				}
				if len(kn) > 0 {
					if p := real.FindPredicted(kn); p != preds[j] {
						t.Fatalf("%v: cases %v are predicted to be %q, first most frequent class is %q", col, kn, p, preds[j])
					}
				}
			}
			w := boost(&lcopy, &preds)
			after := weights()
			what := fmt.Sprintf("round %d of %v costs %v leaves %v weights %v", round, col, cost, leaves, before)
			weightsOK(t, what, after)
			if math.IsNaN(w) || math.IsInf(w, 0) || w < 0 {
				t.Fatalf("%s: tree weight %v", what, w)
			}
			c.ClassIf(ambiguous, "leaf with two majorities") // the first category counts, as in predictions
			if math.Abs(err-0.5) < 1e-9 {
				copy(ref, after)
				c.Class("error at one half")
				continue
			}
			if err >= 0.5 {
				for i := range after {
					if !closeAt(after[i], before[i], before[i]) {
						t.Fatalf("%s: error %v, yet weights became %v", what, err, after)
					}
				}
				if w != 0 {
					t.Fatalf("%s: error %v, yet tree weight %v", what, err, w)
				}
				c.Class("error of a half or more")
				continue
			}
			perfect := err < 1e-12
			if !perfect {
				want := 0.5 * math.Log((1-err)/err)
				if !close2(w, want, 1e-6) {
					t.Fatalf("%s: tree weight %v, want %v for error %v", what, w, want, err)
				}
			} else if w <= 0 {
				t.Fatalf("%s: tree weight %v for a perfect tree", what, w)
			} else {
				c.Class("perfect tree")
			}
			// the update, normalised
			s := 0.0
			next := make([]float64, n)
			for i := range next {
				switch wrong[i] {
				case 0:
					next[i] = ref[i]
				case 1:
					next[i] = ref[i] * math.Exp(-w) * cost[col.C[i]]
				case 2:
					next[i] = ref[i] * math.Exp(w) * cost[col.C[i]]
				}
				s += next[i]
			}
			for i := range next {
				next[i] /= s
				if math.Abs(next[i]-after[i]) > 1e-7 {
					t.Fatalf("%s: tree weight %v: weights became %v, want %v", what, w, after, next)
				}
			}
			copy(ref, after)
			if !perfect {
				useful = true
			}
		}
		c.ClassIf(adacost, "costs")
		c.ClassIf(col.hasMissing(), "missing targets")
		if useful {
			c.NT(col.String(), cost, rounds, fmt.Sprint(ref))
			c.Sample("%v costs %v after %d rounds weights %v", col, cost, rounds, ref)
		}
	})
}

func TestC15_Numerical(t *testing.T) {
	forall(t, "a round with a positive error changes weights", 6000, 50000, func(t *rapid.T, c *Case) {
		n := genSize(t, 2, 14, 80, 300)
		col := genNumFeatStyle(t, "N:target", n, rapid.Bool().Draw(t, "mt"), rapid.SampledFrom([]string{"few", "grid", "float", "binary", "constant", "wide", "micro"}).Draw(t, "ts"))
		tg := CF.NewNumAdaBoostTarget(col.num())
		weightsOK(t, "at first", tg.Weights)
		ref := append([]float64(nil), tg.Weights...)
		avg := func(cs []int) float64 {
			s, k := 0.0, 0.0
			for _, i := range cs {
				if !col.Miss[i] {
					s += col.V[i]
					k++
				}
			}
			return s / k
		}
		loss := func(cs []int) (e float64) {
			m := avg(cs)
			for _, i := range cs {
				if !col.Miss[i] {
					e += ref[i] * math.Abs(col.V[i]-m)
				}
			}
			return
		}
		norm := loss(seq(n)) * float64(n)
		useful := false
		rounds := genSize(t, 1, 5, 30)
		for round := 0; round < rounds; round++ {
			leaves, preds := partitionOf(t, n, func(cs []int) string { return fmt.Sprint(avg(cs)) })
			if rapid.IntRange(0, 3).Draw(t, "perfect") == 0 {
				// a tree that explains everything
				leaves, preds = nil, nil
				groups := map[float64][]int{}
				for i := range col.V {
					if !col.Miss[i] {
						groups[col.V[i]] = append(groups[col.V[i]], i)
					}
				}
				var vs []float64
				for v := range groups {
					vs = append(vs, v)
				}
				sort.Float64s(vs)
				for _, v := range vs {
					leaves, preds = append(leaves, groups[v]), append(preds, fmt.Sprint(v))
				}
			}
			err := 0.0
			for _, l := range leaves {
				err += loss(l)
			}
			w := tg.Boost(&leaves, &preds)
			what := fmt.Sprintf("round %d of %v leaves %v weights %v", round, col, leaves, ref)
			weightsOK(t, what, tg.Weights)
			if math.IsNaN(w) || math.IsInf(w, 0) || w < 0 {
				t.Fatalf("%s: tree weight %v", what, w)
			}
			switch {
			case len(leaves) == 0 || norm == 0 || math.Abs(err-norm) < 1e-9*norm || err > norm:
				c.Class("no change expected")
				copy(ref, tg.Weights)
				continue
			case err < 1e-9*norm:
				if w < 10 {
					t.Fatalf("%s: weight %v for a perfect tree", what, w)
				}
				c.Class("perfect tree")
				copy(ref, tg.Weights)
				continue
			}
			if want := math.Log(norm / err); !close2(w, want, 1e-6) {
				t.Fatalf("%s: tree weight %v, want %v", what, w, want)
			}
			ex := make([]float64, n)
			top := 0.0
			for _, l := range leaves {
				m := avg(l)
				for _, i := range l {
					if !col.Miss[i] {
						ex[i] = w * (math.Abs(col.V[i]-m) - err)
					}
				}
			}
			for i := range ex {
				if i == 0 || ex[i] > top {
					top = ex[i]
				}
			}
			s := 0.0
			next := make([]float64, n)
			for i := range ex {
				next[i] = ref[i] * math.Exp(ex[i]-top)
				s += next[i]
			}
			for i := range ex {
				next[i] /= s
				if s > 1e-9 && math.Abs(next[i]-tg.Weights[i]) > 1e-6 {
					t.Fatalf("%s: weights became %v, want %v", what, tg.Weights, next)
				}
			}
			copy(ref, tg.Weights)
			useful = true
		}
		c.ClassIf(col.hasMissing(), "missing targets")
		if useful {
			c.NT(col.String(), rounds, fmt.Sprint(ref))
			c.Sample("%v after %d rounds weights %v", col, rounds, ref)
		}
	})
}

// boosted forests grown on data, perfectly separable ones included
func TestC15_BoostedForests(t *testing.T) {
	forall(t, "two or more trees", 2000, 16000, func(t *rapid.T, c *Case) {
		n := genSize(t, 4, 16, 80, 150)
		m := genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 4, missing: true, styles: allStyles, maxCats: 5})
		r := searchProblem(t, m.F[0], n, []string{"adaboost", "adacost", "numada"})
		m.F = append(m.F, r.col)
		ti := len(m.F) - 1
		fm := m.real()
		tg := r.wrap(fm.Data[ti])
		nt := genSize(t, 1, 6, 40)
		f := CF.GrowRandomForest(fm, tg, seq(ti), n, rapid.IntRange(1, ti).Draw(t, "mTry"), nt, rapid.IntRange(1, 2).Draw(t, "leaf"), rapid.IntRange(0, 3).Draw(t, "depth"), rapid.Bool().Draw(t, "sm"), false, false, false, nil)
		for i, tr := range f.Trees {
			if math.IsNaN(tr.Weight) || math.IsInf(tr.Weight, 0) || tr.Weight < 0 {
				t.Fatalf("%v in %v: tree %d has weight %v", r, m, i, tr.Weight)
			}
		}
		switch x := tg.(type) {
		case *CF.AdaBoostTarget:
			weightsOK(t, fmt.Sprintf("%v in %v", r, m), x.Weights)
		case *CF.AdaCostTarget:
			weightsOK(t, fmt.Sprintf("%v in %v", r, m), x.Weights)
		case *CF.NumAdaBoostTarget:
			weightsOK(t, fmt.Sprintf("%v in %v", r, m), x.Weights)
		}
		for i, x := range m.F {
			checkFeatureVals(t, x, fm.Data[i])
		}
		c.Class("%s", r.kind)
		if nt >= 2 {
			c.NT(r.String(), m.String(), nt)
			c.Sample("%v in %v: %d trees", r, m, nt)
		}
	})
}

// ---------------------------------------------------------------- C31

func forestText(f *CF.Forest) string {
	s := fmt.Sprintf("target %q intercept %v\n", f.Target, f.Intercept)
	for i, tr := range f.Trees {
		s += fmt.Sprintf("tree %d %q %v %v\n", i, tr.Target, tr.Weight, modelOf(tr.Root, "*"))
	}
	return s
}

func TestC31_SameSeedSameForest(t *testing.T) {
	forall(t, "the forest has three splits or more", 1500, 12000, func(t *rapid.T, c *Case) {
		g := genGrow(t, allKinds(), false)
		seed := int64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))
		nt := genSize(t, 1, 4, 20)
		vet, evaloob := rapid.IntRange(0, 3).Draw(t, "vet") == 0, false
		if _, ok := map[string]bool{"gini": true, "num": true}[g.r.kind]; !ok {
			vet = false
		}
		run := func() string {
			fm := g.m.real()
			tg := g.r.wrap(fm.Data[g.ti])
			imp := CF.NewRunningMeans(len(g.m.F))
			rand.Seed(seed)
			f := CF.GrowRandomForest(fm, tg, cp(g.cands), g.m.N, g.mTry, nt, g.leaf, g.depth, g.splitmissing, g.force, vet, evaloob, imp)
			s := forestText(f)
			for i, r := range *imp {
				a, b := r.Read()
				s += fmt.Sprintf("%d: %v %v\n", i, a, b)
			}
			cb := CF.NewCatBallotBox(g.m.N)
			nb := CF.NewNumBallotBox(g.m.N)
			for _, tr := range f.Trees {
				tr.Vote(fm, cb)
				tr.Vote(fm, nb)
			}
			for i := 0; i < g.m.N; i++ {
				s += cb.Tally(i) + " " + nb.Tally(i) + "\n"
			}
			return s
		}
		a := run()
		// other work in between
		for k := rapid.IntRange(0, 2).Draw(t, "other"); k > 0; k-- {
			h := genGrow(t, allKinds(), false)
			x := h.prepare()
			h.grow(x, nil)
		}
		b := run()
		if a != b {
			t.Fatalf("%v: same seed, yet\n%s\nand\n%s", g, a, b)
		}
		c.Class("%s", g.r.kind)
		c.ClassIf(vet, "vetted")
		if len(a) > 600 {
			c.NT(a)
			c.Sample("%v: %s", g, a)
		}
	})
}

func TestC31_SameTreeFromUsedScratch(t *testing.T) {
	forall(t, "the tree has two splits or more", 2500, 20000, func(t *rapid.T, c *Case) {
		g := genGrow(t, allKinds(), true)
		seed := int64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))
		x, y := g.prepare(), g.prepare()
		rand.Seed(seed)
		g.grow(x, nil)
		rand.Seed(seed)
		g.grow(y, nil)
		a, b := modelOf(x.tree.Root, "*"), modelOf(y.tree.Root, "*")
		if d := diffTrees(a, b); d != "" {
			t.Fatalf("%v: same seed, yet the trees differ, %s: %v and %v", g, d, a, b)
		}
		if fmt.Sprint(x.depth) != fmt.Sprint(y.depth) {
			t.Fatalf("%v: same seed, depths %v and %v", g, x.depth, y.depth)
		}
		for i := range x.imp {
			p, pn := x.imp[i].Read()
			q, qn := y.imp[i].Read()
			if p != q || pn != qn {
				t.Fatalf("%v: same seed, importance of %d is %v (%v) and %v (%v)", g, i, p, pn, q, qn)
			}
		}
		c.Class("%s", g.r.kind)
		if a.splits() >= 2 {
			c.NT(g.String(), a.String())
			c.Sample("%v: %v", g, a)
		}
	})
}

func TestC31_SameFileSameMatrix(t *testing.T) {
	forall(t, "two features or more", 2500, 20000, func(t *rapid.T, c *Case) {
		m := genMat(t, matOpts{minN: 1, maxN: 20, minF: 1, maxF: 6, missing: true, styles: allStyles, appear: true})
		text := m.afm()
		a, b := CF.ParseAFM(bytes.NewReader([]byte(text))), CF.ParseAFM(bytes.NewReader([]byte(text)))
		for i := range a.Data {
			switch x := a.Data[i].(type) {
			case *CF.DenseNumFeature:
				if y, ok := b.Data[i].(*CF.DenseNumFeature); !ok || fmt.Sprintf("%v", *x) != fmt.Sprintf("%v", *y) {
					t.Fatalf("two readings differ: %v and %v", x, b.Data[i])
				}
			case *CF.DenseCatFeature:
				y, ok := b.Data[i].(*CF.DenseCatFeature)
				if !ok || fmt.Sprintf("%q %v %v", x.Back, x.CatData, x.Missing) != fmt.Sprintf("%q %v %v", y.Back, y.CatData, y.Missing) {
					t.Fatalf("two readings differ: %v and %v", x, b.Data[i])
				}
			}
		}
		if len(m.F) > 1 {
			c.NT(text)
			c.Sample("%s", text)
		}
	})
}

// checkDepth compares a recorded minimal depth with the shallowest split.
func checkDepth(t *rapid.T, what, name string, got, want int, used bool) {
	if used && got != want {
		t.Fatalf("%s: minimal depth of %s recorded as %d, shallowest split at %d", what, name, got, want)
	}
	if !used && got > 0 {
		t.Fatalf("%s: %s is not used, yet has depth %d", what, name, got)
	}
}

func unused(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = -1
	}
	return out
}
