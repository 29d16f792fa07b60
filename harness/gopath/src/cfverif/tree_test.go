package cfverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	CF "github.com/ryanbressler/CloudForest"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- reference model of trees

type mnode struct {
	r       *rule // nil: leaf
	l, g, m *mnode
	pred    string
	path    string
}

type mtree struct {
	root   *mnode
	target string
	weight float64
}

func (n *mnode) leaf() bool { return n.r == nil }

func (n *mnode) walk(f func(n *mnode, depth int)) { n.walkd(f, 0) }

func (n *mnode) walkd(f func(n *mnode, depth int), d int) {
	f(n, d)
	for _, c := range []*mnode{n.l, n.g, n.m} {
		if c != nil {
			c.walkd(f, d+1)
		}
	}
}

func (n *mnode) String() string {
	var sb strings.Builder
	n.walk(func(x *mnode, d int) {
		if x.leaf() {
			fmt.Fprintf(&sb, "%s:%q ", x.path, x.pred)
		} else {
			fmt.Fprintf(&sb, "%s:%v ", x.path, x.r)
		}
	})
	return sb.String()
}

func (n *mnode) splits() (k int) {
	n.walk(func(x *mnode, d int) {
		if !x.leaf() {
			k++
		}
	})
	return
}

// route follows a case of m from the root; the path of nodes; last is nil when dropped.
func (n *mnode) route(m *mmat, i int) (path []*mnode, leaf *mnode) {
	for {
		path = append(path, n)
		if n.leaf() {
			return path, n
		}
		side := 2 // a feature the data do not have is missing for every case
		if f := m.feat(n.r.f.Name); f != nil {
			side = n.r.side(f, i)
		}
		switch side {
		case 0:
			n = n.l
		case 1:
			n = n.g
		default:
			if n.m == nil {
				return path, nil
			}
			n = n.m
		}
	}
}

// real builds the CloudForest node (splits by name only).
func (n *mnode) real(fm *mmat) *CF.Node {
	r := &CF.Node{Pred: n.pred}
	if n.leaf() {
		return r
	}
	r.Splitter = n.r.splitter()
	for i, f := range fm.F {
		if f.Name == n.r.f.Name {
			r.Featurei = i
		}
	}
	r.Left, r.Right = n.l.real(fm), n.g.real(fm)
	if n.m != nil {
		r.Missing = n.m.real(fm)
	}
	return r
}

func (t *mtree) real(fm *mmat) *CF.Tree {
	return &CF.Tree{Root: t.root.real(fm), Target: t.target, Weight: t.weight}
}

// modelOf reads a CloudForest tree back into a model, by its decoded splitters.
func modelOf(n *CF.Node, path string) *mnode {
	return modelOfMemo(n, path, map[*CF.Node]*mnode{})
}

// modelOfMemo keeps shared branches (of jungles) shared.
func modelOfMemo(n *CF.Node, path string, memo map[*CF.Node]*mnode) *mnode {
	if x, ok := memo[n]; ok {
		return x
	}
	x := &mnode{pred: n.Pred, path: path}
	memo[n] = x
	if n.Left == nil && n.Right == nil {
		return x
	}
	if n.Splitter == nil || n.Left == nil || n.Right == nil {
		x.r = &rule{f: &mfeat{Name: "?BROKEN"}}
		return x
	}
	x.r = &rule{f: &mfeat{Name: n.Splitter.Feature, Num: n.Splitter.Numerical}, val: n.Splitter.Value, left: map[string]bool{}}
	for k, v := range n.Splitter.Left {
		if v {
			x.r.left[k] = true
		}
	}
	x.l, x.g = modelOfMemo(n.Left, path+"L", memo), modelOfMemo(n.Right, path+"R", memo)
	if n.Missing != nil {
		x.m = modelOfMemo(n.Missing, path+"M", memo)
	}
	return x
}

// diffTrees says where two models differ ("" if nowhere).
func diffTrees(a, b *mnode) string {
	if (a == nil) != (b == nil) {
		return "a branch is missing"
	}
	if a == nil {
		return ""
	}
	if a.leaf() != b.leaf() {
		return a.path + ": leaf or not"
	}
	if a.leaf() {
		if a.pred != b.pred {
			return fmt.Sprintf("%s: prediction %q or %q", a.path, a.pred, b.pred)
		}
		return ""
	}
	if a.r.f.Name != b.r.f.Name || a.r.f.Num != b.r.f.Num || (a.r.f.Num && a.r.val != b.r.val) {
		return fmt.Sprintf("%s: split %v or %v", a.path, a.r, b.r)
	}
	if a.pred != b.pred {
		return fmt.Sprintf("%s: prediction of a split %q or %q", a.path, a.pred, b.pred)
	}
	if !a.r.f.Num {
		x, y := []string{}, []string{}
		for k := range a.r.left {
			x = append(x, k)
		}
		for k := range b.r.left {
			y = append(y, k)
		}
		sort.Strings(x)
		sort.Strings(y)
		if fmt.Sprintf("%q", x) != fmt.Sprintf("%q", y) {
			return fmt.Sprintf("%s: left %q or %q", a.path, x, y)
		}
	}
	for _, p := range [][2]*mnode{{a.l, b.l}, {a.g, b.g}, {a.m, b.m}} {
		if d := diffTrees(p[0], p[1]); d != "" {
			return d
		}
	}
	return ""
}

type treeOpts struct {
	maxDepth int
	missing  bool
	numOnly  bool
	pred     func(t *rapid.T) string
	splits   int // at most
}

// genTree draws a tree that splits on the features of m.
func genTree(t *rapid.T, m *mmat, o treeOpts) *mnode {
	left := o.splits
	if left == 0 {
		left = 40
	}
	var feats []*mfeat
	for _, f := range m.F {
		if f.Num || (!o.numOnly && len(f.Cats) > 0) {
			feats = append(feats, f)
		}
	}
	var rec func(depth int, path string) *mnode
	rec = func(depth int, path string) *mnode {
		n := &mnode{path: path}
		if depth >= o.maxDepth || left <= 0 || len(feats) == 0 || rapid.IntRange(0, 9).Draw(t, "leaf") < 2 {
			n.pred = o.pred(t)
			return n
		}
		left--
		f := feats[rapid.IntRange(0, len(feats)-1).Draw(t, "sf")]
		_, n.r = genSplit(t, f)
		if !f.Num && len(n.r.left) == 0 {
			n.r.left[f.Cats[0]] = true
		}
		n.l = rec(depth+1, path+"L")
		n.g = rec(depth+1, path+"R")
		if o.missing && rapid.Bool().Draw(t, "mbranch") {
			n.m = rec(depth+1, path+"M")
		}
		return n
	}
	return rec(0, "*")
}

func numPred(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "pk") {
	case 0:
		return strconv.Itoa(rapid.IntRange(-3, 3).Draw(t, "pi"))
	case 2: // small units
		return fmt.Sprintf("%v", float64(rapid.IntRange(-5000, 5000).Draw(t, "pf"))*1e-12)
	case 3: // all the digits there are
		return fmt.Sprintf("%v", float64(rapid.IntRange(-1<<30, 1<<30).Draw(t, "pd"))/7)
	case 1:
		return fmt.Sprintf("%v", float64(rapid.IntRange(-5000, 5000).Draw(t, "pf"))/1000)
	}
	return fmt.Sprintf("%v", float64(rapid.IntRange(-1000, 1000).Draw(t, "pe"))/16)
}

func catPred(labels []string) func(t *rapid.T) string {
	return func(t *rapid.T) string { return rapid.SampledFrom(labels).Draw(t, "pc") }
}

// ---------------------------------------------------------------- C30

func TestC30_SameStructure(t *testing.T) {
	forall(t, "the tree has at least three splits", 20000, 150000, func(t *rapid.T, c *Case) {
		cats := rapid.IntRange(0, 3).Draw(t, "cats") == 0 // arrays have no thresholds for categories but the same shape
		m := genMat(t, matOpts{minN: 1, maxN: 12, large: []int{100, 300}, minF: 1, maxF: 6, numOnly: !cats, styles: allStyles, maxCats: 5})
		// shapes: bushy, chains to either side, arbitrary
		shape := rapid.IntRange(0, 3).Draw(t, "shape")
		depth := rapid.IntRange(0, 7).Draw(t, "depth")
		var root *mnode
		onlyNum := true
		if shape == 0 || shape == 3 {
			root = genTree(t, m, treeOpts{maxDepth: depth, numOnly: !cats, pred: numPred, splits: 60})
		} else {
			root = &mnode{path: "*", pred: "0"}
			at := root
			for i := 0; i < depth; i++ {
				f := m.F[rapid.IntRange(0, len(m.F)-1).Draw(t, "cf")]
				_, at.r = genSplit(t, f)
				onlyNum = onlyNum && f.Num
				at.l, at.g = &mnode{path: at.path + "L", pred: "1"}, &mnode{path: at.path + "R", pred: "2"}
				if shape == 1 {
					at = at.l
				} else {
					at = at.g
				}
			}
		}
		real := root.real(m)
		sk := CF.NewScikitTree(len(m.F))
		CF.BuildScikitTree(0, real, sk)
		nodes, maxd := 0, 0
		root.walk(func(n *mnode, d int) {
			nodes++
			if d > maxd {
				maxd = d
			}
		})
		if sk.NodeCount != nodes || len(sk.Nodes) != nodes || sk.Capacity != nodes || sk.MaxDepth != maxd || sk.NFeatures != len(m.F) {
			t.Fatalf("%v: %d nodes, depth %d, %d features; exported count %d nodes %d capacity %d depth %d features %d",
				root, nodes, maxd, len(m.F), sk.NodeCount, len(sk.Nodes), sk.Capacity, sk.MaxDepth, sk.NFeatures)
		}
		seen := map[int]bool{}
		end := map[*mnode]int{}
		var rec func(n *mnode, pos int)
		rec = func(n *mnode, pos int) {
			if pos < 0 || pos >= nodes || seen[pos] {
				t.Fatalf("%v: node %s is at position %d of %d (already used: %v) in %+v", root, n.path, pos, nodes, seen[pos], sk.Nodes)
			}
			seen[pos] = true
			x := sk.Nodes[pos]
			if n.leaf() {
				if x.LeftChild != -1 || x.RightChild != -1 {
					t.Fatalf("%v: leaf %s exported as %+v", root, n.path, x)
				}
				end[n] = pos
				return
			}
			if m.F[x.Feature].Name != n.r.f.Name || (n.r.f.Num && x.Threshold != n.r.val) {
				t.Fatalf("%v: node %s exported as %+v", root, n.path, x)
			}
			onlyNum = onlyNum && n.r.f.Num
			if x.LeftChild <= pos || x.RightChild <= pos {
				t.Fatalf("%v: node %s at %d has children %d %d before it", root, n.path, pos, x.LeftChild, x.RightChild)
			}
			rec(n.l, x.LeftChild)
			rec(n.g, x.RightChild)
		}
		rec(root, 0)
		// routing by the arrays
		for i := 0; i < m.N && onlyNum; i++ {
			_, want := root.route(m, i)
			pos := 0
			for steps := 0; sk.Nodes[pos].LeftChild != -1; steps++ {
				if steps > nodes {
					t.Fatalf("%v: case %d of %v goes round in circles in %+v", root, i, m, sk.Nodes)
				}
				if m.F[sk.Nodes[pos].Feature].V[i] <= sk.Nodes[pos].Threshold {
					pos = sk.Nodes[pos].LeftChild
				} else {
					pos = sk.Nodes[pos].RightChild
				}
			}
			if end[want] != pos {
				t.Fatalf("%v: case %d of %v ends in position %d, want %d", root, i, m, pos, end[want])
			}
		}
		c.Class("shape %d", shape)
		c.ClassIf(!onlyNum, "categorical splits")
		if root.splits() >= 3 {
			c.NT(root.String())
			c.Sample("%v -> %+v", root, sk.Nodes)
		}
	})
}

// grown trees export as well
func TestC30_GrownTrees(t *testing.T) {
	forall(t, "the grown tree has at least two splits", 4000, 30000, func(t *rapid.T, c *Case) {
		n := genSize(t, 4, 20, 80, 150)
		m := genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 5, numOnly: true, styles: allStyles})
		tgt := genNumFeatStyle(t, "N:target", n, false, rapid.SampledFrom([]string{"few", "grid", "float"}).Draw(t, "ts"))
		m.F = append(m.F, tgt)
		fm := m.real()
		ti := len(m.F) - 1
		tr := CF.NewTree()
		cands := seq(ti)
		tg := fm.Data[ti].(*CF.DenseNumFeature)
		tr.Grow(fm, tg, seq(n), cands, nil, rapid.IntRange(1, ti).Draw(t, "mTry"), 1, rapid.IntRange(0, 5).Draw(t, "maxDepth"),
			false, false, false, false, false, nil, nil, CF.NewBestSplitAllocs(n, tg))
		sk := CF.NewScikitTree(ti)
		CF.BuildScikitTree(0, tr.Root, sk)
		leaves := map[int][]int{}
		for i := 0; i < n; i++ {
			pos := 0
			for steps := 0; sk.Nodes[pos].LeftChild != -1; steps++ {
				x := sk.Nodes[pos]
				if steps > len(sk.Nodes) || min(x.LeftChild, x.RightChild) < 0 || max(x.LeftChild, x.RightChild) >= len(sk.Nodes) || x.Feature >= ti {
					t.Fatalf("case %d of %v is lost at position %d of %+v", i, m, pos, sk.Nodes)
				}
				if m.F[x.Feature].V[i] <= x.Threshold {
					pos = x.LeftChild
				} else {
					pos = x.RightChild
				}
			}
			leaves[pos] = append(leaves[pos], i)
		}
		var want [][]int
		for _, l := range tr.GetLeaves(fm, nil) {
			want = append(want, l.Cases)
		}
		got := 0
		for _, l := range leaves {
			for _, w := range want {
				if sameMultiset(l, w) {
					got++
				}
			}
		}
		if got != len(want) || len(leaves) != len(want) {
			t.Fatalf("leaves by the exported arrays %v, by the tree %v; %+v in %v", leaves, want, sk.Nodes, m)
		}
		if len(want) >= 3 {
			c.NT(m.String(), len(want))
			c.Sample("%v leaves %v", m, leaves)
		}
	})
}

// the growing tool exports the trees it writes
func TestC30_WrittenTrees(t *testing.T) {
	forall(t, "at least two trees have at least two splits", 250, 3000, func(t *rapid.T, c *Case) {
		n := rapid.IntRange(4, 20).Draw(t, "n")
		g := &growArgs{m: genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 5, numOnly: true, styles: bigStyles, missing: rapid.Bool().Draw(t, "missing")})}
		g.r = genTarget(t, n, []string{"gini", "entropy", "num", "num", "l1", "adaboost", "gradboost"})
		g.m.F = append(g.m.F, g.r.col)
		g.m = g.m.asParsed()
		g.ti = len(g.m.F) - 1
		g.r.col = g.m.F[g.ti]
		p := rapid.Permutation(seq(g.ti)).Draw(t, "cands")
		g.cands = append([]int(nil), p[:rapid.IntRange(1, g.ti).Draw(t, "ncand")]...)
		g.leaf, g.depth = rapid.IntRange(1, 2).Draw(t, "leaf"), rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "depth")
		g.splitmissing = rapid.IntRange(0, 3).Draw(t, "splitmissing") == 0
		dir, done := scratchDir()
		defer done()
		more := append(append(g.targetFlags(), g.modeFlags()...), "-scikitforest", "scikit.json")
		if !boosting(g.r.kind) {
			more = append(more, "-nCores", rapid.SampledFrom([]string{"1", "1", "2", "4"}).Draw(t, "cores"))
		}
		if rapid.Bool().Draw(t, "nobag") {
			more = append(more, "-nobag")
		}
		args, k, _, _ := genACE(t, dir, g, more...)
		ace := !boosting(g.r.kind) && rapid.IntRange(0, 2).Draw(t, "contrasts") == 0
		if ace {
			args = append(args, "-ace", strconv.Itoa(k))
			if rapid.Bool().Draw(t, "last") {
				args = append(args, "-cutoff", "0.6")
			}
		}
		what := fmt.Sprintf("growforest %q on %v", args, g.m)
		mustRun(t, dir, "growforest", args...)
		sf := loadSF(t, dir, "f.sf", what)
		text, _ := readFile(filepath.Join(dir, "scikit.json"))
		var sks []CF.ScikitTree
		if err := json.Unmarshal([]byte(text), &sks); err != nil {
			t.Fatalf("%s: %v in %s", what, err, text)
		}
		if len(sks) != len(sf.trees) {
			t.Fatalf("%s: %d trees written and %d exported", what, len(sf.trees), len(sks))
		}
		name := func(i int) string {
			switch {
			case i < 0 || i >= 2*len(g.m.F):
				return "?"
			case i >= len(g.m.F):
				return g.m.F[i-len(g.m.F)].Name + ":SHUFFLED"
			}
			return g.m.F[i].Name
		}
		bushy := 0
		for i, tr := range sf.trees {
			sk := sks[i]
			nodes, maxd := 0, 0
			var rec func(n *mnode, pos, d int)
			rec = func(n *mnode, pos, d int) {
				nodes++
				maxd = max(maxd, d)
				if pos < 0 || pos >= len(sk.Nodes) {
					t.Fatalf("%s: tree %d %v has no position %d in %+v", what, i, tr.root, pos, sk)
				}
				x := sk.Nodes[pos]
				if n.leaf() {
					if x.LeftChild != -1 || x.RightChild != -1 {
						t.Fatalf("%s: leaf %s of tree %d %v exported as %+v", what, n.path, i, tr.root, x)
					}
					return
				}
				if name(x.Feature) != n.r.f.Name || x.Threshold != n.r.val || x.LeftChild <= pos || x.RightChild <= pos {
					t.Fatalf("%s: node %s of tree %d %v exported as %+v", what, n.path, i, tr.root, x)
				}
				rec(n.l, x.LeftChild, d+1)
				rec(n.g, x.RightChild, d+1)
			}
			rec(tr.root, 0, 0)
			if nodes != sk.NodeCount || nodes != len(sk.Nodes) || maxd != sk.MaxDepth || sk.NFeatures != len(g.cands) {
				t.Fatalf("%s: tree %d %v with %d nodes and depth %d over %d features exported as %+v", what, i, tr.root, nodes, maxd, len(g.cands), sk)
			}
			if tr.root.splits() > 1 {
				bushy++
			}
		}
		c.ClassIf(ace, "with contrasts")
		c.Class("target %s", g.r.kind)
		if bushy > 1 {
			c.NT(fmt.Sprint(args), g.m.String())
			c.Sample("%v on %v", args, g.m)
		}
	})
}

// ---------------------------------------------------------------- C34

func TestC34_SpanAndDensity(t *testing.T) {
	forall(t, "at least two features have a span above one and some cases repeat or lack values", 12000, 100000, func(t *rapid.T, c *Case) {
		m := genMat(t, matOpts{minN: 2, maxN: 20, large: []int{90, 200}, minF: 1, maxF: 5, missing: true, styles: append([]string{"micro", "nano", "pico"}, bigStyles...), maxCats: 9})
		fm := m.real()
		bag := genCases(t, m.N, 1, 25, true)
		many := 0
		for i, f := range m.F {
			counter := make([]int, len(f.Cats)+3)
			var got float64
			if f.Num {
				got = fm.Data[i].Span(&bag, nil)
			} else {
				got = fm.Data[i].Span(&bag, &counter)
			}
			want := spanOf(f, bag)
			if !close2(got/math.Max(want, 1e-300), want/math.Max(want, 1e-300), 1e-12) {
				t.Fatalf("span of %v over %v is %v, want %v", f, bag, got, want)
			}
			if want > 1 {
				many++
			}
		}
		N := rapid.IntRange(1, 40).Draw(t, "N")
		fs := fm.Data
		dt := &CF.DensityTarget{Features: &fs, N: N}
		prod := func(cases []int) float64 {
			p := 1.0
			for _, f := range m.F {
				p *= spanOf(f, cases)
			}
			return p
		}
		imp := func(cases []int) float64 {
			x := float64(len(cases)) / float64(N)
			return x * x / prod(cases)
		}
		if p := prod(bag); p > 0 {
			want := imp(bag)
			if got := dt.Impurity(&bag, nil); !close2(got/want, 1, 1e-9) {
				t.Fatalf("impurity of %v in %v with %d cases in all is %v, want %v", bag, m, N, got, want)
			}
			d, err := strconv.ParseFloat(dt.FindPredicted(cp(bag)), 64)
			w := float64(len(bag)) / float64(N) / p
			if err != nil || !close2(d/w, 1, 1e-9) {
				t.Fatalf("density of %v in %v with %d cases in all is %v (%v), want %v", bag, m, N, d, err, w)
			}
		} else {
			c.Class("zero span")
		}
		if len(bag) >= 2 {
			l, r, mm := split3(t, bag)
			ok := prod(l) > 0 && prod(r) > 0 && (len(mm) == 0 || prod(mm) > 0)
			if ok {
				w := float64(len(l))*imp(l) + float64(len(r))*imp(r)
				if len(mm) > 0 {
					w += float64(len(mm)) * imp(mm)
				}
				w /= float64(len(bag))
				allocs := CF.NewBestSplitAllocs(30+2*m.N, dt)
				got := dt.SplitImpurity(&l, &r, &mm, allocs)
				moved := []int{}
				got2 := dt.UpdateSImpFromAllocs(&l, &r, &mm, allocs, &moved)
				if !close2(got/w, 1, 1e-9) || !close2(got2/w, 1, 1e-9) {
					t.Fatalf("split %v | %v | %v of %v is valued %v, %v, want %v", l, r, mm, m, got, got2, w)
				}
				c.Class("split valued")
			}
		}
		checkFM(t, m, fm, true, false)
		if many >= 2 {
			c.NT(m.String(), bag)
			c.Sample("density of %v over %v: %v", bag, m, dt.FindPredicted(cp(bag)))
		}
	})
}

// growing unsupervised forests works, describes the cases and leaves the data alone
func TestC34_UnsupervisedForest(t *testing.T) {
	forall(t, "some tree has a split", 1500, 12000, func(t *rapid.T, c *Case) {
		n := genSize(t, 4, 20, 80)
		m := genMat(t, matOpts{minN: n, maxN: n, minF: 2, maxF: 4, missing: true, maxCats: 5, styles: []string{"grid", "float", "wide", "few"}})
		fm := m.real()
		fs := fm.Data
		dt := &CF.DensityTarget{Features: &fs, N: n}
		mTry := rapid.IntRange(1, len(m.F)).Draw(t, "mTry")
		leaf := rapid.IntRange(1, 3).Draw(t, "leaf")
		f := CF.GrowRandomForest(fm, dt, seq(len(m.F)), n, mTry, 2, leaf, rapid.IntRange(0, 4).Draw(t, "depth"), rapid.Bool().Draw(t, "splitmissing"), false, false, false, nil)
		checkFM(t, m, fm, true, false)
		if len(f.Trees) != 2 {
			t.Fatalf("%d trees, want 2", len(f.Trees))
		}
		splits := 0
		for _, tr := range f.Trees {
			root := modelOf(tr.Root, "*")
			splits += root.splits()
			root.walk(func(x *mnode, d int) {
				if x.leaf() {
					v, err := strconv.ParseFloat(x.pred, 64)
					if err != nil || v < 0 {
						t.Fatalf("leaf %s of %v has density %q", x.path, root, x.pred)
					}
				} else if x.r.f.Name == "?BROKEN" || m.feat(x.r.f.Name) == nil {
					t.Fatalf("broken node %s of %v", x.path, root)
				}
			})
		}
		if splits > 0 {
			c.NT(m.String(), mTry, leaf, splits)
			c.Sample("%v: %v", m, modelOf(f.Trees[0].Root, "*"))
		}
	})
}

// transduction targets: supervised part plus alpha times the density term, labels decide the prediction
func TestC34_Transduction(t *testing.T) {
	forall(t, "the density term counts", 10000, 80000, func(t *rapid.T, c *Case) {
		n := genSize(t, 2, 16, 90, 200)
		r := genTarget(t, n, []string{"trans"})
		fs := []CF.Feature{}
		for _, o := range r.others {
			fs = append(fs, o.real())
		}
		col := r.col.real()
		tt := CF.NewTransTarget(col.(CF.CatFeature), &fs, r.unlab, r.alpha, r.beta, n)
		bag := genCases(t, n, 2, 20, true)
		allocs := CF.NewBestSplitAllocs(30+2*n, tt)
		if got, want := tt.Density(&bag, allocs.Counter), r.transDensity(bag); !close2(got/want, 1, 1e-9) {
			t.Fatalf("%v: density term of %v is %v, want %v (features %v)", r, bag, got, want, r.others)
		}
		l, rr, mm := split3(t, bag)
		got := tt.SplitImpurity(&l, &rr, &mm, allocs)
		want := r.split(l, rr, mm)
		if !close2(got, want, 1e-9) {
			t.Fatalf("%v: split %v|%v|%v valued %v, want %v (features %v)", r, l, rr, mm, got, want, r.others)
		}
		if err := r.okPred(bag, tt.FindPredicted(cp(bag))); err != nil {
			t.Fatalf("%v: %v: %v", r, bag, err)
		}
		checkFeatureVals(t, r.col, col)
		for i, o := range r.others {
			checkFeatureVals(t, o, fs[i])
		}
		if r.alpha > 0 {
			c.NT(r.String(), fmt.Sprint(r.others), bag)
			c.Sample("%v others %v: split %v|%v|%v = %v", r, r.others, l, rr, mm, got)
		}
	})
}

// ---------------------------------------------------------------- C04

// sfName draws a feature or label name with awkward punctuation.
func sfName(t *rapid.T, what string) string {
	s := rapid.StringMatching(`[A-Za-z0-9_.,=/ ()<>'%&;+*!éß漢-]{1,10}`).Draw(t, what)
	return s
}

func sfFloat(t *rapid.T, what string) float64 {
	switch rapid.IntRange(0, 6).Draw(t, what+"k") {
	case 0:
		return float64(rapid.IntRange(-3, 3).Draw(t, what))
	case 1:
		return rapid.Float64().Draw(t, what)
	case 2:
		return math.Ldexp(float64(rapid.IntRange(-1000, 1000).Draw(t, what)), rapid.IntRange(-300, 300).Draw(t, what+"e"))
	case 3:
		return math.SmallestNonzeroFloat64
	case 4:
		return -math.MaxFloat64
	}
	return float64(rapid.IntRange(-100000, 100000).Draw(t, what)) / 1000
}

// genSfForest draws features (the vocabulary) and trees over them.
func genSfForest(t *rapid.T, maxTrees int) (m *mmat, trees []*mtree, target string) {
	m = &mmat{N: rapid.IntRange(1, 8).Draw(t, "n")}
	maxCats, depth, splits := 6, 5, 15
	if rapid.IntRange(0, 39).Draw(t, "large") == 39 {
		maxCats, depth, splits, maxTrees = rapid.SampledFrom([]int{6, 40, 150}).Draw(t, "maxCats"), 9, 120, rapid.SampledFrom([]int{4, 4, 60}).Draw(t, "maxTrees")
	}
	used := map[string]bool{}
	k := rapid.IntRange(1, 5).Draw(t, "nf")
	for j := 0; j < k; j++ {
		num := rapid.Bool().Draw(t, "isnum")
		p := "C:"
		if num {
			p = "N:"
		}
		name := p + sfName(t, "fname")
		if used[name] {
			name += fmt.Sprint(j)
		}
		used[name] = true
		var f *mfeat
		if num {
			f = genNumFeat(t, name, m.N, true)
		} else {
			f = genCatFeat(t, name, m.N, true, rapid.IntRange(1, maxCats).Draw(t, "nc"), false)
			seen := map[string]bool{}
			for i := range f.Cats {
				f.Cats[i] = sfName(t, "label")
				if seen[f.Cats[i]] {
					f.Cats[i] += fmt.Sprint(i)
				}
				for seen[f.Cats[i]] {
					f.Cats[i] += "_"
				}
				seen[f.Cats[i]] = true
			}
		}
		m.F = append(m.F, f)
	}
	target = "N:" + sfName(t, "target")
	nt := rapid.IntRange(1, maxTrees).Draw(t, "ntrees")
	for i := 0; i < nt; i++ {
		tr := &mtree{target: target, weight: -1}
		if rapid.IntRange(0, 2).Draw(t, "hasweight") == 0 {
			tr.weight = math.Abs(sfFloat(t, "weight"))
		}
		pred := numPred
		if rapid.Bool().Draw(t, "catpred") {
			pred = func(t *rapid.T) string { return sfName(t, "pred") }
		}
		tr.root = genTree(t, m, treeOpts{maxDepth: rapid.IntRange(0, depth).Draw(t, "depth"), missing: true, pred: pred, splits: splits})
		tr.root.walk(func(n *mnode, d int) {
			if !n.leaf() {
				if n.r.f.Num {
					n.r.val = sfFloat(t, "thr")
				} else if rapid.IntRange(0, 4).Draw(t, "splitpred") == 0 {
					n.pred = sfName(t, "ipred") // other tools write predictions on inner nodes too
				}
			}
		})
		trees = append(trees, tr)
	}
	return
}

func checkSameTrees(t *rapid.T, what string, trees []*mtree, got []*CF.Tree, m *mmat) {
	if len(got) != len(trees) {
		t.Fatalf("%s: read %d trees, wrote %d", what, len(got), len(trees))
	}
	fm := m.real()
	for i, tr := range trees {
		g := got[i]
		if g.Target != tr.target {
			t.Fatalf("%s: tree %d has target %q, wrote %q", what, i, g.Target, tr.target)
		}
		if g.Weight != tr.weight {
			t.Fatalf("%s: tree %d has weight %v, wrote %v", what, i, g.Weight, tr.weight)
		}
		if d := diffTrees(tr.root, modelOf(g.Root, "*")); d != "" {
			t.Fatalf("%s: tree %d differs, %s", what, i, d)
		}
		leaves := g.GetLeaves(fm, nil)
		want := map[*mnode][]int{}
		dropped := 0
		for c := 0; c < m.N; c++ {
			_, l := tr.root.route(m, c)
			if l == nil {
				dropped++
				continue
			}
			want[l] = append(want[l], c)
		}
		total := 0
		for _, l := range leaves {
			if len(l.Cases) == 0 {
				continue
			}
			total += len(l.Cases)
			ok := false
			for n, w := range want {
				ok = ok || (n.pred == l.Pred && sameMultiset(w, l.Cases))
			}
			if !ok {
				t.Fatalf("%s: tree %d (%v) puts %v of %v into a leaf predicting %q, want %v", what, i, tr.root, l.Cases, m, l.Pred, want)
			}
		}
		if total+dropped != m.N {
			t.Fatalf("%s: tree %d has %d of %d cases (%d dropped)", what, i, total, m.N, dropped)
		}
	}
}

func sfNontrivial(c *Case, trees []*mtree, text string) {
	splits := 0
	for _, tr := range trees {
		splits += tr.root.splits()
		tr.root.walk(func(n *mnode, d int) {
			c.ClassIf(n.m != nil, "missing branch")
			if !n.leaf() {
				c.ClassIf(!n.r.f.Num, "categorical split")
				c.ClassIf(strings.ContainsAny(n.r.f.Name, ",="), "awkward feature name")
			} else {
				c.ClassIf(strings.ContainsAny(n.pred, ",="), "awkward prediction")
				c.ClassIf(strings.TrimSpace(n.pred) != n.pred, "prediction with space at an end")
			}
		})
		c.ClassIf(tr.weight >= 0, "weighted")
	}
	if splits > 0 {
		c.NT(text)
		c.Sample("%s", text)
	}
}

func TestC04_ForestRoundTrip(t *testing.T) {
	forall(t, "the forest has a split", 6000, 50000, func(t *rapid.T, c *Case) {
		m, trees, target := genSfForest(t, 4)
		f := &CF.Forest{Target: target}
		if rapid.Bool().Draw(t, "intercept") {
			f.Intercept = sfFloat(t, "icpt")
		}
		for _, tr := range trees {
			f.Trees = append(f.Trees, tr.real(m))
		}
		var b bytes.Buffer
		CF.NewForestWriter(&b).WriteForest(f)
		text := b.String()
		if rapid.Bool().Draw(t, "noeol") {
			text = strings.TrimSuffix(text, "\n")
		}
		g, err := CF.NewForestReader(strings.NewReader(text)).ReadForest()
		if err != nil || g == nil {
			t.Fatalf("cannot read back %q: %v", text, err)
		}
		if g.Target != target || g.Intercept != f.Intercept {
			t.Fatalf("read target %q intercept %v, wrote %q %v: %q", g.Target, g.Intercept, target, f.Intercept, text)
		}
		checkSameTrees(t, text, trees, g.Trees, m)
		// the forest written was not changed by writing, and a second generation is the same
		var b2 bytes.Buffer
		CF.NewForestWriter(&b2).WriteForest(g)
		g2, err := CF.NewForestReader(bytes.NewReader(b2.Bytes())).ReadForest()
		if err != nil {
			t.Fatalf("second reading of %q: %v", b2.String(), err)
		}
		checkSameTrees(t, "second generation", trees, g2.Trees, m)
		c.ClassIf(f.Intercept != 0, "intercept")
		sfNontrivial(c, trees, text)
	})
}

// several forests with headers on one stream; trees one by one
func TestC04_Streams(t *testing.T) {
	forall(t, "more than one forest and a split", 3000, 25000, func(t *rapid.T, c *Case) {
		nf := rapid.IntRange(1, 4).Draw(t, "forests")
		var b bytes.Buffer
		w := CF.NewForestWriter(&b)
		var ms []*mmat
		var ts [][]*mtree
		var targets []string
		var icpts []float64
		var all []*mtree
		for i := 0; i < nf; i++ {
			m, trees, target := genSfForest(t, 3)
			ms, ts, targets = append(ms, m), append(ts, trees), append(targets, target)
			ic := 0.0
			if rapid.Bool().Draw(t, "intercept") {
				ic = sfFloat(t, "icpt")
			}
			icpts = append(icpts, ic)
			w.WriteForestHeader(i, target, ic)
			for j, tr := range trees {
				w.WriteTree(tr.real(m), j)
				all = append(all, tr)
			}
		}
		text := b.String()
		r := CF.NewForestReader(strings.NewReader(text))
		for i := 0; i < nf; i++ {
			g, err := r.ReadForest()
			if err != nil || g == nil {
				t.Fatalf("forest %d of %q: %v", i, text, err)
			}
			if g.Target != targets[i] || g.Intercept != icpts[i] {
				t.Fatalf("forest %d has target %q intercept %v, wrote %q %v in %q", i, g.Target, g.Intercept, targets[i], icpts[i], text)
			}
			checkSameTrees(t, fmt.Sprintf("forest %d of %q", i, text), ts[i], g.Trees, ms[i])
		}
		if g, err := r.ReadForest(); err == nil {
			t.Fatalf("an extra forest %v after the end of %q", g, text)
		}
		r = CF.NewForestReader(strings.NewReader(text))
		k, heads := 0, 0
		for {
			tr, f, err := r.ReadTree()
			if f != nil {
				if f.Target != targets[heads] || f.Intercept != icpts[heads] {
					t.Fatalf("tree reader: forest %d is %q %v in %q", heads, f.Target, f.Intercept, text)
				}
				heads++
			}
			if tr != nil {
				if k >= len(all) {
					t.Fatalf("tree reader: extra tree in %q", text)
				}
				if d := diffTrees(all[k].root, modelOf(tr.Root, "*")); d != "" || tr.Weight != all[k].weight {
					t.Fatalf("tree reader: tree %d differs, %s (weight %v)", k, d, tr.Weight)
				}
				k++
			}
			if err != nil {
				break
			}
		}
		if k != len(all) || heads != nf {
			t.Fatalf("tree reader: %d trees and %d forests, wrote %d and %d: %q", k, heads, len(all), nf, text)
		}
		if nf > 1 {
			sfNontrivial(c, all, text)
		}
	})
}

// files in the documented format with the extra fields other programs write
func TestC04_DocumentedFormat(t *testing.T) {
	forall(t, "the forest has a split", 3000, 25000, func(t *rapid.T, c *Case) {
		m, trees, target := genSfForest(t, 3)
		var sb strings.Builder
		q := func(s string) string { return "\"" + s + "\"" }
		if rapid.Bool().Draw(t, "header") {
			fmt.Fprintf(&sb, "FOREST=RF,TARGET=%s,NTREES=%d,CATEGORIES=\"\",SHRINKAGE=0\n", q(target), len(trees))
		}
		// nodes come from the root down but not always depth first, fields in any order
		order := rapid.SampledFrom([]string{"depth first", "depth first", "breadth first", "any"}).Draw(t, "order")
		mixed := rapid.Bool().Draw(t, "fieldOrder")
		sep := rapid.SampledFrom([]string{",", ",", ", "}).Draw(t, "comma")
		nl := rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(t, "nl")
		final := rapid.Bool().Draw(t, "finalNL")
		c.ClassIf(order != "depth first", "nodes not written depth first")
		c.ClassIf(mixed, "fields in another order")
		type nline struct {
			depth int
			key   int
			path  string
			text  string
		}
		for i, tr := range trees {
			fmt.Fprintf(&sb, "TREE=%d%sTARGET=%s", i, sep, q(target))
			if tr.weight >= 0 {
				fmt.Fprintf(&sb, "%sWEIGHT=%v", sep, tr.weight)
			}
			sb.WriteString(nl)
			var nodes []nline
			keys := map[string]int{}
			tr.root.walk(func(n *mnode, d int) {
				var flds []string
				if n.pred != "" {
					p := n.pred
					if strings.ContainsAny(p, ",=") || strings.TrimSpace(p) != p || rapid.Bool().Draw(t, "quote") {
						p = q(p)
					}
					flds = append(flds, "PRED="+p)
				}
				if !n.leaf() {
					if n.r.f.Num {
						v := strconv.FormatFloat(n.r.val, 'g', -1, 64)
						flds = append(flds, "SPLITTER="+q(n.r.f.Name), "SPLITTERTYPE=NUMERICAL", "LVALUES="+v, "RVALUES="+v)
					} else {
						var l, r []string
						for _, k := range n.r.f.Cats {
							if n.r.left[k] {
								l = append(l, k)
							} else {
								r = append(r, k)
							}
						}
						flds = append(flds, "SPLITTER="+q(n.r.f.Name), "SPLITTERTYPE=CATEGORICAL", "LVALUES="+q(strings.Join(l, ":")), "RVALUES="+q(strings.Join(r, ":")))
					}
				}
				if mixed {
					flds = rapid.Permutation(flds).Draw(t, "fields")
				}
				key := 0
				switch order {
				case "breadth first":
					key = d
				case "any": // after the parent, anywhere
					if d > 0 {
						key = keys[n.path[:len(n.path)-1]]
					}
					key += rapid.IntRange(1, 9).Draw(t, "key")
				}
				keys[n.path] = key
				nodes = append(nodes, nline{d, key, n.path, strings.Join(append([]string{"NODE=" + n.path}, flds...), sep)})
			})
			sort.SliceStable(nodes, func(a, b int) bool { return nodes[a].key < nodes[b].key })
			for _, n := range nodes {
				sb.WriteString(n.text + nl)
			}
		}
		text := sb.String()
		if !final {
			text = strings.TrimSuffix(text, nl)
		}
		g, err := CF.NewForestReader(strings.NewReader(text)).ReadForest()
		if err != nil || g == nil || g.Target != target {
			t.Fatalf("reading %q: %v %v", text, g, err)
		}
		checkSameTrees(t, text, trees, g.Trees, m)
		sfNontrivial(c, trees, text)
	})
}

// ---------------------------------------------------------------- C12

// remap gives the same table with the categories numbered otherwise and some labels added, and at times
// without some of the features.
func remap(t *rapid.T, m *mmat) *mmat {
	out := &mmat{N: m.N, Labels: m.Labels}
	p := rapid.Permutation(seq(len(m.F))).Draw(t, "featperm")
	if len(p) > 1 && rapid.IntRange(0, 2).Draw(t, "lacks features") == 0 {
		p = p[:rapid.IntRange(1, len(p)-1).Draw(t, "nfeatures")]
	}
	for _, j := range p {
		f := *m.F[j]
		if !f.Num {
			k := len(f.Cats)
			extra := rapid.IntRange(0, 2).Draw(t, "extra")
			perm := rapid.Permutation(seq(k+extra)).Draw(t, "catperm")
			cats := make([]string, k+extra)
			for i := 0; i < k; i++ {
				cats[perm[i]] = f.Cats[i]
			}
			for i := k; i < k+extra; i++ {
				cats[perm[i]] = fmt.Sprintf("new%d", i)
			}
			cc := make([]int, m.N)
			for i := range cc {
				if !f.Miss[i] {
					cc[i] = perm[f.C[i]]
				}
			}
			f.Cats, f.C = cats, cc
			// some cases get a label never seen before
			for i := range cc {
				if extra > 0 && !f.Miss[i] && rapid.IntRange(0, 5).Draw(t, "unseen") == 0 {
					cc[i] = perm[k+rapid.IntRange(0, extra-1).Draw(t, "which")]
				}
			}
		}
		out.F = append(out.F, &f)
	}
	return out
}

type mvote struct {
	pred   string
	weight float64
}

// refVotes is what every case receives from the trees.
func refVotes(trees []*mtree, m *mmat, cases []int, out [][]mvote) {
	for _, tr := range trees {
		w := tr.weight
		if w < 0 {
			w = 1
		}
		for _, i := range cases {
			if _, l := tr.root.route(m, i); l != nil {
				out[i] = append(out[i], mvote{l.pred, w})
			}
		}
	}
}

func tallyCat(v []mvote) (best float64, sums map[string]float64) {
	sums = map[string]float64{}
	for _, x := range v {
		sums[x.pred] += x.weight
		best = math.Max(best, sums[x.pred])
	}
	return
}

func tallyNum(v []mvote) (mean, sum, wsum float64) {
	for _, x := range v {
		p, err := strconv.ParseFloat(x.pred, 64)
		if err != nil {
			continue
		}
		sum += p * x.weight
		wsum += x.weight
	}
	return sum / wsum, sum, wsum
}

// voteTol is the rounding that adding the votes up in any order leaves.
func voteTol(v []mvote) (mean, sum float64) {
	for _, x := range v {
		if p, err := strconv.ParseFloat(x.pred, 64); err == nil && x.weight != 0 {
			mean = math.Max(mean, math.Abs(p))
			sum += math.Abs(p * x.weight)
		}
	}
	eps := float64(len(v)+4) * 2e-15
	return mean * eps, sum * eps
}

func checkCatTally(t *rapid.T, what string, bb *CF.CatBallotBox, i int, v []mvote) {
	got := bb.Tally(i)
	best, sums := tallyCat(v)
	if best == 0 {
		if got != "NA" {
			t.Fatalf("%s: case %d without votes is tallied %q", what, i, got)
		}
		return
	}
	s, ok := sums[got]
	if !ok || s < best-1e-9*best {
		t.Fatalf("%s: case %d with votes %v is tallied %q", what, i, v, got)
	}
}

func checkNumTally(t *rapid.T, what string, bb *CF.NumBallotBox, i int, v []mvote) {
	got := bb.Tally(i)
	mean, _, w := tallyNum(v)
	if w == 0 {
		if got != "NA" {
			t.Fatalf("%s: case %d without votes is tallied %q (votes %v)", what, i, got, v)
		}
		return
	}
	tol, _ := voteTol(v)
	x, err := strconv.ParseFloat(got, 64)
	if err != nil || !within(x, mean, tol) || !within(bb.TallyNum(i), mean, tol) {
		t.Fatalf("%s: case %d with votes %v is tallied %q, want %v", what, i, v, got, mean)
	}
}

func checkSumTally(t *rapid.T, what string, bb *CF.SumBallotBox, i int, v []mvote) {
	_, sum, _ := tallyNum(v)
	got := bb.Tally(i)
	_, tol := voteTol(v)
	x, err := strconv.ParseFloat(got, 64)
	if err != nil || !within(x, sum, tol) || !within(bb.TallyNum(i), sum, tol) {
		t.Fatalf("%s: case %d with votes %v is summed to %q, want %v", what, i, v, got, sum)
	}
}

func drawWeight(t *rapid.T) float64 {
	switch rapid.IntRange(0, 4).Draw(t, "wk") {
	case 0:
		return -1
	case 1:
		return 0
	}
	return float64(rapid.IntRange(1, 40).Draw(t, "w")) / 8
}

func TestC12_VotesFollowTrees(t *testing.T) {
	forall(t, "two trees with splits vote differently for some case or a case is dropped", 5000, 40000, func(t *rapid.T, c *Case) {
		m := genMat(t, matOpts{minN: 1, maxN: 14, large: []int{100, 400}, minF: 1, maxF: 4, missing: true, styles: allStyles, maxCats: 7})
		labels := []string{"a", "b", "c d", "1"}
		numeric := rapid.Bool().Draw(t, "numeric")
		pred := catPred(labels)
		if numeric {
			pred = numPred
		}
		var trees []*mtree
		nt := genSize(t, 1, 5, 40, 150)
		for i := 0; i < nt; i++ {
			trees = append(trees, &mtree{root: genTree(t, m, treeOpts{maxDepth: rapid.IntRange(0, 4).Draw(t, "depth"), missing: true, pred: pred}), weight: drawWeight(t)})
		}
		data := m
		if rapid.Bool().Draw(t, "otherdata") {
			data = remap(t, m)
			c.Class("other data")
		}
		fm := data.real()
		votes := make([][]mvote, m.N)
		cb, nb, sb := CF.NewCatBallotBox(m.N), CF.NewNumBallotBox(m.N), CF.NewSumBallotBox(m.N)
		for _, tr := range trees {
			cases := seq(m.N)
			r := tr.real(m)
			if rapid.Bool().Draw(t, "some") {
				cases = genCases(t, m.N, 0, 12, rapid.Bool().Draw(t, "rep"))
				r.VoteCases(fm, cb, cp(cases))
				r.VoteCases(fm, nb, cp(cases))
				r.VoteCases(fm, sb, cp(cases))
			} else {
				r.Vote(fm, cb)
				r.Vote(fm, nb)
				r.Vote(fm, sb)
			}
			refVotes([]*mtree{tr}, data, cases, votes)
		}
		differ, none := false, 0
		what := fmt.Sprintf("%d trees on %v", nt, data)
		for _, tr := range trees {
			what += fmt.Sprintf(" | w=%v %v", tr.weight, tr.root)
		}
		for i := 0; i < m.N; i++ {
			checkCatTally(t, what, cb, i, votes[i])
			if numeric {
				checkNumTally(t, what, nb, i, votes[i])
				checkSumTally(t, what, sb, i, votes[i])
			}
			_, s := tallyCat(votes[i])
			differ = differ || len(s) > 1
			if len(votes[i]) < nt {
				none++
			}
		}
		checkFM(t, data, fm, true, false)
		c.ClassIf(none > 0, "some votes lost or not asked for")
		if differ || none > 0 {
			c.NT(data.String(), trees[0].root.String(), nt, fmt.Sprint(votes))
			c.Sample("%v: first tree %v, votes %v", data, trees[0].root, votes)
		}
	})
}

// histories of single votes
func TestC12_TallyHistories(t *testing.T) {
	forall(t, "some case has three or more different votes", 8000, 60000, func(t *rapid.T, c *Case) {
		n := genSize(t, 1, 6, 80)
		cb, nb, sb := CF.NewCatBallotBox(n), CF.NewNumBallotBox(n), CF.NewSumBallotBox(n)
		votes := make([][]mvote, n)
		nvotes := make([][]mvote, n)
		k := genSize(t, 0, 40, 300)
		for j := 0; j < k; j++ {
			i := rapid.IntRange(0, n-1).Draw(t, "case")
			w := float64(rapid.IntRange(0, 24).Draw(t, "w")) / 8
			if rapid.Bool().Draw(t, "unit") {
				w = 1
			} else if rapid.IntRange(0, 7).Draw(t, "tiny") == 0 {
				w = math.Ldexp(w, -rapid.IntRange(1, 60).Draw(t, "exp"))
			}
			l := fmt.Sprintf("L%d", rapid.IntRange(0, 4).Draw(t, "lab"))
			cb.Vote(i, l, w)
			votes[i] = append(votes[i], mvote{l, w})
			p := numPred(t)
			if rapid.IntRange(0, 15).Draw(t, "bad") == 0 {
				p = rapid.SampledFrom([]string{"", "NA", "abc"}).Draw(t, "badp")
			} else if rapid.IntRange(0, 15).Draw(t, "spelled") == 0 {
				p = rapid.SampledFrom([]string{"-0", "0.0", "0e0", "1E2", "+1.5", ".25"}).Draw(t, "spelling")
			}
			nb.Vote(i, p, w)
			sb.Vote(i, p, w)
			nvotes[i] = append(nvotes[i], mvote{p, w})
			// tallies may be read at any time
			q := rapid.IntRange(0, n-1).Draw(t, "read")
			checkCatTally(t, "history", cb, q, votes[q])
			checkNumTally(t, "history", nb, q, nvotes[q])
			checkSumTally(t, "history", sb, q, nvotes[q])
		}
		big := false
		for i := 0; i < n; i++ {
			checkCatTally(t, "history", cb, i, votes[i])
			checkNumTally(t, "history", nb, i, nvotes[i])
			checkSumTally(t, "history", sb, i, nvotes[i])
			_, s := tallyCat(votes[i])
			big = big || len(s) >= 3
		}
		if big {
			c.NT(fmt.Sprint(votes, nvotes))
			c.Sample("votes %v and %v", votes, nvotes)
		}
	})
}

// fresh trees (coded splits), their stripped copies and re-read copies route alike
func TestC12_FreshAndReread(t *testing.T) {
	forall(t, "the grown tree has two splits", 3000, 25000, func(t *rapid.T, c *Case) {
		n := genSize(t, 4, 24, 90, 200)
		m := genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 5, missing: true, styles: allStyles, maxCats: 9})
		for _, f := range m.F {
			for i := range f.Cats {
				f.Cats[i] = strings.Replace(f.Cats[i], "\"", "", -1)
			}
		}
		r := searchProblem(t, m.F[0], n, kindsNoTrans())
		full := &mmat{N: n, Labels: m.Labels, F: append(append([]*mfeat(nil), m.F...), r.col)}
		fm := full.real()
		ti := len(m.F)
		tg := r.wrap(fm.Data[ti])
		tr := CF.NewTree()
		tr.Target = r.col.Name
		bag := genCases(t, n, 4, 30, true)
		tr.Grow(fm, tg, cp(bag), seq(ti), nil, ti, 1, rapid.IntRange(0, 4).Draw(t, "depth"), rapid.Bool().Draw(t, "splitmissing"),
			rapid.Bool().Draw(t, "force"), false, false, rapid.Bool().Draw(t, "extra"), nil, nil, CF.NewBestSplitAllocs(40+2*n, tg))
		root := modelOf(tr.Root, "*")
		check := func(what string, x *CF.Tree, data *mmat, dfm *CF.FeatureMatrix) {
			cb := CF.NewCatBallotBox(data.N)
			x.Vote(dfm, cb)
			votes := make([][]mvote, data.N)
			refVotes([]*mtree{{root: root, weight: -1}}, data, seq(data.N), votes)
			what = fmt.Sprintf("%s tree %v on %v", what, root, data)
			for i := 0; i < data.N; i++ {
				checkCatTally(t, what, cb, i, votes[i])
			}
		}
		check("fresh", tr, full, fm)
		var b bytes.Buffer
		CF.NewForestWriter(&b).WriteTree(tr, 0)
		rr, _, _ := CF.NewForestReader(&b).ReadTree()
		if rr == nil {
			t.Fatalf("cannot read the tree back")
		}
		if d := diffTrees(root, modelOf(rr.Root, "*")); d != "" {
			t.Fatalf("re-read tree differs: %s", d)
		}
		other := remap(t, m)
		ofm := other.real()
		check("re-read", rr, full, fm)
		check("re-read", rr, other, ofm)
		tr.StripCodes()
		check("stripped", tr, other, ofm)
		check("stripped", tr, full, fm)
		if root.splits() >= 2 {
			c.NT(full.String(), root.String())
			c.Sample("%v on %v", root, other)
		}
	})
}

// ---------------------------------------------------------------- C13

func TestC13_ClassificationError(t *testing.T) {
	forall(t, "two classes have cases, some right and some wrong", 10000, 80000, func(t *rapid.T, c *Case) {
		n := genSize(t, 1, 20, 100, 500)
		k := rapid.IntRange(1, 6).Draw(t, "k")
		f := genCatFeat(t, "C:t", n, true, k, false)
		known := 0
		for _, x := range f.Miss {
			if !x {
				known++
			}
		}
		if known == 0 {
			f.Miss[0] = false
		}
		bb := CF.NewCatBallotBox(n)
		right, tot := make([]float64, k), make([]float64, k)
		wrong, ok := 0, 0
		for i := 0; i < n; i++ {
			pred := ""
			switch rapid.IntRange(0, 4).Draw(t, "vote") {
			case 0, 1:
				pred = f.Cats[f.C[i]]
			case 2:
				pred = rapid.SampledFrom(f.Cats).Draw(t, "lab")
			case 3:
				pred = "some other label"
			}
			if pred != "" {
				reps := rapid.IntRange(1, 2).Draw(t, "reps")
				for j := 0; j < reps; j++ {
					bb.Vote(i, pred, 1)
				}
				if rapid.Bool().Draw(t, "minor") {
					bb.Vote(i, "minority", 0.5)
				}
			}
			if f.Miss[i] {
				continue
			}
			tot[f.C[i]]++
			if pred == f.Cats[f.C[i]] {
				right[f.C[i]]++
				ok++
			} else {
				wrong++
			}
		}
		acc, classes := 0.0, 0.0
		for j := range tot {
			if tot[j] > 0 {
				acc += right[j] / tot[j]
				classes++
			}
		}
		want := 1 - acc/classes
		got := bb.TallyError(f.cat())
		if !close2(got, want, 1e-12) {
			t.Fatalf("balanced error %v, want %v: %v, right %v of %v", got, want, f, right, tot)
		}
		c.ClassIf(int(classes) < k, "class without cases")
		c.ClassIf(f.hasMissing(), "missing true values")
		if classes > 1 && wrong > 0 && ok > 0 {
			c.NT(f.String(), right, tot)
			c.Sample("%v right %v of %v error %v", f, right, tot, got)
		}
	})
}

func TestC13_NumericalError(t *testing.T) {
	forall(t, "some cases lack a true value or a vote and the target varies", 10000, 80000, func(t *rapid.T, c *Case) {
		n := genSize(t, 2, 20, 100, 500)
		f := genNumFeat(t, "N:t", n, true)
		bb := CF.NewNumBallotBox(n)
		sse, cnt, terms := 0.0, 0, 0.0
		var vals []float64
		drop := rapid.Bool().Draw(t, "drop")
		novote := 0
		for i := 0; i < n; i++ {
			if !f.Miss[i] {
				vals = append(vals, f.V[i])
			}
			if drop && rapid.IntRange(0, 3).Draw(t, "novote") == 0 {
				novote++
				continue
			}
			var v []mvote
			for j := rapid.IntRange(1, 3).Draw(t, "k"); j > 0; j-- {
				x := mvote{numPred(t), float64(rapid.IntRange(1, 8).Draw(t, "w")) / 4}
				bb.Vote(i, x.pred, x.weight)
				v = append(v, x)
			}
			mean, _, _ := tallyNum(v)
			if !f.Miss[i] {
				sse += (mean - f.V[i]) * (mean - f.V[i])
				tol, _ := voteTol(v)
				terms += sq(math.Abs(mean) + math.Abs(f.V[i]) + tol)
				terms += 1e11 * tol * (2*math.Abs(mean-f.V[i]) + tol) // what the rounding of the mean does
				cnt++
			}
		}
		if cnt == 0 {
			c.Class("nothing to compare")
			return
		}
		mse := sse / float64(cnt)
		mu, va := 0.0, 0.0
		for _, v := range vals {
			mu += v
		}
		mu /= float64(len(vals))
		for _, v := range vals {
			va += (v - mu) * (v - mu)
		}
		va /= float64(len(vals))
		d := f.num()
		if got := bb.TallySquaredError(d); !closeAt(got, mse, terms) {
			t.Fatalf("mean squared error %v, want %v for %v", got, mse, f)
		}
		if va > 1e-6 {
			if got := bb.TallyError(d); !closeAt(got, mse/va, (terms+mse)/va) {
				t.Fatalf("unexplained variance %v, want %v for %v", got, mse/va, f)
			}
			if got := bb.TallyR2Score(d); !closeAt(got, 1-mse/va, 1+(terms+mse)/va) {
				t.Fatalf("coefficient of determination %v, want %v for %v", got, 1-mse/va, f)
			}
		}
		c.ClassIf(f.hasMissing(), "missing true values")
		c.ClassIf(novote > 0, "cases without votes")
		if va > 1e-6 && (f.hasMissing() || novote > 0) {
			c.NT(f.String(), mse)
			c.Sample("%v: mse %v variance %v", f, mse, va)
		}
	})
}
