package cfverif

import (
	"fmt"
	"math"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// Boosting, density and data preparation as the growing tool runs them: the written forest is replayed
// against the definition of each round.

// boostRun draws how a boosted forest is grown; nobag says that every tree sees all known cases.
func (g *growArgs) boostRun(t *rapid.T, dir string) (args []string, nTrees int, nobag bool, what string) {
	train, _ := writeData(t, dir, "train", g.m)
	nTrees = rapid.SampledFrom([]int{1, 2, 3, 4, 6, 9}).Draw(t, "nTrees")
	if boosting(g.r.kind) && rapid.Bool().Draw(t, "default leaf") {
		g.leaf = len(g.known()) / 3
		if g.leaf < 1 {
			g.leaf = 1
		}
	} else {
		args = append(args, "-leafSize", strconv.Itoa(g.leaf))
	}
	args = append(args, "-train", train, "-target", g.r.col.Name, "-rfpred", "f.sf", "-nTrees", strconv.Itoa(nTrees), "-noseed",
		"-mTry", strconv.Itoa(g.mTry), "-maxDepth", strconv.Itoa(g.depth), "-nCores", rapid.SampledFrom([]string{"1", "1", "4"}).Draw(t, "cores"))
	args = append(args, g.modeFlags()...)
	args = append(args, g.candFlags(t, dir)...)
	if nobag = rapid.IntRange(0, 3).Draw(t, "nobag") > 0; nobag {
		args = append(args, "-nobag")
	}
	for _, x := range []string{"-oobpreds", "-importance"} {
		if rapid.IntRange(0, 3).Draw(t, x) == 0 {
			args = append(args, x, "out"+x)
		}
	}
	g.bag = g.known()
	return
}

// TestC14_CommandLine: each tree of a forest grown by the tool is fitted to what the trees before it left.
func TestC14_CommandLine(t *testing.T) {
	forall(t, "two or more trees with splits, grown from all cases", 250, 4000, func(t *rapid.T, c *Case) {
		class := rapid.Bool().Draw(t, "class")
		kind := "gradboost"
		if class {
			kind = "gini"
		}
		g := genCli(t, []string{kind}, false)
		known := g.known()
		pos := 0.0
		for _, i := range known {
			if class && g.r.col.Cats[g.r.col.C[i]] == g.r.pos {
				pos++
			}
		}
		if class && (pos == 0 || pos == float64(len(known))) {
			c.Class("one class only")
			return
		}
		g.r.kind, g.r.crit = "gradboost", true
		dir, done := scratchDir()
		defer done()
		args, nTrees, nobag, _ := g.boostRun(t, dir)
		args = append(args, "-gbt", strconv.FormatFloat(g.r.lr, 'g', -1, 64))
		if class {
			args = append(args, "-positive", g.r.pos)
		}
		what := fmt.Sprintf("growforest %q on %v", args, g.m)
		mustRun(t, dir, "growforest", args...)
		sf := loadSF(t, dir, "f.sf", what)
		if len(sf.trees) != nTrees || sf.header == nil || sf.header["TARGET"] != g.r.col.Name {
			t.Fatalf("%s: %d trees, header %v", what, len(sf.trees), sf.header)
		}
		y := make([]float64, g.m.N)
		mag, sum := 1.0, 0.0
		for _, i := range known {
			if class {
				if g.r.col.Cats[g.r.col.C[i]] == g.r.pos {
					y[i] = 1
				}
			} else {
				y[i] = g.r.col.V[i]
			}
			sum += y[i]
			mag = math.Max(mag, math.Abs(y[i]))
		}
		icpt := sum / float64(len(known))
		if class {
			icpt = math.Log(pos / (float64(len(known)) - pos))
		}
		if !(math.Abs(sf.intercept-icpt) <= 1e-9*mag) {
			t.Fatalf("%s: intercept %v, want %v", what, sf.intercept, icpt)
		}
		score := make([]float64, g.m.N)
		for i := range score {
			score[i] = icpt
		}
		splits := 0
		for k, tr := range sf.trees {
			if tr.target != g.r.col.Name || tr.weight != g.r.lr {
				t.Fatalf("%s: tree %d predicts %q with weight %v", what, k, tr.target, tr.weight)
			}
			if tr.root.splits() > 0 {
				splits++
			}
			res := make([]float64, g.m.N)
			curve := make([]float64, g.m.N)
			for _, i := range known {
				res[i], curve[i] = y[i]-score[i], 1
				if class {
					p := expit(score[i])
					res[i], curve[i] = y[i]-p, p*(1-p)
					if curve[i] < 1e-5 {
						c.Class("saturated")
						return
					}
				}
			}
			in := members(tr.root, g.m, known)
			for nd, cs := range in {
				if !nd.leaf() {
					continue
				}
				v, err := strconv.ParseFloat(nd.pred, 64)
				num, den, lo, hi := 0.0, 0.0, math.Inf(1), math.Inf(-1)
				for _, i := range cs {
					num += res[i]
					den += curve[i]
					lo, hi = math.Min(lo, res[i]/curve[i]), math.Max(hi, res[i]/curve[i])
				}
				tol := 1e-7 * mag * float64(k+1)
				if err != nil || v < lo-tol || v > hi+tol {
					t.Fatalf("%s: tree %d leaf %s predicts %q, what is left of %v is between %v and %v", what, k, nd.path, nd.pred, cs, lo, hi)
				}
				if nobag && math.Abs(v-num/den) > tol {
					t.Fatalf("%s: tree %d leaf %s predicts %q for %v, want %v", what, k, nd.path, nd.pred, cs, num/den)
				}
			}
			if nobag {
				h := *g
				h.r = &rt{kind: "gradboost", crit: true, lr: g.r.lr, col: &mfeat{Name: g.r.col.Name, Num: true, V: res, Miss: g.r.col.Miss}}
				if class {
					// leaves take the Newton step checked above instead of the mean
					h.checkSplits(t, fmt.Sprintf("%s: tree %d", what, k), tr.root)
				} else {
					h.checkShape(t, tr.root)
				}
			} else {
				g.checkBaggedTree(t, what, k, tr.root, len(known))
			}
			for i := range score {
				if _, l := tr.root.route(g.m, i); l != nil {
					v, _ := strconv.ParseFloat(l.pred, 64)
					score[i] += g.r.lr * v
					mag = math.Max(mag, math.Abs(score[i]))
				}
			}
		}
		c.ClassIf(class, "two classes")
		c.ClassIf(!class, "regression")
		c.ClassIf(len(known) < g.m.N, "missing targets")
		c.ClassIf(!nobag, "bagged")
		if splits >= 2 && nobag {
			c.NT(fmt.Sprint(args), g.m.String())
			c.Sample("%v on %v: scores %v", args, g.m, score)
		}
	})
}

// checkSplits judges candidates, depth, leaf size and decrease of every split.
func (g *growArgs) checkSplits(t *rapid.T, what string, root *mnode) {
	in := members(root, g.m, g.bag)
	root.walk(func(n *mnode, d int) {
		cases := in[n]
		if n.leaf() {
			if len(cases) == 0 {
				t.Fatalf("%s: no case in leaf %s of %v", what, n.path, root)
			}
			return
		}
		f := g.m.feat(n.r.f.Name)
		ok := false
		for _, k := range g.cands {
			ok = ok || (g.m.F[k] == f && f.Num == n.r.f.Num)
		}
		if !ok || (g.depth > 0 && d >= g.depth) {
			t.Fatalf("%s: node %s at depth %d splits on %v: %v", what, n.path, d, n.r, root)
		}
		w := n.r.want(f, cases)
		if len(w[0]) < g.leaf || len(w[1]) < g.leaf {
			t.Fatalf("%s: node %s splits %v into %v, leaf size %d: %v", what, n.path, cases, w, g.leaf, root)
		}
		if tot := totalGain(g.r, f, cases, div{l: w[0], r: w[1], gnm: nmGain(g.r, w[0], w[1])}); !(tot > 1e-7-gainTol(g.r, cases)) {
			t.Fatalf("%s: node %s splits %v into %v with decrease %v: %v", what, n.path, cases, w, tot, root)
		}
	})
}

// TestC15_CommandLine: the trees of an adaptively boosted forest see the weights the rounds before them made.
func TestC15_CommandLine(t *testing.T) {
	forall(t, "two or more rounds that change the weights", 250, 4000, func(t *rapid.T, c *Case) {
		g := genCli(t, []string{"adaboost", "adaboost", "adacost", "numada"}, false)
		known := g.known()
		dir, done := scratchDir()
		defer done()
		args, nTrees, nobag, _ := g.boostRun(t, dir)
		args = append(args, g.targetFlags()...)
		what := fmt.Sprintf("growforest %q on %v", args, g.m)
		mustRun(t, dir, "growforest", args...)
		sf := loadSF(t, dir, "f.sf", what)
		if len(sf.trees) != nTrees {
			t.Fatalf("%s: %d trees", what, len(sf.trees))
		}
		w := make([]float64, g.m.N)
		for i := range w {
			w[i] = 1 / float64(g.m.N)
		}
		cost := func(i int) float64 {
			if g.r.kind == "adacost" {
				return g.r.costs[g.r.col.Cats[g.r.col.C[i]]]
			}
			return 1
		}
		norm := 0.0
		if g.r.isNum() {
			m := g.r.avg(known)
			for _, i := range known {
				norm += math.Abs(g.r.col.V[i] - m)
			}
		}
		useful := 0
		for k, tr := range sf.trees {
			if nobag {
				g.r.weights = w
				g.checkShape(t, tr.root)
			} else {
				g.checkBaggedTree(t, what, k, tr.root, len(known))
			}
			// what the round made of the weights
			wrong := map[int]float64{}
			err := 0.0
			for nd, cs := range members(tr.root, g.m, known) {
				if !nd.leaf() || len(cs) == 0 {
					continue
				}
				for _, i := range cs {
					if g.r.isNum() {
						wrong[i] = math.Abs(g.r.col.V[i] - g.r.avg(cs))
						err += w[i] * wrong[i]
						continue
					}
					wrong[i] = 0
					if g.r.col.C[i] != g.r.firstMode(cs) {
						wrong[i] = 1
						err += w[i] * cost(i)
					}
				}
			}
			if math.IsNaN(tr.weight) || math.IsInf(tr.weight, 0) || tr.weight < 0 {
				t.Fatalf("%s: tree %d has weight %v", what, k, tr.weight)
			}
			// close calls and vanishing errors are judged on the targets themselves
			var e []float64
			if g.r.isNum() {
				if norm == 0 || math.Abs(err-norm) < 1e-7*(1+norm) || err > norm || err < 1e-7*norm {
					c.Class("numerical error at its limits")
					return
				}
				if want := math.Log(norm / err); !close2(tr.weight, want, 1e-6) {
					t.Fatalf("%s: tree %d has weight %v, want %v for error %v of %v", what, k, tr.weight, want, err, norm)
				}
			} else {
				if math.Abs(err-0.5) < 1e-7 || err < 1e-9 {
					c.Class("categorical error at its limits")
					return
				}
				want := 0.0
				if err < 0.5 {
					want = 0.5 * math.Log((1-err)/err)
				}
				if !(math.Abs(tr.weight-want) <= 1e-6*(1+want)) {
					t.Fatalf("%s: tree %d has weight %v, want %v for error %v under %v: %v", what, k, tr.weight, want, err, w, tr.root)
				}
				if want == 0 {
					c.Class("useless tree")
					continue
				}
			}
			s, top := 0.0, math.Inf(-1)
			for i := range w {
				x := 0.0
				if v, ok := wrong[i]; ok {
					switch {
					case g.r.isNum():
						x = tr.weight * (v - err)
					case v > 0:
						x = tr.weight + math.Log(cost(i))
					default:
						x = -tr.weight + math.Log(cost(i))
					}
				}
				e = append(e, x)
				top = math.Max(top, x)
			}
			next := make([]float64, len(w))
			for i := range w {
				next[i] = w[i] * math.Exp(e[i]-top)
				s += next[i]
			}
			if s < 1e-9 {
				return
			}
			for i := range next {
				next[i] /= s
			}
			w = next
			useful++
		}
		c.Class("%s", g.r.kind)
		c.ClassIf(len(known) < g.m.N, "missing targets")
		c.ClassIf(!nobag, "bagged")
		if useful >= 2 {
			c.NT(fmt.Sprint(args), g.m.String())
			c.Sample("%v on %v: weights %v", args, g.m, w)
		}
	})
}

// TestC34_CommandLine: density trees written by the tool predict the density of the cases in each leaf.
func TestC34_CommandLine(t *testing.T) {
	forall(t, "a tree with a split and a finite density", 200, 3000, func(t *rapid.T, c *Case) {
		g := genCli(t, []string{"gini", "num"}, false)
		known := g.known()
		dir, done := scratchDir()
		defer done()
		args, nTrees, nobag, _ := g.boostRun(t, dir)
		args = append(args, "-density")
		what := fmt.Sprintf("growforest %q on %v", args, g.m)
		mustRun(t, dir, "growforest", args...)
		sf := loadSF(t, dir, "f.sf", what)
		if len(sf.trees) != nTrees {
			t.Fatalf("%s: %d trees", what, len(sf.trees))
		}
		finite, splits := 0, 0
		for k, tr := range sf.trees {
			g.checkBaggedTree(t, what, k, tr.root, len(known))
			splits += tr.root.splits()
			if !nobag {
				continue
			}
			for nd, cs := range members(tr.root, g.m, known) {
				if !nd.leaf() {
					if w := nd.r.want(g.m.feat(nd.r.f.Name), cs); len(w[0]) < g.leaf || len(w[1]) < g.leaf {
						t.Fatalf("%s: node %s of tree %d splits %v into %v", what, nd.path, k, cs, w)
					}
					continue
				}
				want := float64(len(cs)) / float64(len(known))
				for _, f := range g.m.F {
					want /= spanOf(f, cs)
				}
				v, err := strconv.ParseFloat(nd.pred, 64)
				if err != nil || !(v == want || close2(v, want, 1e-9)) {
					t.Fatalf("%s: leaf %s of tree %d predicts %q for %v, density is %v", what, nd.path, k, nd.pred, cs, want)
				}
				if !math.IsInf(want, 0) {
					finite++
				}
			}
		}
		c.ClassIf(!nobag, "bagged")
		if splits > 0 && finite > 0 {
			c.NT(fmt.Sprint(args), g.m.String())
			c.Sample("%v on %v: %v", args, g.m, sf.trees[0].root)
		}
	})
}

// TestC34_SampleShare: the density is a share of all cases, however many of them train a tree. Leaves
// are too large for splits, so every tree predicts the density of its sample.
func TestC34_SampleShare(t *testing.T) {
	forall(t, "trees are grown from more or fewer cases than there are", 80, 1200, func(t *rapid.T, c *Case) {
		n := rapid.IntRange(4, 14).Draw(t, "n")
		m := &mmat{N: n}
		for i := 0; i < n; i++ {
			m.Labels = append(m.Labels, fmt.Sprintf("s%d", i))
		}
		spans := map[int]bool{1: true} // products of numbers of categories a sample can show
		for j, nf := 0, rapid.IntRange(2, 4).Draw(t, "nf"); j < nf; j++ {
			f := &mfeat{Name: fmt.Sprintf("C:f%d", j), Miss: make([]bool, n), C: make([]int, n), V: make([]float64, n)}
			k := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "cats")
			for i := range f.C {
				f.C[i] = rapid.IntRange(0, k-1).Draw(t, "c")
			}
			seen := map[int]int{}
			for i, x := range f.C {
				if _, ok := seen[x]; !ok {
					seen[x] = len(seen)
					f.Cats = append(f.Cats, fmt.Sprintf("v%d", x))
				}
				f.C[i] = seen[x]
			}
			next := map[int]bool{}
			for s := range spans {
				for x := 1; x <= len(f.Cats); x++ {
					next[s*x] = true
				}
			}
			spans = next
			m.F = append(m.F, f)
		}
		nobag := rapid.Bool().Draw(t, "nobag")
		k := rapid.IntRange(1, 2*n).Draw(t, "k")
		if nobag && k > n {
			k = n
		}
		dir, done := scratchDir()
		defer done()
		train, _ := writeData(t, dir, "train", m)
		args := []string{"-train", train, "-target", m.F[0].Name, "-rfpred", "f.sf", "-nTrees", "3", "-leafSize", strconv.Itoa(k), "-nSamples", strconv.Itoa(k), "-density", "-noseed"}
		if nobag {
			args = append(args, "-nobag")
		}
		what := fmt.Sprintf("growforest %q on %v", args, m)
		mustRun(t, dir, "growforest", args...)
		for i, tr := range loadSF(t, dir, "f.sf", what).trees {
			v, err := strconv.ParseFloat(tr.root.pred, 64)
			if err != nil || !tr.root.leaf() {
				t.Fatalf("%s: tree %d is %v", what, i, tr.root)
			}
			ok := false
			for s := range spans {
				ok = ok || close2(v, float64(k)/float64(n)/float64(s), 1e-9)
			}
			if !ok {
				t.Fatalf("%s: tree %d of %d among %d cases predicts the density %v", what, i, k, n, v)
			}
		}
		c.ClassIf(nobag, "without bagging")
		if k != n {
			c.NT(fmt.Sprint(args), m.String())
			c.Sample("%v on %v", args, m)
		}
	})
}

// TestC24_Prepared: imputing before growing and adding contrasts take effect as asked.
func TestC24_Prepared(t *testing.T) {
	forall(t, "missing values are imputed or contrasts added, and there are splits", 300, 4000, func(t *rapid.T, c *Case) {
		g := genCli(t, []string{"gini", "entropy", "wrf", "num", "l1"}, false)
		dir, done := scratchDir()
		defer done()
		if rapid.IntRange(0, 2).Draw(t, "all usable") == 0 {
			g.cands = seq(g.ti)
		}
		train, _ := writeData(t, dir, "train", g.m)
		nTrees := rapid.IntRange(1, 5).Draw(t, "nTrees")
		args := []string{"-train", train, "-target", g.r.col.Name, "-rfpred", "f.sf", "-nTrees", strconv.Itoa(nTrees), "-noseed", "-leafSize", strconv.Itoa(g.leaf),
			"-maxDepth", strconv.Itoa(g.depth), "-nCores", rapid.SampledFrom([]string{"1", "3"}).Draw(t, "cores")}
		args = append(args, g.targetFlags()...)
		args = append(args, g.modeFlags()...)
		orig := g.m
		impute := rapid.Bool().Draw(t, "impute")
		if impute {
			// which of several most frequent categories fills the gaps is open
			for _, f := range g.m.F {
				if !f.Num && f.hasMissing() && known(f) > 0 {
					cnt := make([]int, len(f.Cats))
					for i := range f.C {
						if !f.Miss[i] {
							cnt[f.C[i]]++
						}
					}
					if s := sortedInts(cnt); len(s) > 1 && s[len(s)-1] == s[len(s)-2] {
						impute = false
					}
				}
			}
		}
		if impute {
			args = append(args, "-impute")
			g.m = g.m.imputed()
			g.r.col = g.m.F[g.ti]
			g.bag = g.known()
		}
		nk := len(g.known())
		contrasts := rapid.SampledFrom([]string{"", "", "some", "all", "both"}).Draw(t, "contrasts")
		added := 0
		if contrasts == "some" || contrasts == "both" {
			added = rapid.IntRange(1, 4).Draw(t, "nContrasts")
			args = append(args, "-nContrasts", strconv.Itoa(added))
		}
		if contrasts == "all" || contrasts == "both" {
			added += len(g.m.F) + added
			args = append(args, "-contrastall")
		}
		usable := len(g.cands)
		only := false
		if contrasts == "" {
			args = append(args, g.candFlags(t, dir)...)
		} else {
			usable = g.ti + added
			switch rapid.IntRange(0, 3).Draw(t, "usable") {
			case 0: // the originals only
				args = append(args, "-blockRE", ":SHUFFLED$")
				usable, added = g.ti, 0
			case 1: // the contrasts only
				args = append(args, "-includeRE", ":SHUFFLED$")
				usable, only = added, true
			}
			g.cands = seq(g.ti)
		}
		mTry := int(math.Ceil(math.Sqrt(float64(usable))))
		if rapid.Bool().Draw(t, "mTry given") {
			s, v := amount(t, "mTry", usable, usable)
			args = append(args, "-mTry", s)
			mTry = v
		}
		nobag := rapid.IntRange(0, 2).Draw(t, "nobag") > 0
		if nobag {
			args = append(args, "-nobag")
		}
		imp := rapid.Bool().Draw(t, "importance")
		if imp {
			args = append(args, "-importance", "imp.tsv")
		}
		what := fmt.Sprintf("growforest %q on %v", args, orig)
		res := mustRun(t, dir, "growforest", args...)
		for name, v := range map[string]int{"nTrees": nTrees, "Non Target Features": usable, "non-missing cases": nk, "mTry": mTry, "leafSize": g.leaf, "nSamples": nk} {
			if s, ok := printed(res.stdout, name); !ok || s != strconv.Itoa(v) {
				t.Fatalf("%s: says %s : %q, want %d", what, name, s, v)
			}
		}
		sf := loadSF(t, dir, "f.sf", what)
		if len(sf.trees) != nTrees {
			t.Fatalf("%s: wrote %d trees", what, len(sf.trees))
		}
		g.mTry = mTry
		splits := 0
		shuffled := regexp.MustCompile(`(:SHUFFLED)+$`)
		for k, tr := range sf.trees {
			splits += tr.root.splits()
			if contrasts == "" {
				if nobag {
					g.checkShape(t, tr.root)
				} else {
					g.checkBaggedTree(t, what, k, tr.root, nk)
				}
				continue
			}
			tr.root.walk(func(n *mnode, d int) {
				if n.leaf() {
					return
				}
				base := shuffled.ReplaceAllString(n.r.f.Name, "")
				isC := base != n.r.f.Name
				f := g.m.feat(base)
				if f == nil || f.Num != n.r.f.Num || (base == g.r.col.Name && !isC) || (isC && added == 0) || (!isC && only) || (g.depth > 0 && d >= g.depth) {
					t.Fatalf("%s: tree %d splits on %v at depth %d: %v", what, k, n.r, d, tr.root)
				}
				if strings.HasSuffix(n.r.f.Name, ":SHUFFLED:SHUFFLED") && contrasts != "both" {
					t.Fatalf("%s: tree %d splits on %v: %v", what, k, n.r, tr.root)
				}
				// a shuffled copy holds the values of the original
				some := [2]bool{}
				for i := range f.Miss {
					if !f.Miss[i] {
						if (f.Num && f.V[i] <= n.r.val) || (!f.Num && n.r.left[f.Cats[f.C[i]]]) {
							some[0] = true
						} else {
							some[1] = true
						}
					}
				}
				if !some[0] || !some[1] {
					t.Fatalf("%s: tree %d splits on %v, which does not divide %v: %v", what, k, n.r, f, tr.root)
				}
			})
		}
		if imp {
			text, _ := readFile(filepath.Join(dir, "imp.tsv"))
			lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
			total := len(g.m.F)
			for _, l := range lines {
				if shuffled.MatchString(strings.Split(l, "\t")[0]) {
					total++
				}
			}
			if len(lines) != total || (contrasts != "" && total == len(g.m.F)) || (contrasts == "" && total != len(g.m.F)) {
				t.Fatalf("%s: importances %q", what, lines)
			}
		}
		c.ClassIf(impute, "imputed")
		c.ClassIf(impute && nk > len((&growArgs{r: &rt{col: orig.F[g.ti]}}).known()), "imputed target")
		c.ClassIf(contrasts != "", "contrasts "+contrasts)
		c.ClassIf(only, "contrasts only")
		if (impute || contrasts != "") && splits > 0 {
			c.NT(fmt.Sprint(args), orig.String())
			c.Sample("%v on %v", args, orig)
		}
	})
}

// canonical renders a forest file without regard to the order of categories inside a split.
func (s *sfFile) canonical() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v\n", s.header) // maps print in key order
	for i, tr := range s.trees {
		fmt.Fprintf(&sb, "tree %d of %q weighing %v\n", i, tr.target, tr.weight)
		tr.root.walk(func(n *mnode, d int) {
			fmt.Fprintf(&sb, "%s %q", n.path, n.pred)
			if n.r != nil {
				fmt.Fprintf(&sb, " %q %v %v %v", n.r.f.Name, n.r.f.Num, n.r.val, n.r.left)
			}
			sb.WriteByte('\n')
		})
	}
	return sb.String()
}

// TestC31_CommandLine: the growing tool run twice without seeding from the time gives the same results.
func TestC31_CommandLine(t *testing.T) {
	forall(t, "the forest has several splits", 250, 3000, func(t *rapid.T, c *Case) {
		g := genCli(t, cliKinds(), true)
		if g.evaloob && boosting(g.r.kind) {
			g.evaloob = false
		}
		dir, done := scratchDir()
		defer done()
		train, _ := writeData(t, dir, "train", g.m)
		nTrees := rapid.IntRange(1, 6).Draw(t, "nTrees")
		args := []string{"-train", train, "-target", g.r.col.Name, "-nTrees", strconv.Itoa(nTrees), "-noseed",
			"-leafSize", strconv.Itoa(g.leaf), "-maxDepth", strconv.Itoa(g.depth)}
		args = append(args, g.targetFlags()...)
		args = append(args, g.modeFlags()...)
		args = append(args, g.candFlags(t, dir)...)
		plain := g.r.kind == "gini" || g.r.kind == "entropy" || g.r.kind == "num" || g.r.kind == "l1" || g.r.kind == "wrf"
		testable := g.r.kind != "dentropy" && g.r.kind != "hdist" && g.r.kind != "gradboost"
		outs := []string{"-rfpred"}
		ace := false
		for _, x := range []string{"-mTry", "-nSamples", "-nobag", "-oobpreds", "-importance", "-selftest", "-oob", "-nContrasts", "-contrastall", "-impute",
			"-shuffleRE", "-permute", "-balance", "-balanceby", "-ace"} {
			if rapid.IntRange(0, 3).Draw(t, x) > 0 {
				continue
			}
			switch x {
			case "-mTry", "-nSamples":
				s, _ := amount(t, x, len(g.cands), len(g.cands))
				args = append(args, x, s)
			case "-selftest", "-oob":
				if testable {
					args = append(args, x)
				}
			case "-oobpreds", "-importance":
				outs = append(outs, x)
			case "-nContrasts":
				args = append(args, x, strconv.Itoa(rapid.IntRange(1, 5).Draw(t, "contrasts")))
			case "-shuffleRE":
				args = append(args, x, rapid.SampledFrom([]string{"^N:", "^C:", ".*", "1$"}).Draw(t, "re"))
			case "-balance":
				if !g.r.isNum() && plain {
					args = append(args, x)
				}
			case "-balanceby":
				if f := g.m.F[g.cands[0]]; !f.Num && !g.r.isNum() && plain && known(f)+len(g.known()) > g.m.N { // shuffled or not, a case is known in both
					args = append(args, "-balance", x, f.Name)
				}
			case "-ace":
				if plain && len(g.known()) > 2 {
					ace = true
					outs = append(outs, "-importance")
					args = append(args, x, strconv.Itoa(rapid.IntRange(2, 4).Draw(t, "forests")))
					if rapid.Bool().Draw(t, "cutoff") {
						args = append(args, "-cutoff", "0.7")
					}
				}
			case "-impute", "-permute", "-contrastall", "-nobag":
				if x == "-nobag" || plain {
					args = append(args, x)
				}
			}
		}
		// "without a seed" is not "seeded by the run time library"
		var env []string
		if rapid.Bool().Draw(t, "default settings") {
			env = []string{"GODEBUG="}
		}
		run := func(n int) (string, int) {
			a := cp2(args)
			for _, x := range outs {
				a = append(a, x, fmt.Sprintf("out%d%s", n, x))
			}
			what := fmt.Sprintf("growforest %q on %v", a, g.m)
			res := runToolEnv(dir, env, "growforest", a...)
			if res.rc != 0 {
				t.Fatalf("%s failed (%d): %s", what, res.rc, tail(res.stderr, 1500))
			}
			var sb strings.Builder
			for _, l := range strings.Split(res.stdout, "\n") {
				if !strings.Contains(l, "seconds") && !strings.Contains(l, "out"+strconv.Itoa(n)) {
					sb.WriteString(l + "\n")
				}
			}
			sf := loadSF(t, dir, fmt.Sprintf("out%d-rfpred", n), what)
			splits := 0
			for _, tr := range sf.trees {
				splits += tr.root.splits()
			}
			sb.WriteString(sf.canonical())
			for _, x := range outs[1:] {
				s, ok := readFile(filepath.Join(dir, fmt.Sprintf("out%d%s", n, x)))
				if !ok {
					t.Fatalf("%s: %s not written", what, x)
				}
				sb.WriteString(x + "\n" + s)
			}
			return sb.String(), splits
		}
		a, splits := run(1)
		b, _ := run(2)
		if a != b {
			la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
			for i := range la {
				if i >= len(lb) || la[i] != lb[i] {
					t.Fatalf("growforest %q on %v: two runs differ from line %d on:\n%s\nand\n%s", args, g.m, i,
						tail(strings.Join(la[i:], "\n"), 600), tail(strings.Join(lb[min2(i, len(lb)):], "\n"), 600))
				}
			}
			t.Fatalf("growforest %q on %v: two runs differ", args, g.m)
		}
		c.Class("target %s", g.r.kind)
		c.ClassIf(ace, "ace")
		c.ClassIf(env != nil, "default run time settings")
		if splits >= 3 {
			c.NT(a)
			c.Sample("%v on %v", args, g.m)
		}
	})
}

func cp2(s []string) []string { return append([]string(nil), s...) }

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}
