package cfverif

import (
	"encoding/json"
	"fmt"
	"math"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- reference evaluation of prediction files

func (t *mtree) clone() *mtree { c := *t; return &c }

// predLine is one line of a prediction file.
type predLine struct{ label, pred, actual string }

func readPreds(t *rapid.T, dir, name, what string, n int) []predLine {
	text, ok := readFile(filepath.Join(dir, name))
	if !ok {
		t.Fatalf("%s: no predictions written", what)
	}
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if len(lines) != n {
		t.Fatalf("%s: %d lines of predictions for %d cases: %s", what, len(lines), n, text)
	}
	var out []predLine
	for _, l := range lines {
		c := strings.Split(l, "\t")
		if len(c) != 3 {
			t.Fatalf("%s: prediction line %q", what, l)
		}
		out = append(out, predLine{c[0], c[1], c[2]})
	}
	return out
}

// actualOK compares the true value column.
func actualOK(f *mfeat, i int, s string) bool {
	if f == nil || f.Miss[i] {
		return s == "NA" || (f != nil && f.Miss[i] && isMissTok(s))
	}
	if f.Num {
		x, err := strconv.ParseFloat(s, 64)
		return err == nil && x == f.V[i]
	}
	return s == f.Cats[f.C[i]]
}

// modeOK: the prediction is a label with the most votes, NA without votes.
func modeOK(v []mvote, pred string) bool {
	best, sums := tallyCat(v)
	if best == 0 {
		return pred == "NA"
	}
	s, ok := sums[pred]
	return ok && s >= best-1e-9*best
}

func meanOK(v []mvote, pred string, add float64, expitIt bool) bool {
	mean, _, w := tallyNum(v)
	if w == 0 {
		// no vote: nothing to say beyond the intercept
		return pred == "NA" || pred == "NaN" || (add != 0 && pred == fmt.Sprintf("%v", add))
	}
	x, err := strconv.ParseFloat(pred, 64)
	tol, _ := voteTol(v)
	tol += math.Abs(add) * 1e-14
	if expitIt {
		return err == nil && within(x, expit(mean+add), tol+1e-14)
	}
	return err == nil && within(x, mean+add, tol)
}

// balancedError is the documented error of class predictions.
func balancedError(f *mfeat, pred []string) float64 {
	right, tot := map[int]float64{}, map[int]float64{}
	for i, p := range pred {
		if f.Miss[i] {
			continue
		}
		tot[f.C[i]]++
		if p == f.Cats[f.C[i]] {
			right[f.C[i]]++
		}
	}
	e := 0.0
	for k := range tot {
		e += right[k] / tot[k]
	}
	return 1 - e/float64(len(tot))
}

// unexplained is the documented error of numerical predictions; ok when it is well conditioned.
func unexplained(f *mfeat, pred []string) (e float64, ok bool) {
	sse, cnt, mu, va, n := 0.0, 0.0, 0.0, 0.0, 0.0
	for i, p := range pred {
		if f.Miss[i] {
			continue
		}
		mu += f.V[i]
		n++
		if x, err := strconv.ParseFloat(p, 64); err == nil && !math.IsNaN(x) {
			sse += (x - f.V[i]) * (x - f.V[i])
			cnt++
		}
	}
	mu /= n
	for i := range pred {
		if !f.Miss[i] {
			va += (f.V[i] - mu) * (f.V[i] - mu)
		}
	}
	va /= n
	return sse / cnt / va, cnt > 0 && va > 1e-6
}

// errTol is how exact an error can be: predictions far from zero are rounded, compared to the spread of the values.
func errTol(f *mfeat) float64 {
	mu, va, n := avgKnown(f), 0.0, 0.0
	for i, x := range f.Miss {
		if !x {
			va += (f.V[i] - mu) * (f.V[i] - mu)
			n++
		}
	}
	return 1e-8 + 2e-14*maxAbs(f.V)/math.Sqrt(va/n)
}

// checkError compares a printed error with the one of the predictions.
func checkError(t *rapid.T, what string, out, name string, f *mfeat, pred []string) {
	s, ok := printed(out, name)
	if !ok {
		t.Fatalf("%s: no %q printed: %s", what, name, tail(out, 1000))
	}
	got, err := strconv.ParseFloat(s, 64)
	if err != nil {
		t.Fatalf("%s: %s: %q", what, name, s)
	}
	if f.Num {
		want, ok := unexplained(f, pred)
		if ok && !close2(got, want, errTol(f)) {
			t.Fatalf("%s: %s: %v, the predictions %v for %v have %v", what, name, got, pred, f, want)
		}
		return
	}
	if want := balancedError(f, pred); !close2(got, want, 1e-9) {
		t.Fatalf("%s: %s: %v, the predictions %v for %v have %v", what, name, got, pred, f, want)
	}
}

func known(f *mfeat) (n int) {
	for _, x := range f.Miss {
		if !x {
			n++
		}
	}
	return
}

// ---------------------------------------------------------------- C26

func TestC26_OutOfBagOnly(t *testing.T) {
	forall(t, "some cases are in and some out of bag", 600, 8000, func(t *rapid.T, c *Case) {
		n := genSize(t, 3, 30, 90, 200)
		m := &mmat{N: n}
		for i := 0; i < n; i++ {
			m.Labels = append(m.Labels, fmt.Sprintf("s%d", i))
		}
		m.F = append(m.F, distinctCol(t, "N:id", n))
		for j := rapid.IntRange(0, 2).Draw(t, "extra"); j > 0; j-- {
			if rapid.Bool().Draw(t, "num") {
				m.F = append(m.F, genNumFeatStyle(t, fmt.Sprintf("N:x%d", j), n, true, "few"))
			} else {
				m.F = append(m.F, genCatFeat(t, fmt.Sprintf("C:x%d", j), n, true, 3, true))
			}
		}
		num := rapid.Bool().Draw(t, "numtarget")
		tc := uniqueTarget(t, n, num)
		if rapid.Bool().Draw(t, "tmiss") {
			for i := range tc.Miss {
				tc.Miss[i] = rapid.IntRange(0, 3).Draw(t, "tm") == 0
			}
			tc.Miss[0], tc.Miss[n/2] = false, false
		}
		by := -1
		if !num && rapid.IntRange(0, 2).Draw(t, "by") == 0 {
			by = len(m.F)
			m.F = append(m.F, genCatFeat(t, "C:by", n, false, 3, true))
		}
		ti := len(m.F)
		m.F = append(m.F, tc)
		m = m.asParsed()
		tc = m.F[ti]
		caseOf := map[string]int{} // the case a value belongs to
		for i := 0; i < n; i++ {
			if !tc.Miss[i] {
				caseOf[tc.str(i)] = i
			}
		}
		dir, done := scratchDir()
		defer done()
		train, labels := writeData(t, dir, "train", m)
		trees := rapid.SampledFrom([]int{1, 2, 3, 5, 10, 20}).Draw(t, "trees")
		args := []string{"-train", train, "-target", tc.Name, "-rfpred", "f.sf", "-nTrees", strconv.Itoa(trees), "-leafSize", "1", "-mTry", strconv.Itoa(ti), "-noseed",
			"-nCores", rapid.SampledFrom([]string{"1", "1", "2", "4"}).Draw(t, "cores"), "-oobpreds", "oob.tsv"}
		nobag := rapid.IntRange(0, 3).Draw(t, "nobag") == 0
		sampled := len(caseOf)
		if rapid.Bool().Draw(t, "nSamples") {
			max := 4 * len(caseOf)
			if nobag {
				max = len(caseOf)
			}
			s, k := amount(t, "samples", max, len(caseOf))
			sampled = k
			args = append(args, "-nSamples", s)
		}
		if nobag {
			args = append(args, "-nobag")
		} else if by >= 0 {
			args = append(args, "-balanceby", "C:by")
		} else if !num && rapid.Bool().Draw(t, "balance") {
			args = append(args, "-balance")
		}
		if rapid.Bool().Draw(t, "oobflag") {
			args = append(args, "-oob")
		}
		if rapid.IntRange(0, 3).Draw(t, "splitmissing") == 0 {
			args = append(args, "-splitmissing")
		}
		what := fmt.Sprintf("growforest %q on %v", args, m)
		res := mustRun(t, dir, "growforest", args...)
		sf := loadSF(t, dir, "f.sf", what)
		if len(sf.trees) != trees {
			t.Fatalf("%s: %d trees", what, len(sf.trees))
		}
		votes := make([][]mvote, n)
		inout := false
		for k, tr := range sf.trees {
			in := map[int]bool{}
			dup := false
			tr.root.walk(func(x *mnode, d int) {
				if !x.leaf() {
					return
				}
				i, ok := caseOf[x.pred]
				if !ok || in[i] {
					dup = true
				}
				in[i] = true
			})
			if dup {
				// a sample can contain one case only once per leaf: two leaves with one value, or a mixture
				t.Fatalf("%s: tree %d was grown with cases whose target is missing, or mixes cases: %v", what, k, tr.root)
			}
			// cases with a missing predictor leave the tree at a split without missing branch, so a tree
			// may have fewer leaves than cases; the in-bag cases are then not all known from it
			lost := map[int]bool{}
			for i := 0; i < n; i++ {
				if _, l := tr.root.route(m, i); l == nil {
					lost[i] = true
				}
			}
			if nobag && len(lost) == 0 && len(in) != sampled {
				t.Fatalf("%s: tree %d was grown from %d of %d cases", what, k, len(in), sampled)
			}
			var out []int
			for i := 0; i < n; i++ {
				if !in[i] && !lost[i] { // lost cases get no vote either way
					out = append(out, i)
				}
			}
			inout = inout || (len(in) > 1 && len(out) > 0)
			refVotes([]*mtree{tr}, m, out, votes)
		}
		preds := readPreds(t, dir, "oob.tsv", what, n)
		var list []string
		voted := 0
		for i, p := range preds {
			ok := modeOK(votes[i], p.pred)
			if num {
				ok = meanOK(votes[i], p.pred, 0, false)
			}
			if !ok || p.label != labels[i] || !actualOK(tc, i, p.actual) {
				t.Fatalf("%s: case %d (%s) is reported as %v, its out of bag votes are %v; trees %v", what, i, tc.str(i), p, votes[i], sf.trees[0].root)
			}
			if len(votes[i]) > 0 {
				voted++
			}
			list = append(list, p.pred)
		}
		if nobag && sampled == len(caseOf) {
			for i, p := range preds {
				if p.pred != "NA" && !tc.Miss[i] {
					t.Fatalf("%s: case %d was in every sample, out of bag prediction %v", what, i, p)
				}
			}
			c.Class("every case in bag")
		}
		if voted > 0 || !num {
			checkError(t, what, res.stdout, "Out of Bag Error", tc, list)
		}
		c.ClassIf(tc.hasMissing(), "missing target values")
		c.ClassIf(num, "regression")
		if inout {
			c.NT(fmt.Sprint(args), m.String())
			c.Sample("%v: %d of %d cases with out of bag votes", args, voted, n)
		}
	})
}

// TestC26_AnyForest: with any kind of target and mode of growing, the out of bag prediction of a case combines votes of
// some of the saved trees, and no others, and one tree has no out of bag votes for the cases it was grown from.
func TestC26_AnyForest(t *testing.T) {
	forall(t, "a saved tree has splits and some cases have out of bag votes", 400, 5000, func(t *rapid.T, c *Case) {
		g := genCli(t, []string{"gini", "gini", "entropy", "wrf", "num", "num", "l1", "ordinal", "adaboost", "numada"}, true)
		dir, done := scratchDir()
		defer done()
		train, labels := writeData(t, dir, "train", g.m)
		trees := rapid.SampledFrom([]int{1, 1, 2, 3, 5}).Draw(t, "trees")
		args := []string{"-train", train, "-target", g.r.col.Name, "-rfpred", "f.sf", "-nTrees", strconv.Itoa(trees), "-noseed", "-oobpreds", "oob.tsv",
			"-leafSize", strconv.Itoa(g.leaf), "-maxDepth", strconv.Itoa(g.depth), "-mTry", strconv.Itoa(len(g.cands)),
			"-nCores", rapid.SampledFrom([]string{"1", "1", "3"}).Draw(t, "cores")}
		args = append(args, g.targetFlags()...)
		args = append(args, g.modeFlags()...)
		args = append(args, g.candFlags(t, dir)...)
		nobag := rapid.IntRange(0, 3).Draw(t, "nobag") == 0
		if nobag {
			args = append(args, "-nobag")
		} else if !g.r.isNum() && rapid.IntRange(0, 2).Draw(t, "balance") == 0 {
			args = append(args, "-balance")
		}
		contrasts := false
		ace := rapid.IntRange(0, 2).Draw(t, "ace") == 0
		if ace {
			args = append(args, "-ace", strconv.Itoa(rapid.IntRange(1, 6).Draw(t, "permutations")))
			contrasts = rapid.IntRange(0, 2).Draw(t, "no cutoff") == 0
			if !contrasts {
				args = append(args, "-cutoff", rapid.SampledFrom([]string{"0.05", "0.5", "0.99", "1.5"}).Draw(t, "cutoff"))
			}
		}
		for _, x := range []string{"-jungle", "-progress", "-oob"} {
			if rapid.IntRange(0, 4).Draw(t, x) == 0 {
				args = append(args, x)
			}
		}
		what := fmt.Sprintf("growforest %q on %v", args, g.m)
		res := mustRun(t, dir, "growforest", args...)
		sf := loadSF(t, dir, "f.sf", what)
		preds := readPreds(t, dir, "oob.tsv", what, g.m.N)
		var list []string
		voted, inbag, split := 0, 0, 0
		for _, tr := range sf.trees {
			split += tr.root.splits()
		}
		for i, p := range preds {
			list = append(list, p.pred)
			if p.label != labels[i] || !actualOK(g.r.col, i, p.actual) {
				t.Fatalf("%s: case %d is reported as %v", what, i, p)
			}
			if p.pred == "NA" || p.pred == "NaN" {
				if !g.r.col.Miss[i] {
					inbag++
				}
				continue
			}
			voted++
			if contrasts {
				continue
			}
			ok := false
			for sub := 1; sub < 1<<uint(len(sf.trees)) && !ok; sub++ {
				var some []*mtree
				for k, tr := range sf.trees {
					if sub>>uint(k)&1 != 0 {
						some = append(some, tr)
					}
				}
				votes := make([][]mvote, g.m.N)
				refVotes(some, g.m, []int{i}, votes)
				if len(votes[i]) == 0 {
					continue
				}
				if g.r.isNum() {
					ok = meanOK(votes[i], p.pred, 0, false)
				} else {
					ok = modeOK(votes[i], p.pred)
				}
			}
			if !ok {
				votes := make([][]mvote, g.m.N)
				refVotes(sf.trees, g.m, []int{i}, votes)
				t.Fatalf("%s: the out of bag prediction of case %d is %v, the votes of all trees for it are %v", what, i, p, votes[i])
			}
		}
		if len(sf.trees) == 1 && inbag == 0 {
			t.Fatalf("%s: one tree has out of bag votes for every case: %v", what, preds)
		}
		if nobag && inbag < len(g.known()) {
			t.Fatalf("%s: every case with a target value is in every sample, out of bag predictions %v", what, preds)
		}
		if voted > 0 || !g.r.isNum() {
			checkError(t, what, res.stdout, "Out of Bag Error", g.r.col, list)
		}
		c.Class("target %s", g.r.kind)
		c.ClassIf(ace, "ace")
		c.ClassIf(ace && !contrasts, "ace with cutoff")
		c.ClassIf(len(sf.trees) == 1, "one tree")
		c.ClassIf(nobag, "every case in bag")
		if split > 0 && voted > 0 {
			c.NT(fmt.Sprint(args), g.m.String())
			c.Sample("%v on %v: %d cases with out of bag votes", args, g.m, voted)
		}
	})
}

// ---------------------------------------------------------------- C25

// sfMatrix draws data whose names and labels an .sf file can express.
func cliMatrix(t *rapid.T, n int) *mmat {
	return genMat(t, matOpts{minN: n, maxN: n, minF: 1, maxF: 5, missing: true, styles: allStyles, maxCats: rapid.SampledFrom([]int{3, 6, 12}).Draw(t, "maxCats")})
}

// withTarget adds the target column as the last one.
func (m *mmat) withTarget(f *mfeat) *mmat {
	out := *m
	out.F = append(append([]*mfeat(nil), m.F...), f)
	return &out
}

// freshData draws other cases for the same features, with other category numbering, unseen labels, other order,
// and sometimes without some of the features.
func freshData(t *rapid.T, m *mmat, target string) *mmat {
	n := rapid.IntRange(1, 14).Draw(t, "fresh n")
	var pick []int
	for i := 0; i < n; i++ {
		pick = append(pick, rapid.IntRange(0, m.N-1).Draw(t, "pick"))
	}
	out := m.sel(pick)
	for i := range out.Labels {
		out.Labels[i] = fmt.Sprintf("q%d", i)
	}
	for _, f := range out.F {
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 5).Draw(t, "change") {
			case 0:
				f.Miss[i] = true
			case 1:
				if f.Num {
					f.V[i] += float64(rapid.IntRange(-4, 4).Draw(t, "d")) / 8
				}
			}
		}
	}
	out = remap(t, out)
	if rapid.IntRange(0, 4).Draw(t, "drop a feature") == 0 && len(out.F) > 1 {
		k := rapid.IntRange(0, len(out.F)-1).Draw(t, "dropped")
		if out.F[k].Name != target {
			out.F = append(append([]*mfeat(nil), out.F[:k]...), out.F[k+1:]...)
		}
	}
	return out.asParsed()
}

func TestC25_ToolsAgree(t *testing.T) {
	forall(t, "trees have splits, and predictions differ between cases", 500, 7000, func(t *rapid.T, c *Case) {
		n := genSize(t, 6, 24, 80, 150)
		base := cliMatrix(t, n)
		r := searchProblem(t, base.F[0], n, []string{"gini", "gini", "entropy", "wrf", "num", "num", "l1", "ordinal", "adaboost", "numada", "gradboost"})
		tf := r.col
		if rapid.IntRange(0, 2).Draw(t, "tmiss") == 0 {
			for i := range tf.Miss {
				tf.Miss[i] = rapid.IntRange(0, 4).Draw(t, "tm") == 0
			}
			tf.Miss[0], tf.Miss[1] = false, false
		}
		m := base.withTarget(tf).asParsed()
		tf = m.F[len(m.F)-1]
		r.col = tf
		costs := map[string]float64{}
		for _, l := range tf.Cats {
			costs[l] = r.costs[l]
		}
		r.costs = costs
		g := &growArgs{r: r, m: m}
		dir, done := scratchDir()
		defer done()
		train, _ := writeData(t, dir, "train", m)
		args := []string{"-train", train, "-target", tf.Name, "-rfpred", "f.sf", "-nTrees", strconv.Itoa(rapid.IntRange(1, 9).Draw(t, "trees")), "-noseed",
			"-mTry", "2", "-leafSize", rapid.SampledFrom([]string{"1", "1", "2", "3"}).Draw(t, "leaf"), "-maxDepth", rapid.SampledFrom([]string{"0", "0", "2"}).Draw(t, "depth"),
			"-nCores", rapid.SampledFrom([]string{"1", "1", "3"}).Draw(t, "cores")}
		args = append(args, g.targetFlags()...)
		for _, x := range []string{"-splitmissing", "-nobag", "-extra", "-force", "-jungle"} {
			if rapid.IntRange(0, 3).Draw(t, x) == 0 {
				args = append(args, x)
			}
		}
		fresh := freshData(t, m, tf.Name)
		tested := m
		self := ""
		switch rapid.IntRange(0, 2).Draw(t, "self") {
		case 0:
			self = "-selftest"
			args = append(args, self)
		case 1:
			if fresh.feat(tf.Name) != nil && known(fresh.feat(tf.Name)) > 0 {
				self = "-test"
				tested = fresh
				name, _ := writeData(t, dir, "testdata", fresh)
				args = append(args, "-test", name)
			}
		}
		what := fmt.Sprintf("growforest %q on %v fresh %v", args, m, fresh)
		res := mustRun(t, dir, "growforest", args...)
		sf := loadSF(t, dir, "f.sf", what)
		if r.kind == "gradboost" {
			if sf.header == nil || sf.header["TARGET"] != tf.Name || !closeAt(sf.intercept, avgKnown(tf), maxAbs(tf.V)) {
				t.Fatalf("%s: header %v, mean of the target %v", what, sf.header, avgKnown(tf))
			}
		} else if sf.intercept != 0 {
			t.Fatalf("%s: intercept %v", what, sf.intercept)
		}
		if self != "" && r.kind != "gradboost" {
			checkSelfTest(t, what, res.stdout, sf, tested, tested.feat(tf.Name))
		}
		// apply the saved forest to training and fresh data in two layouts each
		split, differ := 0, map[string]bool{}
		for _, tr := range sf.trees {
			split += tr.root.splits()
		}
		for di, data := range []*mmat{m, fresh} {
			for lay := 0; lay < 2; lay++ {
				relaid := data
				if lay == 1 && rapid.Bool().Draw(t, "shuffle columns") {
					cpy := *data
					cpy.F = nil
					for _, j := range rapid.Permutation(seq(len(data.F))).Draw(t, "order") {
						cpy.F = append(cpy.F, data.F[j])
					}
					relaid = &cpy
				}
				if rapid.IntRange(0, 5).Draw(t, "without target") == 0 {
					cpy := *relaid
					cpy.F = nil
					for _, f := range relaid.F {
						if f.Name != tf.Name {
							cpy.F = append(cpy.F, f)
						}
					}
					if len(cpy.F) > 0 {
						relaid = &cpy
					}
				}
				for _, l := range applyAndCheck(t, dir, what, fmt.Sprintf("d%d%d", di, lay), relaid, tf, sf, r.kind) {
					differ[l] = true
				}
			}
		}
		c.Class("target %s", r.kind)
		c.Class("self test %s", self)
		if split > 0 && len(differ) > 1 {
			c.NT(fmt.Sprint(args), m.String(), fresh.String())
			c.Sample("%v on %v and %v", args, m, fresh)
		}
	})
}

func avgKnown(f *mfeat) float64 {
	s, n := 0.0, 0.0
	for i, x := range f.Miss {
		if !x {
			s += f.V[i]
			n++
		}
	}
	return s / n
}

// checkSelfTest compares the errors the growing tool prints with the votes of the saved trees.
func checkSelfTest(t *rapid.T, what, out string, sf *sfFile, data *mmat, tf *mfeat) {
	votes := make([][]mvote, data.N)
	refVotes(sf.trees, data, seq(data.N), votes)
	s, ok := printed(out, "Error")
	if !ok {
		t.Fatalf("%s: no error printed: %s", what, out)
	}
	got, err := strconv.ParseFloat(s, 64)
	if err != nil {
		t.Fatalf("%s: error %q", what, s)
	}
	if tf.Num {
		var list []string
		for i := range votes {
			mean, _, w := tallyNum(votes[i])
			if w == 0 {
				list = append(list, "NA")
			} else {
				list = append(list, fmt.Sprintf("%v", mean))
			}
		}
		if want, ok := unexplained(tf, list); ok && !close2(got, want, errTol(tf)) {
			t.Fatalf("%s: Error: %v, the votes %v for %v have %v", what, got, votes, tf, want)
		}
		return
	}
	// ties may go either way
	lo, hi := make([]string, data.N), make([]string, data.N)
	sure, maybe, all := 0, 0, 0
	for i, v := range votes {
		best, sums := tallyCat(v)
		if tf.Miss[i] {
			continue
		}
		all++
		truth := tf.str(i)
		top := 0
		for _, x := range sums {
			if x >= best-1e-9*best {
				top++
			}
		}
		if best > 0 && sums[truth] >= best-1e-9*best {
			maybe++
			lo[i] = truth
			if top == 1 {
				sure++
				hi[i] = truth
			}
		}
	}
	if a, b := balancedError(tf, lo), balancedError(tf, hi); got < a-1e-9 || got > b+1e-9 {
		t.Fatalf("%s: Error: %v, the votes %v for %v have between %v and %v", what, got, votes, tf, a, b)
	}
	l, ok := printed(out, "Classified")
	var x, y int
	var z float64
	if k, err := fmt.Sscanf(l, "%d / %d = %g", &x, &y, &z); !ok || err != nil || k != 3 || y != all || x < sure || x > maybe || !close2(z, float64(x)/float64(y), 1e-9) {
		t.Fatalf("%s: Classified: %q, between %d and %d of %d are right", what, l, sure, maybe, all)
	}
	checkLabelErrors(t, what, out, votes, tf)
}

// checkLabelErrors judges the per label figures of a self test, where they are printed.
func checkLabelErrors(t *rapid.T, what, out string, votes [][]mvote, tf *mfeat) {
	type count struct{ total, sure, maybe, predicted, wrong int }
	labels := map[string]*count{}
	for i := range tf.Miss {
		if !tf.Miss[i] {
			labels[tf.str(i)] = &count{}
		}
	}
	none, tied := 0, false
	for i, v := range votes {
		if tf.Miss[i] {
			continue
		}
		truth := labels[tf.str(i)]
		truth.total++
		best, sums := tallyCat(v)
		if best <= 0 {
			// votes without weight elect nobody in particular
			if len(v) == 0 {
				none++
			} else {
				tied = true
			}
			continue
		}
		var top []string
		for l, x := range sums {
			if x >= best-1e-9*best {
				top = append(top, l)
			}
		}
		for _, l := range top {
			if l == tf.str(i) {
				truth.maybe++
				if len(top) == 1 {
					truth.sure++
				}
			}
		}
		if len(top) > 1 {
			tied = true
		} else if p := labels[top[0]]; p != nil {
			p.predicted++
			if top[0] != tf.str(i) {
				p.wrong++
			}
		}
	}
	for l, n := range labels {
		var x, y int
		var z string
		if s, ok := printed(out, "Label "+l+" Missed/Actuall Rate"); ok {
			k, err := fmt.Sscanf(s, "%d / %d = %s", &x, &y, &z)
			f, err2 := strconv.ParseFloat(z, 64)
			if err != nil || err2 != nil || k != 3 || y != n.total || x < n.total-n.maybe || x > n.total-n.sure || !close2(f, float64(x)/float64(y), 1e-9) {
				t.Fatalf("%s: missed of label %q: %q, between %d and %d of %d are right", what, l, s, n.sure, n.maybe, n.total)
			}
		}
		if s, ok := printed(out, "Label "+l+" Percision (Actuall/Predicted)"); ok && !tied {
			k, err := fmt.Sscanf(s, "%d / %d = %s", &x, &y, &z)
			if err != nil || k != 3 || y != n.predicted || x != n.wrong && x != n.predicted-n.wrong {
				t.Fatalf("%s: predicted as label %q: %q, %d times and %d of them wrong", what, l, s, n.predicted, n.wrong)
			}
		}
	}
	var x int
	const head = "Couldn't predict "
	if i := strings.Index(out, head); i >= 0 {
		if _, err := fmt.Sscanf(out[i+len(head):], "%d", &x); err != nil || x < none || !tied && x != none {
			t.Fatalf("%s: %.40q, there are %d", what, out[i:], none)
		}
	} else if none > 0 {
		t.Fatalf("%s: %d cases without a prediction are not mentioned: %s", what, none, out)
	}
}

// applyAndCheck applies the saved forest to data and judges everything written; returns the predictions.
func applyAndCheck(t *rapid.T, dir, what, base string, data *mmat, trainTarget *mfeat, sf *sfFile, kind string) []string {
	name, labels := writeData(t, dir, base, data)
	args := []string{"-fm", name, "-rfpred", "f.sf", "-preds", base + ".tsv"}
	tf := data.feat(trainTarget.Name)
	numeric := trainTarget.Num
	how := rapid.SampledFrom([]string{"", "", "", "-mean", "-sum", "-mode", "-votes"}).Draw(t, "how "+base)
	if kind == "gradboost" && how != "-mode" {
		how = rapid.SampledFrom([]string{"-sum", "", "-expit"}).Draw(t, "gbt how")
	}
	switch how {
	case "":
	case "-mean":
		args = append(args, "-mean")
		numeric = true
	case "-sum":
		args = append(args, "-sum")
	case "-expit":
		args = append(args, "-sum", "-expit")
	case "-mode":
		args = append(args, "-mode")
		numeric = false
	case "-votes":
		if numeric {
			how = "" // vote totals are by class
		} else {
			args = append(args, "-votes", base+".votes")
		}
	}
	what = fmt.Sprintf("%s; applyforest %q on %v", what, args, data)
	res := mustRun(t, dir, "applyforest", args...)
	votes := make([][]mvote, data.N)
	refVotes(sf.trees, data, seq(data.N), votes)
	preds := readPreds(t, dir, base+".tsv", what, data.N)
	var list []string
	for i, p := range preds {
		ok := false
		switch {
		case how == "-sum" || how == "-expit":
			_, sum, _ := tallyNum(votes[i])
			_, tol := voteTol(votes[i])
			tol += 1e-14 * math.Abs(sf.intercept)
			sum += sf.intercept
			if how == "-expit" {
				sum = expit(sum)
				tol += 1e-14
			}
			x, err := strconv.ParseFloat(p.pred, 64)
			ok = err == nil && within(x, sum, tol)
		case numeric:
			ok = meanOK(votes[i], p.pred, sf.intercept, false)
		default:
			ok = modeOK(votes[i], p.pred)
		}
		if !ok || p.label != labels[i] || !actualOK(tf, i, p.actual) {
			t.Fatalf("%s: case %d is reported as %v, its votes are %v", what, i, p, votes[i])
		}
		list = append(list, p.pred)
	}
	if tf != nil && known(tf) > 0 && kind != "gradboost" && (how == "" || how == "-votes" || (how == "-mode") == !tf.Num && how != "-sum") && numeric == tf.Num {
		checkError(t, what, res.stdout, "Error", tf, list)
	}
	if how == "-votes" {
		checkVotes(t, dir, base+".votes", what, labels, votes)
	}
	return list
}

// checkVotes judges the table of vote totals.
func checkVotes(t *rapid.T, dir, name, what string, labels []string, votes [][]mvote) {
	text, ok := readFile(filepath.Join(dir, name))
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if !ok || len(lines) != len(votes)+1 {
		t.Fatalf("%s: vote file %q", what, text)
	}
	head := strings.Split(lines[0], "\t")
	seen := map[string]bool{}
	for _, h := range head[1:] {
		if seen[h] {
			t.Fatalf("%s: label %q twice in %q", what, h, text)
		}
		seen[h] = true
	}
	for i, v := range votes {
		_, sums := tallyCat(v)
		row := strings.Split(lines[i+1], "\t")
		if len(row) != len(head) || row[0] != labels[i] {
			t.Fatalf("%s: vote line %q for case %s", what, lines[i+1], labels[i])
		}
		for j, h := range head[1:] {
			x, err := strconv.ParseFloat(row[j+1], 64)
			if err != nil || !closeAt(x, sums[h], sums[h]) {
				t.Fatalf("%s: case %d has %v for %q, counted %s", what, i, sums[h], h, row[j+1])
			}
		}
		for l := range sums {
			if !seen[l] {
				t.Fatalf("%s: votes for %q are not in %q", what, l, text)
			}
		}
	}
}

// TestC25_AnyForest: applyforest on forests it did not grow itself.
func TestC25_AnyForest(t *testing.T) {
	forall(t, "trees have splits, and predictions differ between cases", 500, 7000, func(t *rapid.T, c *Case) {
		n := genSize(t, 1, 16, 80, 200)
		m := cliMatrix(t, n)
		num := rapid.Bool().Draw(t, "num")
		var tf *mfeat
		pred := numPred
		if num {
			tf = genNumFeat(t, rapid.SampledFrom([]string{"N:target", "target", "Nt"}).Draw(t, "tname"), n, true)
		} else {
			tf = genCatFeat(t, rapid.SampledFrom([]string{"C:target", "B:t", "target", "Nominal"}).Draw(t, "tname"), n, true, rapid.IntRange(1, 5).Draw(t, "k"), true)
			pred = catPred(append([]string{"elsewhere", "a,b"}, catLabels(4)...))
		}
		// names without type prefix only exist in ARFF; leave them out of the data then
		withT := strings.HasPrefix(tf.Name, "N:") || !num
		full := m
		if withT {
			full = m.withTarget(tf)
		}
		full = full.asParsed()
		vocab := full
		if rapid.IntRange(0, 3).Draw(t, "absent") == 0 {
			vocab = full.withTarget(genNumFeat(t, "N:absent", n, false)) // splits on it send every case to the missing branch
		}
		var trees []*mtree
		weighted := rapid.IntRange(0, 2).Draw(t, "weighted") == 0
		for k := rapid.IntRange(1, 5).Draw(t, "trees"); k > 0; k-- {
			tr := &mtree{target: tf.Name, weight: -1}
			if weighted {
				tr.weight = float64(rapid.IntRange(0, 12).Draw(t, "w")) / 4
			}
			tr.root = genTree(t, vocab, treeOpts{maxDepth: rapid.IntRange(0, 4).Draw(t, "depth"), missing: true, pred: pred, splits: 12})
			tr.root.walk(func(x *mnode, d int) {
				if x.leaf() && strings.Contains(x.pred, ",") {
					x.pred = strings.Replace(x.pred, ",", "", -1)
				}
			})
			trees = append(trees, tr)
		}
		header := ""
		sf := &sfFile{trees: trees}
		kind := "num"
		if num && rapid.IntRange(0, 2).Draw(t, "header") == 0 {
			sf.intercept = float64(rapid.IntRange(-8, 8).Draw(t, "intercept")) / 4
			header = fmt.Sprintf("FOREST=0,TARGET=%q,INTERCEPT=%v", tf.Name, sf.intercept)
			kind = "gradboost"
			if sf.intercept == 0 {
				kind = "num"
			}
		}
		dir, done := scratchDir()
		defer done()
		writeFile(dir, "f.sf", renderSF(trees, header))
		differ := map[string]bool{}
		trainT := *tf
		if !withT && num {
			// without the column, only the name says what kind of target it is
			trainT.Num = strings.HasPrefix(tf.Name, "N:")
		}
		for _, p := range applyAndCheck(t, dir, fmt.Sprintf("forest %s", renderSF(trees, header)), "data", full, &trainT, sf, kind) {
			differ[p] = true
		}
		splits := 0
		for _, tr := range trees {
			splits += tr.root.splits()
		}
		c.ClassIf(weighted, "weighted trees")
		c.ClassIf(sf.intercept != 0, "intercept")
		if splits > 0 && len(differ) > 1 {
			c.NT(full.String(), renderSF(trees, header))
			c.Sample("%s on %v", renderSF(trees, header), full)
		}
	})
}

// ---------------------------------------------------------------- C27

func readCounts(t *rapid.T, dir, name, what string) map[[2]int]int {
	text, ok := readFile(filepath.Join(dir, name))
	if !ok {
		t.Fatalf("%s: no %s", what, name)
	}
	out := map[[2]int]int{}
	for _, l := range strings.Split(text, "\n") {
		if l == "" {
			continue
		}
		var a, b, v int
		if k, err := fmt.Sscanf(l, "%d\t%d\t%d", &a, &b, &v); k != 3 || err != nil {
			t.Fatalf("%s: line %q of %s", what, l, name)
		}
		if _, dup := out[[2]int{a, b}]; dup {
			t.Fatalf("%s: second line %q in %s", what, l, name)
		}
		out[[2]int{a, b}] = v
	}
	return out
}

func diffCounts(a, b map[[2]int]int) string {
	for k, v := range a {
		if b[k] != v {
			return fmt.Sprintf("%v: %d or %d", k, v, b[k])
		}
	}
	for k, v := range b {
		if a[k] != v {
			return fmt.Sprintf("%v: %d or %d", k, a[k], v)
		}
	}
	return ""
}

func TestC27_CountsMatch(t *testing.T) {
	forall(t, "two cases share a leaf in one tree and not in another, and some case is dropped or many features are passed", 600, 8000, func(t *rapid.T, c *Case) {
		n := genSize(t, 1, 14, 80, 150)
		m := cliMatrix(t, n).asParsed()
		vocab := m
		if rapid.IntRange(0, 3).Draw(t, "absent") == 0 {
			vocab = m.withTarget(genNumFeat(t, "N:absent", n, false))
		}
		dir, done := scratchDir()
		defer done()
		data, _ := writeData(t, dir, "data", m)
		num := rapid.Bool().Draw(t, "numpred")
		var files []string
		var all []*mtree
		nf := rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "forests")
		for k := 0; k < nf; k++ {
			var trees []*mtree
			for j := rapid.IntRange(1, 4).Draw(t, "trees"); j > 0; j-- {
				tr := &mtree{target: "C:target", weight: -1}
				pred := catPred(catLabels(4))
				if num {
					pred = numPred
				}
				if rapid.IntRange(0, 3).Draw(t, "weighted") == 0 {
					tr.weight = 0.5
				}
				tr.root = genTree(t, vocab, treeOpts{maxDepth: rapid.IntRange(0, 5).Draw(t, "depth"), missing: true, pred: pred, splits: 15})
				trees = append(trees, tr)
			}
			name := fmt.Sprintf("f%d.sf", k)
			writeFile(dir, name, renderSF(trees, ""))
			files = append(files, name)
			all = append(all, trees...)
		}
		args := []string{"-fm", data, "-rfpred", strings.Join(files, ","), "-leaves", "leaves.tsv", "-threads", rapid.SampledFrom([]string{"1", "2", "4"}).Draw(t, "threads")}
		br, sp := rapid.IntRange(0, 3).Draw(t, "branches") > 0, rapid.Bool().Draw(t, "splits")
		if br {
			args = append(args, "-branches", "branches.tsv")
		}
		if sp {
			args = append(args, "-splits", "splits.json")
		}
		what := fmt.Sprintf("leafcount %q of %v on %v", args, all, m)
		for _, tr := range all {
			what += "\n" + tr.root.String()
		}
		mustRun(t, dir, "leafcount", args...)
		pairs, branches := map[[2]int]int{}, map[[2]int]int{}
		splits := map[string][]string{}
		dropped, passes := 0, 0
		for _, tr := range all {
			in := map[*mnode][]int{}
			for i := 0; i < n; i++ {
				path, leaf := tr.root.route(m, i)
				for _, x := range path {
					if x.leaf() {
						continue
					}
					for fi, f := range m.F {
						if f.Name == x.r.f.Name {
							branches[[2]int{i, fi}]++
							passes++
						}
					}
				}
				if leaf == nil {
					dropped++
					continue
				}
				in[leaf] = append(in[leaf], i)
			}
			for _, cs := range in {
				for _, a := range cs {
					for _, b := range cs {
						pairs[[2]int{a, b}]++
					}
				}
			}
			tr.root.walk(func(x *mnode, d int) {
				if x.leaf() {
					return
				}
				s := fmt.Sprintf("%v", x.r.val)
				if !x.r.f.Num {
					var l []string
					for k := range x.r.left {
						l = append(l, k)
					}
					sort.Strings(l)
					s = strings.Join(l, ",")
				}
				splits[x.r.f.Name] = append(splits[x.r.f.Name], s)
			})
		}
		if d := diffCounts(readCounts(t, dir, "leaves.tsv", what), pairs); d != "" {
			t.Fatalf("%s: leaf counts differ (reported or expected) %s", what, d)
		}
		if br {
			if d := diffCounts(readCounts(t, dir, "branches.tsv", what), branches); d != "" {
				t.Fatalf("%s: branch counts differ (reported or expected) %s", what, d)
			}
		}
		if sp {
			text, _ := readFile(filepath.Join(dir, "splits.json"))
			got := map[string][]string{}
			if err := json.Unmarshal([]byte(text), &got); err != nil {
				t.Fatalf("%s: splits %q: %v", what, text, err)
			}
			for _, x := range []map[string][]string{got, splits} {
				for k := range x {
					a, b := append([]string(nil), got[k]...), append([]string(nil), splits[k]...)
					f := vocab.feat(k)
					if f == nil {
						t.Fatalf("%s: splits on %q reported", what, k)
					}
					if !f.Num {
						for i := range a {
							l := strings.Split(a[i], ",")
							sort.Strings(l)
							a[i] = strings.Join(l, ",")
						}
					}
					sort.Strings(a)
					sort.Strings(b)
					if fmt.Sprintf("%q", a) != fmt.Sprintf("%q", b) {
						t.Fatalf("%s: splits on %s are %q, reported %q", what, k, b, a)
					}
				}
			}
		}
		mixed := false
		for k, v := range pairs {
			mixed = mixed || (k[0] != k[1] && v < len(all))
		}
		c.ClassIf(nf > 1, "several forests")
		c.ClassIf(dropped > 0, "dropped cases")
		if mixed && (dropped > 0 || passes > 10) {
			c.NT(what)
			c.Sample("%s", what)
		}
	})
}
