package cfverif

import (
	"fmt"
	"math"
	"strconv"
	"testing"

	CF "github.com/ryanbressler/CloudForest"
	"pgregory.net/rapid"
)

// rt is the reference model of a target: the column plus what the documentation defines for it.
type rt struct {
	kind    string
	col     *mfeat // the target column
	weights []float64
	costs   map[string]float64
	pos     string
	alpha   float64
	kappa   float64
	lr      float64
	others  []*mfeat // features a transduction target looks at
	beta    float64
	unlab   string
	mean    float64 // gradient boosting: mean removed from the values
	mk      func() CF.Target
	// crit: larger split values are better and are the gain themselves (no parent impurity)
	crit bool
}

var catKinds = []string{"gini", "entropy", "wrf", "regret", "dentropy", "adaboost", "adacost", "np", "hdist", "trans"}
var numKinds = []string{"num", "l1", "ordinal", "numada", "gradboost"}

func (r *rt) isNum() bool { return r.col.Num }

// scale bounds the magnitude of the numbers summed up in an impurity, for rounding error.
func (r *rt) scale(cases []int) float64 {
	if !r.isNum() {
		s := 1.0
		for _, c := range r.costs {
			s += c
		}
		return s + r.kappa
	}
	// deviations count, not distances from zero, which only matter where values are subtracted from means
	s, most, sum := 1.0, 1.0, 0.0
	if len(cases) == 0 {
		return s
	}
	m := r.avg(cases)
	for _, c := range cases {
		d := math.Abs(r.colv(c) - m)
		s += d * d
		most = math.Max(most, d)
		sum += math.Abs(r.col.V[c])
	}
	switch r.kind {
	case "num":
	case "gradboost":
		// residuals keep the rounding of the mean taken off
		for _, c := range cases {
			s += r.colv(c) * r.colv(c)
		}
	default:
		s += 1e-4 * sum * most
	}
	return s
}

// level is how far from zero the values are, squared.
func (r *rt) level(cases []int) float64 {
	s := r.scale(cases)
	if r.isNum() {
		for _, c := range cases {
			s += r.colv(c) * r.colv(c)
		}
	}
	return s
}

func (r *rt) colv(c int) float64 {
	if r.kind == "gradboost" {
		return r.col.V[c] - r.mean
	}
	return r.col.V[c]
}

func (r *rt) counts(cases []int) []int {
	cnt := make([]int, len(r.col.Cats))
	for _, c := range cases {
		cnt[r.col.C[c]]++
	}
	return cnt
}

func (r *rt) firstMode(cases []int) int {
	cnt := r.counts(cases)
	m := 0
	for k, v := range cnt {
		if v > cnt[m] {
			m = k
		}
	}
	return m
}

func (r *rt) avg(cases []int) float64 {
	first, s := r.colv(cases[0]), 0.0
	for _, c := range cases {
		s += r.colv(c) - first
	}
	return first + s/float64(len(cases))
}

func (r *rt) sse(cases []int) float64 {
	m := r.avg(cases)
	e := 0.0
	for _, c := range cases {
		d := r.colv(c) - m
		e += d * d
	}
	return e
}

// ordMode is the most frequent class number, the smallest on ties.
func (r *rt) ordMode(cases []int) float64 {
	cnt := map[int]int{}
	best, bc := 0, 0
	for _, c := range cases {
		cnt[int(r.col.V[c])]++
	}
	for k, v := range cnt {
		if v > bc || (v == bc && k < best) {
			best, bc = k, v
		}
	}
	return float64(best)
}

func spanOf(f *mfeat, cases []int) float64 {
	if f.Num {
		lo, hi, any := 0.0, 0.0, false
		for _, c := range cases {
			if f.Miss[c] {
				continue
			}
			v := f.V[c]
			if !any || v < lo {
				lo = v
			}
			if !any || v > hi {
				hi = v
			}
			any = true
		}
		return hi - lo
	}
	seen := map[int]bool{}
	for _, c := range cases {
		if !f.Miss[c] {
			seen[f.C[c]] = true
		}
	}
	return float64(len(seen))
}

// transDensity is the documented unsupervised term: product of non-zero spans over t*t.
func (r *rt) transDensity(cases []int) float64 {
	t := float64(len(cases))
	e := 1 / (t * t)
	for _, f := range r.others {
		if s := spanOf(f, cases); s > 0 && f.Name != r.col.Name {
			e *= s
		}
	}
	return e
}

func (r *rt) gini(cases []int) float64 {
	n := float64(len(cases))
	e := 1.0
	for _, v := range r.counts(cases) {
		p := float64(v) / n
		e -= p * p
	}
	return e
}

// imp is the impurity of a group by definition.
func (r *rt) imp(cases []int) float64 {
	n := float64(len(cases))
	switch r.kind {
	case "gini":
		return r.gini(cases)
	case "trans":
		if r.alpha == 0 {
			return r.gini(cases)
		}
		return r.gini(cases) + r.alpha*r.transDensity(cases)
	case "entropy", "dentropy":
		e := 0.0
		for k, v := range r.counts(cases) {
			if v == 0 {
				continue
			}
			p := float64(v) / n
			w := 1.0
			if r.kind == "dentropy" {
				w = r.costs[r.col.Cats[k]]
			}
			e -= w * p * math.Log(p)
		}
		return e
	case "wrf":
		tot, sq := 0.0, 0.0
		for k, v := range r.counts(cases) {
			w := r.costs[r.col.Cats[k]] * float64(v)
			tot += w
			sq += w * w
		}
		return 1 - sq/(tot*tot)
	case "regret":
		// cost of answering with the label whose misclassification would cost most, halved (a constant
		// factor of the implementation that no comparison depends on)
		tot, best := 0.0, 0.0
		for k, v := range r.counts(cases) {
			c := r.costs[r.col.Cats[k]] * float64(v)
			tot += c
			best = math.Max(best, c)
		}
		return (tot - best) / (2 * n)
	case "adaboost", "adacost":
		m := r.firstMode(cases)
		e := 0.0
		for _, c := range cases {
			if r.col.C[c] != m {
				w := r.weights[c]
				if r.kind == "adacost" {
					w *= r.costs[r.col.Cats[r.col.C[c]]]
				}
				e += w
			}
		}
		return e
	case "np":
		pos, neg, bestneg := 0.0, 0.0, 0.0
		lowerneg := false // an equally large negative class numbered before the positive one wins ties
		posi := -1
		for k, l := range r.col.Cats {
			if l == r.pos {
				posi = k
			}
		}
		for k, v := range r.counts(cases) {
			if k == posi {
				pos = float64(v)
			}
		}
		for k, v := range r.counts(cases) {
			if k != posi {
				neg += float64(v)
				bestneg = math.Max(bestneg, float64(v))
				if k < posi && float64(v) == pos/r.alpha {
					lowerneg = true
				}
			}
		}
		saysPos := pos/r.alpha > bestneg || (pos/r.alpha == bestneg && !lowerneg)
		if saysPos {
			return r.kappa * math.Max(neg/n-r.alpha, 0)
		}
		return pos / n
	case "hdist":
		return -1
	case "num":
		return r.sse(cases)
	case "l1":
		m := r.avg(cases)
		e := 0.0
		for _, c := range cases {
			e += math.Abs(r.col.V[c] - m)
		}
		return e / n
	case "ordinal":
		m := r.ordMode(cases)
		e := 0.0
		for _, c := range cases {
			d := r.col.V[c] - m
			e += d * d
		}
		return e / n
	case "numada":
		m := r.avg(cases)
		e := 0.0
		for _, c := range cases {
			e += r.weights[c] * math.Abs(r.col.V[c]-m)
		}
		return e
	case "gradboost":
		if s := r.sse(cases); s <= 1e-7 {
			return s
		}
		return -1
	}
	panic(r.kind)
}

// split is the impurity (or criterion) of a division by definition.
func (r *rt) split(l, rr, m []int) float64 {
	switch r.kind {
	case "hdist":
		lc, rc := r.counts(l), r.counts(rr)
		t0, t1 := float64(lc[0]+rc[0]), float64(lc[1]+rc[1])
		a := float64(lc[0])/t0 - float64(lc[1])/t1
		b := float64(rc[0])/t0 - float64(rc[1])/t1
		return a*a + b*b
	case "gradboost":
		nl, nr := float64(len(l)), float64(len(rr))
		d := r.avg(l) - r.avg(rr)
		return d * d * nl * nr / (nl + nr)
	}
	tot := float64(len(l) + len(rr) + len(m))
	e := float64(len(l))*r.imp(l) + float64(len(rr))*r.imp(rr)
	if len(m) > 0 {
		e += float64(len(m)) * r.imp(m)
	}
	return e / tot
}

// gain is the impurity decrease of a three way division by definition. For targets that score a split
// directly it is that score over the cases with a value, weighted by how many there are.
func (r *rt) gain(l, rr, m []int) float64 {
	if r.crit {
		nm := float64(len(l) + len(rr))
		return r.split(l, rr, nil) * nm / (nm + float64(len(m)))
	}
	all := append(append(append([]int(nil), l...), rr...), m...)
	return r.imp(all) - r.split(l, rr, m)
}

// okPred says whether pred is a right answer for the group by definition.
func (r *rt) okPred(cases []int, pred string) error {
	argmax := func(score func(k int) float64) error {
		best := math.Inf(-1)
		for k := range r.col.Cats {
			best = math.Max(best, score(k))
		}
		for k, l := range r.col.Cats {
			if l == pred {
				if close2(score(k), best, 1e-12) {
					return nil
				}
				return fmt.Errorf("predicts %q with score %v, best is %v", pred, score(k), best)
			}
		}
		return fmt.Errorf("predicts %q which is no category", pred)
	}
	number := func(want, tol float64) error {
		v, err := strconv.ParseFloat(pred, 64)
		if err != nil || math.Abs(v-want) > tol {
			return fmt.Errorf("predicts %q, want %v", pred, want)
		}
		return nil
	}
	var cnt []int
	if !r.isNum() {
		cnt = r.counts(cases)
	}
	tol := 1e-9 * (1 + math.Sqrt(r.level(cases)))
	switch r.kind {
	case "gini", "entropy", "adaboost", "adacost":
		return argmax(func(k int) float64 { return float64(cnt[k]) })
	case "trans":
		lab := 0
		for k, l := range r.col.Cats {
			if l != r.unlab {
				lab += cnt[k]
			}
		}
		return argmax(func(k int) float64 {
			if r.col.Cats[k] == r.unlab {
				if lab == 0 {
					return 1
				}
				return r.beta * float64(cnt[k])
			}
			return float64(cnt[k])
		})
	case "wrf", "regret":
		return argmax(func(k int) float64 { return float64(cnt[k]) * r.costs[r.col.Cats[k]] })
	case "np":
		return argmax(func(k int) float64 {
			if r.col.Cats[k] == r.pos {
				return float64(cnt[k]) / r.alpha
			}
			return float64(cnt[k])
		})
	case "dentropy":
		t, tot := 0.0, 0.0
		for k, l := range r.col.Cats {
			w := r.costs[l] * float64(cnt[k])
			if l == "True" {
				t += w
			}
			tot += w
		}
		return number(t/tot, 1e-9)
	case "hdist":
		p := 0.0
		for k, l := range r.col.Cats {
			if l == r.pos {
				p += float64(cnt[k])
			}
		}
		return number(p/float64(len(cases)), 1e-9)
	case "num", "l1", "numada", "gradboost":
		return number(r.avg(cases), tol)
	case "ordinal":
		ocnt := map[string]int{}
		best := 0
		for _, c := range cases {
			k := fmt.Sprintf("%v", r.col.V[c])
			ocnt[k]++
			if ocnt[k] > best {
				best = ocnt[k]
			}
		}
		if ocnt[pred] != best {
			return fmt.Errorf("predicts %q (%d times), most frequent occurs %d times", pred, ocnt[pred], best)
		}
		return nil
	}
	panic(r.kind)
}

// genTarget draws a target column without missing values, and the settings of the target.
func genTarget(t *rapid.T, n int, kinds []string) *rt {
	r := &rt{kind: rapid.SampledFrom(kinds).Draw(t, "target")}
	return genTargetKind(t, n, r, false)
}

func genTargetKind(t *rapid.T, n int, r *rt, missing bool) *rt {
	switch r.kind {
	case "num", "l1", "numada", "gradboost":
		styles := []string{"few", "grid", "float", "wide", "binary", "constant"}
		if r.kind != "gradboost" {
			styles = append(styles, "level", "far")
		}
		r.col = genNumFeatStyle(t, "N:target", n, missing, rapid.SampledFrom(styles).Draw(t, "tstyle"))
	case "ordinal":
		r.col = &mfeat{Name: "N:target", Num: true, Miss: genMiss(t, n, missing)}
		k := rapid.IntRange(1, 6).Draw(t, "nclass")
		s := source(t, n)
		for i := 0; i < n; i++ {
			v := 0.0
			if !r.col.Miss[i] {
				v = float64(s.int(0, k-1, "cls"))
			}
			r.col.V = append(r.col.V, v)
		}
	default:
		k := rapid.IntRange(2, 5).Draw(t, "ncls")
		if r.kind == "hdist" || r.kind == "dentropy" {
			k = 2
		}
		r.col = genCatFeat(t, "C:target", n, missing, k, false)
		if r.kind == "dentropy" {
			r.col.Cats = []string{"False", "True"}
		}
		r.costs = map[string]float64{}
		for _, l := range r.col.Cats {
			r.costs[l] = float64(rapid.IntRange(1, 16).Draw(t, "cost")) / 4
		}
		r.pos = rapid.SampledFrom(r.col.Cats).Draw(t, "pos")
		r.unlab = rapid.SampledFrom(r.col.Cats).Draw(t, "unlabeled")
		r.alpha = float64(rapid.IntRange(1, 8).Draw(t, "alpha")) / 8
		r.beta = float64(rapid.IntRange(0, 8).Draw(t, "beta")) / 8
		r.kappa = float64(rapid.IntRange(1, 40).Draw(t, "kappa")) / 8
	}
	r.lr = float64(rapid.IntRange(1, 16).Draw(t, "lr")) / 16
	wsum := 0.0
	uniform := rapid.Bool().Draw(t, "uniform")
	s := source(t, n)
	for i := 0; i < n; i++ {
		w := 1.0
		if !uniform {
			w = float64(s.int(1, 8, "w"))
		}
		wsum += w
		r.weights = append(r.weights, w)
	}
	for i := range r.weights {
		r.weights[i] /= wsum
	}
	if r.kind == "trans" {
		for j := 0; j < 2; j++ {
			if rapid.Bool().Draw(t, "onum") {
				r.others = append(r.others, genNumFeatStyle(t, fmt.Sprintf("N:o%d", j), n, true, rapid.SampledFrom([]string{"few", "grid", "constant", "micro", "nano", "float"}).Draw(t, "ostyle")))
			} else {
				r.others = append(r.others, genCatFeat(t, fmt.Sprintf("C:o%d", j), n, true, rapid.IntRange(1, 7).Draw(t, "ocats"), false))
			}
		}
		r.others = append(r.others, r.col)
		if rapid.IntRange(0, 3).Draw(t, "alpha0") == 0 {
			r.alpha = 0
		}
	}
	if r.kind == "gradboost" {
		s, cnt := 0.0, 0
		for i, v := range r.col.V {
			if !r.col.Miss[i] {
				s += v
				cnt++
			}
		}
		if cnt > 0 {
			r.mean = s / float64(cnt)
		}
	}
	r.crit = r.kind == "hdist" || r.kind == "gradboost"
	r.mk = func() CF.Target { return r.wrap(r.col.real()) }
	return r
}

// wrap makes the real target over a real column.
func (r *rt) wrap(f CF.Feature) CF.Target {
	switch r.kind {
	case "gini":
		return f.(*CF.DenseCatFeature)
	case "num":
		return f.(*CF.DenseNumFeature)
	case "entropy":
		return CF.NewEntropyTarget(f.(CF.CatFeature))
	case "wrf":
		return CF.NewWRFTarget(f.(CF.CatFeature), r.costs)
	case "regret":
		x := CF.NewRegretTarget(f.(CF.CatFeature))
		x.SetCosts(r.costs)
		return x
	case "dentropy":
		x := CF.NewDEntropyTarget(f.(CF.CatFeature))
		x.SetCosts(r.costs)
		return x
	case "adaboost":
		x := CF.NewAdaBoostTarget(f.(CF.CatFeature))
		copy(x.Weights, r.weights)
		return x
	case "adacost":
		x := CF.NewAdaCostTarget(f.(CF.CatFeature))
		x.SetCosts(r.costs)
		copy(x.Weights, r.weights)
		return x
	case "np":
		return CF.NewNPTarget(f.(CF.CatFeature), r.pos, r.alpha, r.kappa)
	case "hdist":
		return CF.NewHDistanceTarget(f.(CF.CatFeature), r.pos)
	case "trans":
		fs := []CF.Feature{}
		for _, o := range r.others {
			fs = append(fs, o.real())
		}
		return CF.NewTransTarget(f.(CF.CatFeature), &fs, r.unlab, r.alpha, r.beta, f.Length())
	case "l1":
		return &CF.L1Target{NumFeature: f.(CF.NumFeature)}
	case "ordinal":
		return CF.NewOrdinalTarget(f.(CF.NumFeature))
	case "numada":
		x := CF.NewNumAdaBoostTarget(f.(CF.NumFeature))
		copy(x.Weights, r.weights)
		return x
	case "gradboost":
		return CF.NewGradBoostTarget(f.(CF.NumFeature), r.lr)
	}
	panic(r.kind)
}

func allKinds() []string { return append(append([]string(nil), catKinds...), numKinds...) }

func (r *rt) String() string {
	return fmt.Sprintf("%s %v costs=%v pos=%q alpha=%v kappa=%v beta=%v weights=%v", r.kind, r.col, r.costs, r.pos, r.alpha, r.kappa, r.beta, r.weights)
}

// split3 draws a division of a bag into non-empty left, right and possibly empty missing groups.
func split3(t *rapid.T, bag []int) (l, r, m []int) {
	s := source(t, len(bag))
	for i, c := range bag {
		switch g := s.int(0, 4, "side"); {
		case i == 0 || (i != 1 && g <= 1):
			l = append(l, c)
		case i == 1 || g <= 3:
			r = append(r, c)
		default:
			m = append(m, c)
		}
	}
	return
}

func rotate(a []int, k int) []int {
	if len(a) == 0 {
		return nil
	}
	k %= len(a)
	return append(append([]int(nil), a[k:]...), a[:k]...)
}

func TestC09_ImpurityDefinitions(t *testing.T) {
	forall(t, "bag with at least two different target values", 6000, 60000, func(t *rapid.T, c *Case) {
		n := genSize(t, 2, 14, 100, 600)
		r := genTarget(t, n, allKinds())
		bag := genCases(t, n, 2, 20, true)
		tg := r.mk()
		counter := make([]int, tg.NCats())
		for i := range counter {
			counter[i] = 77 // stale scratch must not matter
		}
		tol := 1e-10 * r.scale(bag) * math.Max(1, float64(len(bag))/20)
		got := tg.Impurity(&bag, &counter)
		want := r.imp(bag)
		// a boosted residual counts as explained below 1e-7, give or take rounding
		either := r.kind == "gradboost" && math.Abs(r.sse(bag)-1e-7) <= tol
		if either && (got == -1 || math.Abs(got-r.sse(bag)) <= tol) {
			want = got
		}
		if !(math.Abs(got-want) <= tol) && !(math.IsNaN(got) && math.IsNaN(want)) {
			t.Fatalf("%v: impurity of %v is %v, by definition %v", r, bag, got, want)
		}
		rot := rotate(bag, rapid.IntRange(0, len(bag)).Draw(t, "rot"))
		if g2 := tg.Impurity(&rot, &counter); !(math.Abs(g2-got) <= tol) {
			t.Fatalf("%v: impurity of %v depends on the order of cases: %v and %v", r, bag, got, g2)
		}
		// a pure group
		pure := []int{bag[0], bag[0], bag[0]}
		if g := tg.Impurity(&pure, &counter); !r.crit && r.kind != "np" && !(r.kind == "trans" && r.alpha != 0) && math.Abs(g) > 1e-10*r.scale(pure) {
			t.Fatalf("%v: impurity of the pure group %v is %v", r, pure, g)
		}
		// a division
		l, rr, m := split3(t, bag)
		allocs := CF.NewBestSplitAllocs(40+2*n, tg)
		var mp *[]int
		if len(m) > 0 || rapid.Bool().Draw(t, "emptyM") {
			mp = &m
		}
		gs := tg.SplitImpurity(&l, &rr, mp, allocs)
		ws := r.split(l, rr, m)
		if !(math.Abs(gs-ws) <= tol) && !(math.IsNaN(gs) && math.IsNaN(ws)) {
			t.Fatalf("%v: split impurity of %v | %v | %v is %v, by definition %v", r, l, rr, m, gs, ws)
		}
		lab := map[string]bool{}
		for _, x := range bag {
			lab[r.col.str(x)] = true
		}
		c.Class("%s", r.kind)
		c.ClassIf(len(m) > 0, "with missing group")
		if len(lab) > 1 {
			c.NT(r.kind, r.col.String(), bag, l, rr, m)
			c.Sample("%v bag %v: impurity %v, split %v|%v|%v: %v", r, bag, got, l, rr, m, gs)
		}
	})
}

func TestC09_PredictionDefinitions(t *testing.T) {
	forall(t, "bag with at least two different target values", 5000, 50000, func(t *rapid.T, c *Case) {
		n := genSize(t, 1, 14, 100, 600)
		r := genTarget(t, n, allKinds())
		bag := genCases(t, n, 1, 20, true)
		tg := r.mk()
		keep := cp(bag)
		pred := tg.FindPredicted(bag)
		if err := r.okPred(keep, pred); err != nil {
			t.Fatalf("%v: cases %v: %v", r, keep, err)
		}
		if !sameMultiset(bag, keep) {
			t.Fatalf("%v: predicting changed the cases %v to %v", r, keep, bag)
		}
		if nf, ok := tg.(CF.NumFeature); ok && r.kind != "hdist" {
			if p := nf.Predicted(&bag); !close2(p, CF.ParseFloat(pred), 1e-12) {
				t.Fatalf("%v: Predicted %v but FindPredicted %q", r, p, pred)
			}
		}
		lab := map[string]bool{}
		for _, x := range bag {
			lab[r.col.str(x)] = true
		}
		c.Class("%s", r.kind)
		if len(lab) > 1 {
			c.NT(r.kind, r.col.String(), bag, r.costs)
			c.Sample("%v bag %v predicts %q", r, bag, pred)
		}
	})
}

// two-class gradient boosting: splits by the working target, leaves take a Newton step
func TestC09_TwoClassBoosting(t *testing.T) {
	forall(t, "bag with both classes", 3000, 30000, func(t *rapid.T, c *Case) {
		n := genSize(t, 2, 14, 100, 600)
		col := genCatFeat(t, "C:target", n, true, 2, false)
		cnt := [2]int{}
		var known []int
		for i := range col.C {
			if !col.Miss[i] {
				cnt[col.C[i]]++
				known = append(known, i)
			}
		}
		if cnt[0] == 0 || cnt[1] == 0 {
			return
		}
		pos := rapid.IntRange(0, 1).Draw(t, "pos")
		lr := float64(rapid.IntRange(1, 16).Draw(t, "lr")) / 16
		tg := CF.NewGradBoostClassTarget(col.cat(), lr, col.Cats[pos])
		score := make([]float64, n)
		for i := range score {
			score[i] = math.Log(float64(cnt[pos]) / float64(cnt[1-pos]))
		}
		for k := rapid.IntRange(0, 3).Draw(t, "rounds"); k > 0; k-- {
			ls := [][]int{nil, nil}
			s := source(t, n)
			for i := range score {
				j := s.int(0, 1, "in")
				ls[j] = append(ls[j], i)
			}
			ps := []string{}
			for j := range ls {
				v := float64(rapid.IntRange(-16, 16).Draw(t, "p")) / 8
				ps = append(ps, fmt.Sprint(v))
				for _, i := range ls[j] {
					score[i] += lr * v
				}
			}
			tg.Boost(&ls, &ps)
		}
		var bag []int
		for _, j := range genCases(t, len(known), 1, 20, true) {
			bag = append(bag, known[j])
		}
		sum, den, seen := 0.0, 0.0, [2]int{}
		for _, i := range bag {
			p := expit(score[i])
			y := 0.0
			if col.C[i] == pos {
				y = 1
			}
			sum += y - p
			den += p * (1 - p)
			seen[col.C[i]]++
		}
		pred := tg.FindPredicted(cp(bag))
		if v, err := strconv.ParseFloat(pred, 64); err != nil || !(math.Abs(v-sum/den) <= 1e-7*(1+math.Abs(sum/den))) {
			t.Fatalf("%v positive %q scores %v: cases %v predict %q, want %v/%v", col, col.Cats[pos], score, bag, pred, sum, den)
		}
		if v := tg.Predicted(&bag); !close2(v, CF.ParseFloat(pred), 1e-12) {
			t.Fatalf("%v: Predicted %v but FindPredicted %q", col, v, pred)
		}
		if len(bag) >= 2 {
			l, rr, m := split3(t, bag)
			mean := func(cs []int) (s float64) {
				for _, i := range cs {
					s -= expit(score[i])
					if col.C[i] == pos {
						s++
					}
				}
				return s / float64(len(cs))
			}
			allocs := CF.NewBestSplitAllocs(40+2*n, tg)
			nl, nr := float64(len(l)), float64(len(rr))
			d := mean(l) - mean(rr)
			want := d * d * nl * nr / (nl + nr)
			if got := tg.SplitImpurity(&l, &rr, &m, allocs); math.Abs(got-want) > 1e-9 {
				t.Fatalf("%v scores %v: split %v | %v | %v scores %v, want %v", col, score, l, rr, m, got, want)
			}
		}
		if seen[0] > 0 && seen[1] > 0 {
			c.NT(col.String(), pos, fmt.Sprint(score), bag)
			c.Sample("%v positive %q scores %v bag %v predicts %s", col, col.Cats[pos], score, bag, pred)
		}
	})
}

func TestC09_ColumnStatistics(t *testing.T) {
	forall(t, "column with a missing and two different known values", 3000, 30000, func(t *rapid.T, c *Case) {
		n := genSize(t, 1, 14, 100, 600)
		bag := genCases(t, n, 1, 20, true)
		if rapid.Bool().Draw(t, "isnum") {
			f := genNumFeat(t, "N:f", n, true)
			d := f.num()
			s, k := 0.0, 0
			sc := 1.0
			for _, i := range bag {
				if !f.Miss[i] {
					s += f.V[i]
					k++
					sc += f.V[i] * f.V[i]
				}
			}
			if k == 0 {
				return
			}
			m := s / float64(k)
			if g := d.Mean(&bag); !close2(g, m, 1e-11) {
				t.Fatalf("%v: mean of %v is %v, want %v", f, bag, g, m)
			}
			p := float64(rapid.IntRange(-20, 20).Draw(t, "p")) / 2
			e, ab := 0.0, 0.0
			for _, i := range bag {
				if !f.Miss[i] {
					e += (p - f.V[i]) * (p - f.V[i])
					ab += math.Abs(p - f.V[i])
				}
			}
			if g := d.Error(&bag, p); !close2(g, e/float64(k), 1e-11) {
				t.Fatalf("%v: squared error of %v against %v is %v, want %v", f, bag, p, g, e/float64(k))
			}
			if g := (&CF.L1Target{NumFeature: d}).Error(&bag, p); !close2(g, ab/float64(k), 1e-11) {
				t.Fatalf("%v: L1 error of %v against %v is %v, want %v", f, bag, p, g, ab/float64(k))
			}
			cnt := map[float64]int{}
			best := 0
			for _, i := range bag {
				if !f.Miss[i] {
					cnt[f.V[i]]++
					if cnt[f.V[i]] > best {
						best = cnt[f.V[i]]
					}
				}
			}
			if g := d.Mode(&bag); cnt[g] != best {
				t.Fatalf("%v: mode of %v is %v (%d times), but some value occurs %d times", f, bag, g, cnt[g], best)
			}
			c.Class("numerical")
			if f.hasMissing() && len(cnt) > 1 {
				c.NT(f.String(), bag, p)
				c.Sample("%v bag %v mean %v", f, bag, m)
			}
			return
		}
		f := genCatFeat(t, "C:f", n, true, rapid.IntRange(1, 6).Draw(t, "k"), false)
		d := f.cat()
		cnt := map[string]int{}
		best := 0
		for _, i := range bag {
			if !f.Miss[i] {
				cnt[f.str(i)]++
				if cnt[f.str(i)] > best {
					best = cnt[f.str(i)]
				}
			}
		}
		if best == 0 {
			return
		}
		if g := d.Mode(&bag); cnt[g] != best {
			t.Fatalf("%v: mode of %v is %q (%d times), but some label occurs %d times", f, bag, g, cnt[g], best)
		}
		if g := d.FindPredicted(cp(bag)); cnt[g] != best {
			t.Fatalf("%v: prediction for %v is %q (%d times), but some label occurs %d times", f, bag, g, cnt[g], best)
		}
		c.Class("categorical")
		if f.hasMissing() && len(cnt) > 1 {
			c.NT(f.String(), bag)
			c.Sample("%v bag %v", f, bag)
		}
	})
}

// moving groups of cases from right to left gives the same values as computing them from scratch
func TestC10_IncrementalMoves(t *testing.T) {
	forall(t, "at least two moves over a bag with two different target values", 4000, 40000, func(t *rapid.T, c *Case) {
		n := genSize(t, 2, 14, 100, 300)
		r := genTarget(t, n, allKinds())
		tg := r.mk()
		allocs := CF.NewBestSplitAllocs(60+2*n, tg)
		rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
		moves := 0
		diff := false
		var hist []string
		for round := 0; round < rounds; round++ {
			bag := genCases(t, n, 3, 24, true)
			for _, x := range bag {
				if r.col.str(x) != r.col.str(bag[0]) {
					diff = true
				}
			}
			var m []int
			var mp *[]int
			if rapid.IntRange(0, 2).Draw(t, "withM") == 0 {
				m = genCases(t, n, 1, 4, true)
				mp = &m
			}
			tol := 1e-10 * r.scale(append(cp(bag), m...)) * float64(len(bag))
			i := rapid.IntRange(1, len(bag)-1).Draw(t, "start")
			l, rr := bag[:i], bag[i:]
			got := tg.SplitImpurity(&l, &rr, mp, allocs)
			check := func() {
				want := r.split(l, rr, m)
				if !(math.Abs(got-want) <= tol) && !(math.IsNaN(got) && math.IsNaN(want)) {
					t.Fatalf("%v: after %v split %v | %v | %v evaluates to %v, from scratch %v", r, hist, l, rr, m, got, want)
				}
			}
			hist = append(hist, fmt.Sprintf("start %d/%d", i, len(bag)))
			check()
			for i < len(bag)-1 {
				k := rapid.IntRange(1, len(bag)-1-i).Draw(t, "move")
				if rapid.IntRange(0, 5).Draw(t, "stop") == 0 {
					break
				}
				mv := bag[i : i+k]
				i += k
				l, rr = bag[:i], bag[i:]
				got = tg.UpdateSImpFromAllocs(&l, &rr, mp, allocs, &mv)
				hist = append(hist, fmt.Sprintf("move %d", k))
				moves++
				check()
			}
		}
		c.Class("%s", r.kind)
		c.ClassIf(rounds > 1, "scratch reused")
		if moves >= 2 && diff {
			c.NT(r.kind, r.col.String(), hist)
			c.Sample("%v %v", r, hist)
		}
	})
}

// results do not depend on what the scratch space was used for before
func TestC10_ScratchReuse(t *testing.T) {
	forall(t, "dirty scratch space, feature with at least two values", 2500, 20000, func(t *rapid.T, c *Case) {
		n := genSize(t, 4, 16, 100, 300)
		r := genTarget(t, n, allKinds())
		m := genMat(t, matOpts{minN: n, maxN: n, minF: 2, maxF: 5, missing: true, maxCats: 8})
		tg := r.mk()
		used := CF.NewBestSplitAllocs(30+2*n, tg)
		k := rapid.IntRange(1, 6).Draw(t, "uses")
		var last string
		for j := 0; j < k; j++ {
			f := rapid.SampledFrom(m.F).Draw(t, "f")
			real := f.real()
			bag := genCases(t, n, 2, 30, true)
			leaf := rapid.IntRange(1, 3).Draw(t, "leaf")
			fresh := CF.NewBestSplitAllocs(30+2*n, r.mk())
			b1, b2 := cp(bag), cp(bag)
			cnt := make([]int, tg.NCats())
			p := tg.Impurity(&bag, &cnt)
			s1, d1, c1 := real.BestSplit(tg, &b1, p, leaf, false, used)
			s2, d2, c2 := real.BestSplit(tg, &b2, p, leaf, false, fresh)
			same := c1 == c2 && (d1 == d2 || math.IsNaN(d1) && math.IsNaN(d2)) && fmt.Sprint(s1) == fmt.Sprint(s2)
			if !same {
				t.Fatalf("%v: search %d on %v cases %v leaf %d: reused scratch gives %v %v %v, fresh %v %v %v", r, j, f, bag, leaf, s1, d1, c1, s2, d2, c2)
			}
			last = fmt.Sprint(f.Name, bag, s1, d1)
		}
		c.Class("%s", r.kind)
		if k > 1 {
			c.NT(r.kind, last, m.String())
			c.Sample("%v on %v: %s", r, m, last)
		}
	})
}
