package cfverif

import (
	"math"
	"math/rand"
	"sort"
	"testing"

	CF "github.com/ryanbressler/CloudForest"
	"github.com/ryanbressler/CloudForest/sortby"
	"github.com/ryanbressler/CloudForest/stats"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C20 sampling

// band is a bound on |count - n*p| that a fair draw exceeds with probability below 1e-15.
func band(n int, p float64) float64 { return 9*math.Sqrt(float64(n)*p*(1-p)) + 12 }

func inBand(t *rapid.T, what string, got, n int, p float64) {
	if math.Abs(float64(got)-float64(n)*p) > band(n, p) {
		t.Fatalf("%s: drawn %d times out of %d, expected a rate of %.4f", what, got, n, p)
	}
}

func TestC20_WithReplacement(t *testing.T) {
	forall(t, "more than one case to draw from and at least one draw", 1500, 8000, func(t *rapid.T, c *Case) {
		total := genSize(t, 1, 40, 120, 500, 3000, 9000)
		n := rapid.SampledFrom([]int{0, 1, 2, 5, 17, 100, 4000}).Draw(t, "n")
		if n == 4000 && total > 40 {
			n = 60 * total
		}
		s := CF.SampleWithReplacment(n, total)
		if len(s) != n {
			t.Fatalf("asked for %d draws from %d cases, got %d", n, total, len(s))
		}
		cnt := make([]int, total)
		for _, x := range s {
			if x < 0 || x >= total {
				t.Fatalf("drew %d from %d cases", x, total)
			}
			cnt[x]++
		}
		if n >= 4000 {
			for i, k := range cnt {
				if k == 0 {
					t.Fatalf("case %d of %d never drawn in %d draws", i, total, n)
				}
				inBand(t, "case", k, n, 1/float64(total))
			}
		}
		if total > 1 && n > 0 {
			c.NT(total, n, s)
			c.Sample("%d draws from %d: %v", n, total, s)
		}
		c.ClassIf(n >= 4000, "rates checked")
	})
}

func TestC20_FirstN(t *testing.T) {
	forall(t, "a deck of at least two entries and at least one drawn", 3000, 20000, func(t *rapid.T, c *Case) {
		k := genSize(t, 1, 30, 100, 400, 2000)
		deck := genPerm(t, k+5, "perm")[:k]
		nconst := 0
		if rapid.Bool().Draw(t, "withConstants") {
			nconst = rapid.IntRange(0, k).Draw(t, "nconst")
		}
		var samples []int
		useSamples := rapid.IntRange(0, 3).Draw(t, "nilSamples") != 0
		rounds := rapid.IntRange(1, 4).Draw(t, "rounds")
		nt := false
		for r := 0; r < rounds; r++ {
			n := rapid.IntRange(0, k+2).Draw(t, "n")
			before := cp(deck)
			if useSamples {
				samples = []int{-7, -8}
				CF.SampleFirstN(&deck, &samples, n, nconst)
			} else {
				CF.SampleFirstN(&deck, nil, n, nconst)
			}
			if !sameMultiset(before, deck) {
				t.Fatalf("deck %v became %v after drawing %d (constants %d)", before, deck, n, nconst)
			}
			for i := k - nconst; i < k; i++ {
				if deck[i] != before[i] {
					t.Fatalf("constant entry %d moved: %v -> %v", i, before, deck)
				}
			}
			if !useSamples {
				continue
			}
			max := n
			if max > k-nconst {
				max = k - nconst
			}
			if len(samples) > max {
				t.Fatalf("drew %d entries, asked for %d of %d with %d constants", len(samples), n, k, nconst)
			}
			if nconst == 0 && len(samples) != max {
				t.Fatalf("drew %d entries, asked for %d of %d", len(samples), n, k)
			}
			seen := map[int]bool{}
			for i, x := range samples {
				if seen[x] {
					t.Fatalf("entry %d drawn twice: %v", x, samples)
				}
				seen[x] = true
				if deck[i] != x {
					t.Fatalf("drawn entries %v are not the first of the deck %v", samples, deck)
				}
				ok := false
				for _, y := range before[:k-nconst] {
					ok = ok || x == y
				}
				if !ok {
					t.Fatalf("drew %d which is not one of the non constant entries of %v (%d constants)", x, before, nconst)
				}
			}
			nt = nt || (k > 1 && len(samples) > 0)
		}
		if nt {
			c.NT(deck, nconst, rounds)
			c.Sample("deck %v constants %d after %d rounds", deck, nconst, rounds)
		}
		c.ClassIf(nconst > 0, "with known constants")
	})
}

func TestC20_FirstNRates(t *testing.T) {
	forall(t, "drawing fewer than all entries of a deck", 60, 400, func(t *rapid.T, c *Case) {
		k := genSize(t, 2, 9, 40, 100)
		n := rapid.IntRange(1, k).Draw(t, "n")
		reuse := rapid.Bool().Draw(t, "reuse")
		deck := seq(k)
		draws := 6000
		cnt := make([]int, k)
		first := make([]int, k)
		for i := 0; i < draws; i++ {
			if !reuse {
				deck = seq(k)
			}
			var s []int
			CF.SampleFirstN(&deck, &s, n, 0)
			for _, x := range s {
				cnt[x]++
			}
			if len(s) > 0 {
				first[s[0]]++
			}
		}
		for i := range cnt {
			if cnt[i] == 0 {
				t.Fatalf("entry %d of %d never drawn in %d draws of %d", i, k, draws, n)
			}
			inBand(t, "entry", cnt[i], draws, float64(n)/float64(k))
			inBand(t, "first entry", first[i], draws, 1/float64(k))
		}
		if n < k {
			c.NT(k, n, reuse)
			c.Sample("deck of %d, %d drawn, %d times: %v", k, n, draws, cnt)
		}
	})
}

func TestC20_Balanced(t *testing.T) {
	forall(t, "at least two classes with cases", 250, 1500, func(t *rapid.T, c *Case) {
		n := genSize(t, 1, 25, 100, 300)
		k := rapid.IntRange(1, 6).Draw(t, "k")
		many := 12000 // enough for every case to be drawn
		if 60*k*n > many {
			many = 60 * k * n
		}
		f := genCatFeat(t, "C:t", n, true, k, rapid.Bool().Draw(t, "appear"))
		byClass := map[int][]int{}
		for i := range f.Miss {
			if !f.Miss[i] {
				byClass[f.C[i]] = append(byClass[f.C[i]], i)
			}
		}
		if len(byClass) == 0 {
			return // nothing can be drawn
		}
		s := CF.NewBalancedSampler(f.cat())
		samples := make([]int, rapid.IntRange(0, 5).Draw(t, "old"), 50)
		for _, want := range []int{rapid.IntRange(0, 40).Draw(t, "draws"), many} {
			s.Sample(&samples, want)
			if len(samples) != want {
				t.Fatalf("asked for %d cases, got %d", want, len(samples))
			}
			cnt := make([]int, n)
			cls := map[int]int{}
			for _, x := range samples {
				if x < 0 || x >= n || f.Miss[x] {
					t.Fatalf("drew case %d, which has no known label (%v)", x, f)
				}
				cnt[x]++
				cls[f.C[x]]++
			}
			if want < many {
				continue
			}
			for k, cs := range byClass {
				inBand(t, "class "+f.Cats[k], cls[k], want, 1/float64(len(byClass)))
				for _, x := range cs {
					if cnt[x] == 0 {
						t.Fatalf("case %d of class %s never drawn in %d draws (%v)", x, f.Cats[k], want, f)
					}
					inBand(t, "case", cnt[x], want, 1/float64(len(byClass)*len(cs)))
				}
			}
		}
		// many small samples are no different from a large one
		if rapid.Bool().Draw(t, "small samples") {
			size := rapid.IntRange(1, 6).Draw(t, "size")
			cls, firsts, rounds := map[int]int{}, map[int]int{}, 4000
			for i := 0; i < rounds; i++ {
				s.Sample(&samples, size)
				for j, x := range samples {
					cls[f.C[x]]++
					if j == 0 {
						firsts[f.C[x]]++
					}
				}
			}
			for k := range byClass {
				inBand(t, "class in small samples "+f.Cats[k], cls[k], rounds*size, 1/float64(len(byClass)))
				inBand(t, "first class "+f.Cats[k], firsts[k], rounds, 1/float64(len(byClass)))
			}
			c.Class("small samples")
		}
		c.ClassIf(len(byClass) < len(f.Cats), "class without cases")
		c.ClassIf(f.hasMissing(), "missing labels")
		if len(byClass) > 1 {
			c.NT(f.String())
			c.Sample("%v", f)
		}
	})
}

func TestC20_SecondaryBalanced(t *testing.T) {
	forall(t, "at least two classes of both features with cases", 250, 1500, func(t *rapid.T, c *Case) {
		n := genSize(t, 1, 25, 100, 300)
		many := 16000 // enough for every case to be drawn
		if 240*n > many {
			many = 240 * n
		}
		f := genCatFeat(t, "C:t", n, true, rapid.IntRange(1, 4).Draw(t, "k"), rapid.Bool().Draw(t, "appear"))
		b := genCatFeat(t, "C:b", n, true, rapid.IntRange(1, 4).Draw(t, "kb"), rapid.Bool().Draw(t, "appearb"))
		by := map[int]map[int][]int{}
		cb := map[int]int{}
		total := 0
		for i := range f.Miss {
			if f.Miss[i] || b.Miss[i] {
				continue
			}
			if by[b.C[i]] == nil {
				by[b.C[i]] = map[int][]int{}
			}
			by[b.C[i]][f.C[i]] = append(by[b.C[i]][f.C[i]], i)
			cb[b.C[i]]++
			total++
		}
		if total == 0 {
			return
		}
		s := CF.NewSecondaryBalancedSampler(f.cat(), b.cat())
		samples := make([]int, rapid.IntRange(0, 5).Draw(t, "old"), 50)
		classes, empties := map[int]bool{}, false
		for _, want := range []int{rapid.IntRange(0, 40).Draw(t, "draws"), many} {
			s.Sample(&samples, want)
			if len(samples) != want {
				t.Fatalf("asked for %d cases, got %d", want, len(samples))
			}
			cnt := make([]int, n)
			for _, x := range samples {
				if x < 0 || x >= n || f.Miss[x] || b.Miss[x] {
					t.Fatalf("drew case %d, not known in both %v and %v", x, f, b)
				}
				cnt[x]++
			}
			if want < many {
				continue
			}
			for k, cells := range by {
				pb := float64(cb[k]) / float64(total)
				nb := 0
				for j, cs := range cells {
					classes[j] = true
					nc := 0
					for _, x := range cs {
						if cnt[x] == 0 {
							t.Fatalf("case %d never drawn in %d draws (%v by %v)", x, want, f, b)
						}
						inBand(t, "case", cnt[x], want, pb/float64(len(cells)*len(cs)))
						nc += cnt[x]
					}
					inBand(t, "class within", nc, want, pb/float64(len(cells)))
					nb += nc
				}
				empties = empties || len(cells) < len(f.Cats)
				inBand(t, "secondary class", nb, want, pb)
			}
		}
		if rapid.Bool().Draw(t, "small samples") {
			size := rapid.IntRange(1, 6).Draw(t, "size")
			type cell struct{ b, f int }
			cnt, firsts, rounds := map[cell]int{}, map[cell]int{}, 4000
			for i := 0; i < rounds; i++ {
				s.Sample(&samples, size)
				for j, x := range samples {
					cnt[cell{b.C[x], f.C[x]}]++
					if j == 0 {
						firsts[cell{b.C[x], f.C[x]}]++
					}
				}
			}
			for k, cells := range by {
				for j := range cells {
					p := float64(cb[k]) / float64(total) / float64(len(cells))
					inBand(t, "combination in small samples", cnt[cell{k, j}], rounds*size, p)
					inBand(t, "first combination", firsts[cell{k, j}], rounds, p)
				}
			}
			c.Class("small samples")
		}
		c.ClassIf(empties, "combination without cases")
		if len(by) > 1 && len(classes) > 1 {
			c.NT(f.String(), b.String())
			c.Sample("%v by %v", f, b)
		}
	})
}

// ---------------------------------------------------------------- C22 sorting

type pair struct {
	v float64
	c int
}

func sortedPairs(cases []int, vals []float64) []pair {
	out := make([]pair, len(cases))
	for i := range cases {
		out[i] = pair{vals[i], cases[i]}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].v != out[j].v {
			return out[i].v < out[j].v
		}
		return out[i].c < out[j].c
	})
	return out
}

func isNegZero(x float64) bool { return x == 0 && math.Signbit(x) }

func checkSorted(t *rapid.T, what string, inC []int, inV []float64, cases []int, vals []float64) {
	if len(cases) != len(inC) {
		t.Fatalf("%s: %d cases became %d", what, len(inC), len(cases))
	}
	n := len(cases)
	for i := 1; i < n; i++ {
		if vals[i-1] > vals[i] {
			t.Fatalf("%s: not in order at %d of %d: %v > %v", what, i, n, vals[i-1], vals[i])
		}
	}
	want, got := sortedPairs(inC, inV[:n]), sortedPairs(cases, vals[:n])
	for i := range want {
		if want[i] != got[i] {
			t.Fatalf("%s: the %d pairs of value and case changed: expected %v, found %v", what, n, want[i], got[i])
		}
	}
}

// killer builds McIlroy's adversary input for a quick sort that sorts with sort.Float64s-like pivots;
// approximated by the classical median-of-three killer permutation.
func killer(n int) []float64 {
	out := make([]float64, n)
	k := n / 2
	for i := 1; i <= k; i++ {
		if i%2 == 1 {
			out[i-1] = float64(i)
			if i < k {
				out[i] = float64(k + i)
			}
		}
		if k+i-1 < n {
			out[k+i-1] = float64(2 * i)
		}
	}
	return out
}

func genVals(t *rapid.T, n int) ([]float64, string) {
	shape := rapid.SampledFrom([]string{"random", "few", "equal", "sorted", "reversed", "organ", "sawtooth", "killer", "nearly", "two", "inf", "blocks", "pivots"}).Draw(t, "shape")
	v := make([]float64, n)
	switch shape {
	case "random":
		for i := range v {
			v[i] = rand.NormFloat64()
		}
	case "few":
		k := rapid.IntRange(1, 9).Draw(t, "k")
		for i := range v {
			v[i] = float64(rand.Intn(k))
		}
	case "equal":
		x := float64(rapid.IntRange(-3, 3).Draw(t, "x"))
		for i := range v {
			v[i] = x
		}
	case "sorted", "reversed", "nearly":
		step := rapid.IntRange(1, 7).Draw(t, "dup")
		for i := range v {
			v[i] = float64(i / step)
			if shape == "reversed" {
				v[i] = -v[i]
			}
		}
		if shape == "nearly" && n > 1 {
			for k := rapid.IntRange(1, 6).Draw(t, "swaps"); k > 0; k-- {
				i, j := rand.Intn(n), rand.Intn(n)
				v[i], v[j] = v[j], v[i]
			}
		}
	case "organ":
		for i := range v {
			v[i] = float64(i)
			if i > n/2 {
				v[i] = float64(n - i)
			}
		}
	case "sawtooth":
		p := rapid.IntRange(2, 50).Draw(t, "period")
		for i := range v {
			v[i] = float64(i % p)
		}
	case "killer":
		v = killer(n)
	case "two":
		for i := range v {
			v[i] = float64(rand.Intn(2))
		}
	case "inf":
		for i := range v {
			v[i] = []float64{math.Inf(1), math.Inf(-1), 0, math.MaxFloat64, -math.MaxFloat64, 5e-324, 1}[rand.Intn(7)]
		}
	case "blocks":
		b := rapid.IntRange(1, 40).Draw(t, "block")
		for i := range v {
			v[i] = float64(rand.Intn(20)*100 - i/b)
		}
	case "pivots":
		// many copies of one value, placed where a ninther looks, among distinct others
		for i := range v {
			v[i] = float64(i)
		}
		if n > 0 {
			for _, p := range []int{0, n / 8, n / 4, n / 2, n/2 - n/8, n/2 + n/8, n - 1, n - 1 - n/8, n - 1 - n/4} {
				if p >= 0 && p < n {
					v[p] = float64(n / 3)
				}
			}
		}
	}
	if shape != "inf" && rapid.IntRange(0, 3).Draw(t, "tiny") == 0 {
		for i := range v {
			v[i] *= 1e-13 // differences far below any tolerance still order
		}
		shape += " tiny"
	}
	return v, shape
}

func genLen(t *rapid.T) int {
	switch rapid.IntRange(0, 5).Draw(t, "lenClass") {
	case 0:
		return rapid.IntRange(0, 8).Draw(t, "n")
	case 1:
		return rapid.IntRange(7, 14).Draw(t, "n")
	case 2:
		return rapid.IntRange(38, 44).Draw(t, "n")
	case 3, 4:
		return rapid.IntRange(15, 400).Draw(t, "n")
	}
	if rapid.IntRange(0, 19).Draw(t, "huge") == 19 {
		return rapid.IntRange(4000, 60000).Draw(t, "n")
	}
	return rapid.IntRange(400, 4000).Draw(t, "n")
}

func TestC22_SortBy(t *testing.T) {
	forall(t, "at least two distinct values", 6000, 60000, func(t *rapid.T, c *Case) {
		n := genLen(t)
		vals, shape := genVals(t, n)
		cases := make([]int, n)
		rep := rapid.Bool().Draw(t, "repeats")
		for i := range cases {
			cases[i] = i*3 + 1
			if rep {
				cases[i] = rand.Intn(n)
			}
		}
		inC, inV := cp(cases), append([]float64(nil), vals...)
		extra := rapid.IntRange(0, 3).Draw(t, "extra")
		for i := 0; i < extra; i++ { // the values buffer may be longer than the list of cases
			vals = append(vals, -1e9+float64(i))
		}
		sortby.SortBy(&cases, &vals)
		checkSorted(t, shape, inC, inV, cases, vals)
		for i := 0; i < extra; i++ {
			if vals[n+i] != -1e9+float64(i) {
				t.Fatalf("value %d beyond the %d cases changed", i, n)
			}
		}
		for i := 1; i < n; i++ {
			if inV[i] != inV[0] {
				c.NT(shape, n, inV)
				c.Sample("%s n=%d %v", shape, n, inV)
				break
			}
		}
		c.Class("%s", shape)
		c.ClassIf(n > 40, "longer than 40")
	})
}

func TestC22_SmallComplete(t *testing.T) {
	// every arrangement of up to 8 values drawn from a small range is reachable by the generator
	forall(t, "at least two distinct values", 20000, 200000, func(t *rapid.T, c *Case) {
		n := rapid.IntRange(0, 20).Draw(t, "n")
		vals := make([]float64, n)
		for i := range vals {
			vals[i] = float64(rapid.IntRange(0, 5).Draw(t, "v"))
		}
		cases := seq(n)
		in := append([]float64(nil), vals...)
		sortby.SortBy(&cases, &vals)
		checkSorted(t, "small", seq(n), in, cases, vals)
		for i := 1; i < n; i++ {
			if in[i] != in[0] {
				c.NT(in)
				c.Sample("%v", in)
				break
			}
		}
	})
}

func TestC22_SortableFeature(t *testing.T) {
	forall(t, "at least two distinct values among the cases", 3000, 20000, func(t *rapid.T, c *Case) {
		n := 1 + genLen(t)
		col, shape := genVals(t, n)
		sf := &CF.SortableFeature{Vals: make([]float64, n)}
		rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
		nt := false
		for r := 0; r < rounds; r++ {
			k := rapid.IntRange(0, n).Draw(t, "k")
			cases := make([]int, k)
			for i := range cases {
				cases[i] = rand.Intn(n)
			}
			in := cp(cases)
			inV := make([]float64, k)
			for i := range in {
				inV[i] = col[in[i]]
			}
			before := append([]float64(nil), col...)
			sf.Load(&col, &cases)
			if sf.Len() != k {
				t.Fatalf("Len of %d loaded cases is %d", k, sf.Len())
			}
			how := rapid.SampledFrom([]string{"Sort", "sort.Sort"}).Draw(t, "how")
			if how == "Sort" {
				sf.Sort()
			} else {
				sort.Sort(sf)
			}
			checkSorted(t, how+" "+shape, in, inV, sf.Cases, sf.Vals[:k])
			checkSorted(t, how+" the list passed in "+shape, in, inV, cases, sf.Vals[:k])
			for i := range col {
				if col[i] != before[i] {
					t.Fatalf("sorting changed the column")
				}
			}
			for i := 1; i < k; i++ {
				nt = nt || inV[i] != inV[0]
			}
		}
		if nt {
			c.NT(col, rounds)
			c.Sample("%s n=%d rounds=%d", shape, n, rounds)
		}
	})
}

// ---------------------------------------------------------------- C23 t-test

func refMoments(x []float64) (m, v float64) {
	n := float64(len(x))
	// compensated two pass
	s, comp := 0.0, 0.0
	for _, a := range x {
		y := a - comp
		q := s + y
		comp = (q - s) - y
		s = q
	}
	m = s / n
	ss, d := 0.0, 0.0
	for _, a := range x {
		ss += (a - m) * (a - m)
		d += a - m
	}
	v = (ss - d*d/n) / (n - 1)
	return
}

// tUpper is P(T > t) for Student's t with df degrees of freedom: the integral of sin(w)^(df-1) over
// (0, w0), w0 = pi/2 - atan(|t|/sqrt(df)), by Simpson's rule after w = y^4 (smooth at 0 for any df).
func tUpper(t, df float64) float64 {
	lg := func(x float64) float64 { r, _ := math.Lgamma(x); return r }
	y0 := math.Pow(math.Pi/2-math.Atan(math.Abs(t)/math.Sqrt(df)), 0.25)
	f := func(y float64) float64 {
		if y <= 0 {
			return 0
		}
		return math.Pow(math.Sin(y*y*y*y), df-1) * 4 * y * y * y
	}
	// the integrand increases: leave out the part that contributes nothing
	lo, hi := 0.0, y0
	for i := 0; i < 60; i++ {
		if mid := (lo + hi) / 2; f(mid) < 1e-20*f(y0) {
			lo = mid
		} else {
			hi = mid
		}
	}
	const m = 20000
	h := (y0 - lo) / m
	s := f(lo) + f(y0)
	for i := 1; i < m; i++ {
		w := 4.0
		if i%2 == 0 {
			w = 2
		}
		s += w * f(lo+float64(i)*h)
	}
	whole := math.Sqrt(math.Pi) * math.Exp(lg(df/2)-lg((df+1)/2)) // integral over (0, pi)
	p := s * h / 3 / whole
	if t < 0 {
		return 1 - p
	}
	return p
}

func genSampleVals(t *rapid.T, label string) []float64 {
	n := rapid.SampledFrom([]int{2, 3, 4, 5, 8, 20, 60, 200, 2000}).Draw(t, label+"n")
	style := rapid.SampledFrom([]string{"few", "grid", "wide", "float", "tiny"}).Draw(t, label+"style")
	mu := float64(rapid.IntRange(-30, 30).Draw(t, label+"mu")) / 10
	x := make([]float64, n)
	for i := range x {
		if n > 100 {
			x[i] = mu + math.Round(1000*rand.NormFloat64())/1000
		} else if style == "tiny" {
			x[i] = mu + float64(rapid.IntRange(-50, 50).Draw(t, label))/1000
		} else {
			x[i] = mu + drawNum(t, style, label)
		}
	}
	return x
}

func TestC23_Moments(t *testing.T) {
	forall(t, "at least two distinct values", 4000, 30000, func(t *rapid.T, c *Case) {
		x := genSampleVals(t, "x")
		off := rapid.SampledFrom([]float64{0, 0, 0, 1000, -1e6, 1e9, 1e12}).Draw(t, "offset")
		for i := range x {
			x[i] += off
		}
		in := append([]float64(nil), x...)
		m, v, n := stats.MeanAndVar(&x)
		rm, rv := refMoments(in)
		ulp := math.Abs(off) * 1e-15
		top := 0.0
		for _, v := range in {
			top = math.Max(top, math.Abs(v))
		}
		if n != float64(len(in)) || math.Abs(m-rm) > 1e-12*math.Abs(rm)+ulp+1e-12+top*(1e-15+2e-16*n) {
			t.Fatalf("mean of %v is %v, reported %v (n=%v)", in, rm, m, n)
		}
		if math.Abs(v-rv) > 1e-9*rv+float64(len(in))*ulp*ulp*100+1e-15 || v < 0 {
			t.Fatalf("variance of %v is %v, reported %v", in, rv, v)
		}
		for i := range in {
			if in[i] != x[i] {
				t.Fatalf("sample changed")
			}
		}
		if rv > 0 {
			c.NT(in)
			c.Sample("%v", in)
		}
		c.ClassIf(off != 0, "far from zero")
	})
}

func TestC23_TTest(t *testing.T) {
	forall(t, "both samples have variance", 3000, 20000, func(t *rapid.T, c *Case) {
		a, b := genSampleVals(t, "a"), genSampleVals(t, "b")
		am, av := refMoments(a)
		bm, bv := refMoments(b)
		if av <= 1e-9*(am*am+1) || bv <= 1e-9*(bm*bm+1) {
			return
		}
		ac, bc := append([]float64(nil), a...), append([]float64(nil), b...)
		p, tt, df, mean := stats.Ttest(&ac, &bc)
		na, nb := float64(len(a)), float64(len(b))
		s := av/na + bv/nb
		wt := (am - bm) / math.Sqrt(s)
		wdf := s * s / (av*av/(na*na*(na-1)) + bv*bv/(nb*nb*(nb-1)))
		if math.Abs(tt-wt) > 1e-8*(1+math.Abs(wt)) {
			t.Fatalf("t of %v and %v is %v, reported %v", a, b, wt, tt)
		}
		if math.Abs(df-wdf) > 1e-8*(1+wdf) {
			t.Fatalf("degrees of freedom of %v and %v are %v, reported %v", a, b, wdf, df)
		}
		if math.Abs(mean-am) > 1e-10*(1+math.Abs(am)) {
			t.Fatalf("mean of %v is %v, reported %v", a, am, mean)
		}
		wp := tUpper(wt, wdf)
		if math.IsNaN(p) || p < -1e-9 || p > 1+1e-9 || math.Abs(p-wp) > 1e-6 || (wt > 0 && wp > 1e-200 && math.Abs(p-wp) > 1e-5*wp) {
			t.Fatalf("p for t=%v df=%v is %v, reported %v (samples %v and %v)", wt, wdf, wp, p, a, b)
		}
		// swap
		p2, t2, df2, mean2 := stats.Ttest(&bc, &ac)
		if math.Abs(t2+tt) > 1e-9*(1+math.Abs(tt)) || math.Abs(df2-df) > 1e-9*df || math.Abs(mean2-bm) > 1e-10*(1+math.Abs(bm)) {
			t.Fatalf("swapping the samples: t %v -> %v, df %v -> %v, mean %v (expected %v)", tt, t2, df, df2, mean2, bm)
		}
		if math.Abs(p+p2-1) > 2e-6 {
			t.Fatalf("p values of both directions are %v and %v", p, p2)
		}
		// shift
		d := rapid.SampledFrom([]float64{1, -8, 1024, -1e5, 1e7}).Draw(t, "shift")
		sa, sb := make([]float64, len(a)), make([]float64, len(b))
		for i := range a {
			sa[i] = a[i] + d
		}
		for i := range b {
			sb[i] = b[i] + d
		}
		p3, t3, df3, m3 := stats.Ttest(&sa, &sb)
		rel := 1e-8 + 1e-14*math.Abs(d)/math.Sqrt(s)*math.Sqrt(na+nb)*10
		if math.Abs(t3-tt) > rel*(1+math.Abs(tt)) || math.Abs(df3-df) > rel*10*df || math.Abs(p3-p) > 1e-6+rel || math.Abs(m3-d-am) > 1e-9*(1+math.Abs(am)+math.Abs(d)) {
			t.Fatalf("shifting both samples by %v: t %v -> %v, df %v -> %v, p %v -> %v", d, tt, t3, df, df3, p, p3)
		}
		// scale
		k := rapid.SampledFrom([]float64{0.5, 4, 1024, 1.0 / 4096, 65536}).Draw(t, "scale")
		for i := range a {
			sa[i] = a[i] * k
		}
		for i := range b {
			sb[i] = b[i] * k
		}
		p4, t4, df4, m4 := stats.Ttest(&sa, &sb)
		if math.Abs(t4-tt) > 1e-9*(1+math.Abs(tt)) || math.Abs(df4-df) > 1e-8*df || math.Abs(p4-p) > 1e-6 || math.Abs(m4-k*am) > 1e-9*k*(1+math.Abs(am)) {
			t.Fatalf("scaling both samples by %v: t %v -> %v, df %v -> %v, p %v -> %v", k, tt, t4, df, df4, p, p4)
		}
		c.NT(a, b)
		c.Sample("t=%v df=%v p=%v a=%v b=%v", tt, df, p, a, b)
		tr := wdf / (wt*wt + wdf)
		c.ClassIf(tr > 0.9, "small t branch")
		c.ClassIf(tr <= 0.9, "large t branch")
		c.ClassIf(wt < 0, "negative t")
		c.ClassIf(df > 1000, "many degrees of freedom")
		c.ClassIf(p < 1e-4, "p below 1e-4")
	})
}
