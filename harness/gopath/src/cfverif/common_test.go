// Package cfverif holds property-based checks for github.com/ryanbressler/CloudForest.
// Every check drives the exported API (or the built command line tools) with generated inputs and
// compares against an oracle written here, independently of the code under test.
package cfverif

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	CF "github.com/ryanbressler/CloudForest"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- bookkeeping

type propStats struct {
	Name        string         `json:"name"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Hashes      []string       `json:"hashes"`
	Samples     []string       `json:"samples"`
	Classes     map[string]int `json:"classes"`
	seen        map[uint64]bool
	failed      bool
}

var (
	allStats []*propStats
	tier     = os.Getenv("CF_TIER")
	toolDir  = os.Getenv("CF_BIN")
	scratch  = os.Getenv("CF_SCRATCH")
	logBuf   = &syncBuf{}
)

type syncBuf struct {
	mu sync.Mutex
	b  strings.Builder
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b.Len() < 1<<16 {
		s.b.Write(p)
	}
	return len(p), nil
}

func TestMain(m *testing.M) {
	flag.Parse()
	log.SetOutput(logBuf)
	stdout := os.Stdout
	_ = stdout
	rc := m.Run()
	writeStats()
	os.Exit(rc)
}

func writeStats() {
	p := os.Getenv("CF_STATS")
	if p == "" {
		return
	}
	for _, s := range allStats {
		for h := range s.seen {
			s.Hashes = append(s.Hashes, strconv.FormatUint(h, 36))
		}
		sort.Strings(s.Hashes)
	}
	b, err := json.Marshal(map[string]interface{}{"props": allStats})
	if err == nil {
		os.WriteFile(p, b, 0o644)
	}
}

// Case collects what one generated case was.
type Case struct {
	st      *propStats
	nt      bool
	h       uint64
	sample  string
	classes []string
}

// NT marks the case non-trivial; args identify it for distinctness.
func (c *Case) NT(args ...interface{}) {
	c.nt = true
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|", c.h)
	fmt.Fprint(h, args...)
	c.h = h.Sum64()
}

// Class counts the case under a named class.
func (c *Case) Class(format string, args ...interface{}) {
	c.classes = append(c.classes, fmt.Sprintf(format, args...))
}

// ClassIf counts the case under a class when cond holds.
func (c *Case) ClassIf(cond bool, name string) {
	if cond {
		c.classes = append(c.classes, name)
	}
}

// Sample describes the case for the evidence file.
func (c *Case) Sample(format string, args ...interface{}) {
	if len(c.st.Samples) < 2 {
		c.sample = fmt.Sprintf(format, args...)
		if len(c.sample) > 1500 {
			c.sample = c.sample[:1500] + "..."
		}
	}
}

// quickFactor multiplies the numbers of cases of quick runs.
const quickFactor = 3

// forall runs the property on `quick` (or `thorough`, per shard) generated cases.
func forall(t *testing.T, rule string, quick, thorough int, f func(t *rapid.T, c *Case)) {
	st := &propStats{Name: t.Name(), Rule: rule, Classes: map[string]int{}, seen: map[uint64]bool{}}
	allStats = append(allStats, st)
	n := min(quickFactor*quick, thorough)
	if strings.HasPrefix(t.Name(), "TestC32") {
		n = quick // under the race detector
	}
	if tier == "thorough" {
		n = thorough
	}
	if v := os.Getenv("CF_CHECKS"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	defer func() {
		if t.Failed() {
			fmt.Printf("classes for %s: %v\n", t.Name(), st.Classes)
		}
	}()
	var started atomic.Int64
	stop := make(chan bool)
	defer close(stop)
	go watch(t.Name(), &started, stop)
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{st: st}
		started.Store(time.Now().UnixNano())
		defer started.Store(0)
		rand.Seed(int64(rapid.IntRange(1, 1<<30).Draw(rt, "rand.Seed")))
		f(rt, c)
		if st.failed {
			return
		}
		st.Evaluations++
		if c.nt {
			st.Nontrivial++
			st.seen[c.h] = true
			if c.sample != "" && len(st.Samples) < 2 {
				st.Samples = append(st.Samples, c.sample)
			}
		}
		for _, k := range c.classes {
			st.Classes[k]++
		}
	})
}

// watch ends the process as a failure (exit 1, no statistics) when the code under test does not come
// back from a case, or eats memory without bound. Ordinary cases take milliseconds and megabytes.
func watch(name string, started *atomic.Int64, stop chan bool) {
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-stop:
			return
		case <-tick.C:
		}
		s := started.Load()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		slow := s != 0 && time.Since(time.Unix(0, s)) > 150*time.Second
		if slow || ms.HeapAlloc > 5<<30 {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("--- FAIL: %s: case does not end (slow=%v heap=%d MB)\n%s\n", name, slow, ms.HeapAlloc>>20, buf)
			os.Exit(1)
		}
	}
}

// harnessErr reports a problem of the harness itself (never a violation).
func harnessErr(format string, args ...interface{}) {
	fmt.Printf("HARNESS-ERROR: "+format+"\n", args...)
	writeStats()
	os.Exit(3)
}

func knownFinding(id, what string) { fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what) }

// ---------------------------------------------------------------- table model

// mfeat is the reference model of one feature column.
type mfeat struct {
	Name string
	Num  bool
	V    []float64
	C    []int
	Cats []string
	Miss []bool
}

func (f *mfeat) hasMissing() bool {
	for _, m := range f.Miss {
		if m {
			return true
		}
	}
	return false
}

func (f *mfeat) str(i int) string {
	if f.Miss[i] {
		return "NA"
	}
	if f.Num {
		return fmt.Sprintf("%v", f.V[i])
	}
	return f.Cats[f.C[i]]
}

func (f *mfeat) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s[", f.Name)
	for i := range f.Miss {
		if i > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString(f.str(i))
	}
	sb.WriteString("]")
	if !f.Num {
		fmt.Fprintf(&sb, "cats=%v", f.Cats)
	}
	return sb.String()
}

type mmat struct {
	N      int
	F      []*mfeat
	Labels []string
}

func (m *mmat) String() string {
	s := make([]string, 0, len(m.F))
	for _, f := range m.F {
		s = append(s, f.String())
	}
	return fmt.Sprintf("n=%d {%s}", m.N, strings.Join(s, "; "))
}

func (m *mmat) feat(name string) *mfeat {
	for _, f := range m.F {
		if f.Name == name {
			return f
		}
	}
	return nil
}

// real builds the CloudForest feature the model denotes (through the exported struct, as the parsers do).
func (f *mfeat) real() CF.Feature {
	n := len(f.Miss)
	miss := append([]bool(nil), f.Miss...)
	if f.Num {
		v := make([]float64, n)
		for i := range v {
			if !f.Miss[i] {
				v[i] = f.V[i]
			}
		}
		return &CF.DenseNumFeature{NumData: v, Missing: miss, Name: f.Name, HasMissing: f.hasMissing()}
	}
	cm := &CF.CatMap{Map: map[string]int{}, Back: nil}
	for i, s := range f.Cats {
		cm.Map[s] = i
		cm.Back = append(cm.Back, s)
	}
	cd := make([]int, n)
	for i := range cd {
		if !f.Miss[i] {
			cd[i] = f.C[i]
		}
	}
	return &CF.DenseCatFeature{CatMap: cm, CatData: cd, Missing: miss, Name: f.Name, HasMissing: f.hasMissing()}
}

func (f *mfeat) num() *CF.DenseNumFeature { return f.real().(*CF.DenseNumFeature) }
func (f *mfeat) cat() *CF.DenseCatFeature { return f.real().(*CF.DenseCatFeature) }

func (m *mmat) real() *CF.FeatureMatrix {
	fm := &CF.FeatureMatrix{Map: map[string]int{}, CaseLabels: append([]string(nil), m.Labels...)}
	for i, f := range m.F {
		fm.Data = append(fm.Data, f.real())
		fm.Map[f.Name] = i
	}
	return fm
}

// afm renders the model as an AFM with features in rows.
func (m *mmat) afm() string {
	var sb strings.Builder
	sb.WriteString(".")
	for _, l := range m.Labels {
		sb.WriteString("\t" + l)
	}
	sb.WriteString("\n")
	for _, f := range m.F {
		sb.WriteString(f.Name)
		for i := 0; i < m.N; i++ {
			sb.WriteString("\t" + f.str(i))
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

// ---------------------------------------------------------------- generators

// numStyle selects the value distribution of a numerical column.
var numStyles = []string{"binary", "few", "grid", "wide", "constant", "float", "micro"}

// allStyles adds values around the tolerance for equal values, large neighbouring numbers, and infinities.
var allStyles = append([]string{"extreme"}, bigStyles...)

// bigStyles are those without infinities and numbers whose sums overflow.
var bigStyles = append([]string{"nano", "adjacent"}, numStyles...)

// src draws single small integers: from the test's choices, or, for tables too large to be made of such
// choices, from a stream of pseudo random numbers with a chosen seed.
type src struct {
	t *rapid.T
	r *rand.Rand
}

// smallTable is the number of cells of a column up to which each is a choice of its own.
const smallTable = 64

func source(t *rapid.T, n int) src {
	if n <= smallTable {
		return src{t: t}
	}
	// the choice is mixed with the stream of the test case: small choices are common
	return src{r: rand.New(rand.NewSource(int64(rapid.IntRange(1, 1<<30).Draw(t, "fill")) ^ rand.Int63()))}
}

func (s src) int(lo, hi int, label string) int {
	if s.r != nil {
		return lo + s.r.Intn(hi-lo+1)
	}
	return rapid.IntRange(lo, hi).Draw(s.t, label)
}

// genSize draws the size of a table: between lo and hi, and now and then far over it.
func genSize(t *rapid.T, lo, hi int, large ...int) int {
	if rapid.IntRange(0, 39).Draw(t, "large") == 39 {
		n := rapid.SampledFrom(large).Draw(t, "about")
		return n + rapid.IntRange(-n/8, n/8).Draw(t, "more")
	}
	return rapid.IntRange(lo, hi).Draw(t, "n")
}

// genPerm draws a permutation of 0 to n-1.
func genPerm(t *rapid.T, n int, label string) []int {
	if n > smallTable {
		return source(t, n).r.Perm(n)
	}
	return append([]int(nil), rapid.Permutation(seq(n)).Draw(t, label)...)
}

func drawNum(t *rapid.T, style, label string) float64 {
	return src{t: t}.num(style, label)
}

func (s src) num(style, label string) float64 {
	switch style {
	case "binary":
		return float64(s.int(0, 1, label))
	case "few":
		return float64(s.int(-2, 3, label))
	case "grid":
		return float64(s.int(-40, 40, label)) / 8
	case "wide":
		return float64(s.int(-1000000, 1000000, label)) / 16
	case "constant":
		return 3.5
	case "level":
		// small steps at a height whose squares leave no digits for them
		return 780561.561 + float64(s.int(-6, 6, label))/16
	case "far":
		return -1e9/7 + float64(s.int(0, 2, label))/16
	case "micro":
		// small units: values far below 1 that are still well over the tolerance for equal values apart
		return float64(s.int(-6, 6, label)) / 500000
	case "nano":
		// around the tolerance: neighbours are closer or farther apart than it, never just as far
		return 3e-6 + float64(s.int(-8, 8, label))*0.45e-7
	case "pico":
		// far closer than any tolerance
		return float64(s.int(-8, 8, label)) * 1e-15
	case "adjacent":
		// large numbers with few or no numbers in between
		x := []float64{1 << 53, 1 << 53, 3 << 55, -1 << 54, 1e17}[s.int(0, 4, label)]
		for k := s.int(0, 4, label+" step"); k > 0; k-- {
			x = math.Nextafter(x, math.Inf(1))
		}
		return x
	case "extreme":
		return []float64{math.Inf(-1), -math.MaxFloat64, -1e308, -1, 0, 2, 1e308, math.MaxFloat64, math.Inf(1)}[s.int(0, 8, label)]
	case "float":
		// fractions that need every digit to be told apart, at least 1e-3 apart
		return float64(s.int(-5000, 5000, label)) * math.Pi / 3000
	}
	panic(style)
}

// genMiss draws a missingness pattern: none, sparse, half, or heavy.
func genMiss(t *rapid.T, n int, allow bool) []bool {
	miss := make([]bool, n)
	if !allow {
		return miss
	}
	den := rapid.SampledFrom([]int{0, 0, 0, 0, 10, 10, 4, 4, 2, 2, -1, -2}).Draw(t, "missDen")
	switch {
	case den == 0 || n == 0:
		return miss
	case den < 0: // a single missing cell or a single known one
		k := rapid.SampledFrom([]int{0, n / 2, n - 1}).Draw(t, "single")
		for i := range miss {
			miss[i] = (i == k) == (den == -1)
		}
		return miss
	}
	s := source(t, n)
	for i := range miss {
		miss[i] = s.int(0, den-1, "miss") == 0
	}
	return miss
}

func genNumFeat(t *rapid.T, name string, n int, missing bool) *mfeat {
	style := rapid.SampledFrom(numStyles).Draw(t, "style")
	return genNumFeatStyle(t, name, n, missing, style)
}

func genNumFeatStyle(t *rapid.T, name string, n int, missing bool, style string) *mfeat {
	f := &mfeat{Name: name, Num: true, Miss: genMiss(t, n, missing), V: make([]float64, n)}
	s := source(t, n)
	for i := range f.V {
		if !f.Miss[i] {
			f.V[i] = s.num(style, "v")
		}
	}
	return f
}

var catWords = []string{"red", "green", "blue", "x y ", "A-1", "0", "1", "2.5", "true", "false", "a.b", "Z", "café", "o'k", "p+q", "na_", "nul", "N", "+", "#h"}

func catLabels(k int) []string {
	out := make([]string, k)
	for i := range out {
		if i < len(catWords) {
			out[i] = catWords[i]
		} else {
			out[i] = fmt.Sprintf("c%02d", i)
		}
	}
	return out
}

// genCatFeat draws a categorical column over k categories. Categories are numbered in order of first
// appearance (as the parsers do) when appear is true; otherwise some categories may have no case.
func genCatFeat(t *rapid.T, name string, n int, missing bool, k int, appear bool) *mfeat {
	labels := catLabels(k)
	if k > 2 && rapid.Bool().Draw(t, "rotLabels") {
		r := rapid.IntRange(0, k-1).Draw(t, "rot")
		labels = append(append([]string(nil), labels[r:]...), labels[:r]...)
	}
	f := &mfeat{Name: name, Miss: genMiss(t, n, missing), C: make([]int, n)}
	raw := make([]int, n)
	s := source(t, n)
	for i := range raw {
		if !f.Miss[i] {
			raw[i] = s.int(0, k-1, "c")
		}
	}
	if !appear {
		f.Cats = labels
		copy(f.C, raw)
		return f
	}
	idx := map[int]int{}
	for i, r := range raw {
		if f.Miss[i] {
			continue
		}
		j, ok := idx[r]
		if !ok {
			j = len(f.Cats)
			idx[r] = j
			f.Cats = append(f.Cats, labels[r])
		}
		f.C[i] = j
	}
	return f
}

type matOpts struct {
	minN, maxN   int
	minF, maxF   int
	missing      bool
	maxCats      int
	appear       bool
	numOnly      bool
	styles       []string
	namePrefixes bool
	large        []int // sizes to try now and then beyond maxN
}

func genMat(t *rapid.T, o matOpts) *mmat {
	n := 0
	if len(o.large) > 0 {
		n = genSize(t, o.minN, o.maxN, o.large...)
	} else {
		n = rapid.IntRange(o.minN, o.maxN).Draw(t, "n")
	}
	k := rapid.IntRange(o.minF, o.maxF).Draw(t, "nfeat")
	m := &mmat{N: n}
	for i := 0; i < n; i++ {
		m.Labels = append(m.Labels, fmt.Sprintf("case%d", i))
	}
	name := func(j int) string { return fmt.Sprintf("f%d", j) }
	switch rapid.IntRange(0, 7).Draw(t, "names") {
	case 0: // every name starts the next one
		name = func(j int) string { return "f" + strings.Repeat("0", j) }
	case 1: // or the target's
		name = func(j int) string {
			return []string{"targe", "Target", "target0", "target00"}[j%4] + strings.Repeat("_", j/4+j%2)
		}
	case 2: // or has what others start with inside
		name = func(j int) string {
			return []string{"fN:x", "fC:x", "B:x", "N:x", "C:x"}[j%5] + strings.Repeat("x", j/5)
		}
	}
	for j := 0; j < k; j++ {
		if o.numOnly || rapid.Bool().Draw(t, "isnum") {
			st := o.styles
			if st == nil {
				st = numStyles
			}
			m.F = append(m.F, genNumFeatStyle(t, "N:"+name(j), n, o.missing, rapid.SampledFrom(st).Draw(t, "style")))
		} else {
			mc := o.maxCats
			if mc == 0 {
				mc = 6
			}
			kc := rapid.IntRange(1, mc).Draw(t, "ncats")
			m.F = append(m.F, genCatFeat(t, "C:"+name(j), n, o.missing, kc, o.appear))
		}
	}
	return m
}

// genCases draws a list of case indexes, possibly with repeats (a bag), of at least min entries.
func genCases(t *rapid.T, n, min, max int, repeats bool) []int {
	if n > smallTable {
		s := source(t, n)
		if !repeats {
			p := s.r.Perm(n)
			return p[:s.int(min, n, "k")]
		}
		k := n
		if min != max || min != n {
			k = s.int(n/2, 2*n, "k")
		}
		out := make([]int, k)
		for i := range out {
			out[i] = s.int(0, n-1, "case")
		}
		return out
	}
	if !repeats {
		p := rapid.Permutation(seq(n)).Draw(t, "perm")
		lo := min
		if lo > n {
			lo = n
		}
		k := rapid.IntRange(lo, n).Draw(t, "k")
		return append([]int(nil), p[:k]...)
	}
	return rapid.SliceOfN(rapid.IntRange(0, n-1), min, max).Draw(t, "cases")
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// ---------------------------------------------------------------- small oracles

func sortedInts(a []int) []int {
	b := append([]int(nil), a...)
	sort.Ints(b)
	return b
}

func sameMultiset(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := sortedInts(a), sortedInts(b)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func close2(a, b, tol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol*(1+math.Abs(a)+math.Abs(b))
}

func sq(x float64) float64 { return x * x }

// closeAt compares results computed from terms as large as scale, up to rounding.
func closeAt(a, b, scale float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	return a == b || math.Abs(a-b) <= 1e-11*math.Abs(scale)
}

func within(a, b, tol float64) bool {
	return a == b || math.Abs(a-b) <= tol || math.IsNaN(a) && math.IsNaN(b)
}

// maxAbs is the largest magnitude of the values.
func maxAbs(v []float64) (m float64) {
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	return
}

func cp(a []int) []int { return append([]int(nil), a...) }

// ---------------------------------------------------------------- command line tools

type cmdResult struct {
	rc             int
	stdout, stderr string
}

// runTool runs one of the built command line tools in dir.
func runTool(dir, tool string, args ...string) cmdResult {
	return runToolEnv(dir, nil, tool, args...)
}

func runToolEnv(dir string, env []string, tool string, args ...string) cmdResult {
	bin := filepath.Join(toolDir, tool)
	if _, err := os.Stat(bin); err != nil {
		harnessErr("tool %s not built: %v", tool, err)
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var so, se strings.Builder
	cmd.Stdout = &so
	cmd.Stderr = &se
	if err := cmd.Start(); err != nil {
		harnessErr("cannot start %s: %v", tool, err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		rc := 0
		if err != nil {
			rc = 1
			if ee, ok := err.(*exec.ExitError); ok {
				rc = ee.ExitCode()
				if rc < 0 {
					harnessErr("%s killed by a signal: %v %s", tool, err, se.String())
				}
			}
		}
		return cmdResult{rc, so.String(), se.String()}
	case <-time.After(100 * time.Second):
		cmd.Process.Kill()
		<-done
		// ordinary runs take well under a second
		return cmdResult{-9, so.String(), se.String() + "\n(no answer within 100s, killed)"}
	}
}

var scratchN int

// scratchDir makes a fresh scratch directory; call the returned func to remove it.
func scratchDir() (string, func()) {
	base := scratch
	if base == "" {
		base = os.TempDir()
	}
	scratchN++
	d, err := os.MkdirTemp(base, "w")
	if err != nil {
		harnessErr("scratch: %v", err)
	}
	return d, func() { os.RemoveAll(d) }
}

func writeFile(dir, name, content string) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		harnessErr("write: %v", err)
	}
	return p
}

func readFile(p string) (string, bool) {
	b, err := os.ReadFile(p)
	return string(b), err == nil
}

// quiet runs f with the process's stdout redirected (some code under test prints to it).
func quiet(f func()) {
	old := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		f()
		return
	}
	os.Stdout = null
	defer func() { os.Stdout = old; null.Close() }()
	f()
}

var _ = io.Discard
