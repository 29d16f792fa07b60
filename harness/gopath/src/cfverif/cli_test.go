package cfverif

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	CF "github.com/ryanbressler/CloudForest"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- reading .sf text independently

type sfFile struct {
	header    map[string]string // nil without a FOREST line
	intercept float64
	trees     []*mtree
}

// sfFields cuts a line into key=value fields at commas outside of double quotes.
func sfFields(line string) map[string]string {
	out := map[string]string{}
	var cur strings.Builder
	quoted := false
	flush := func() {
		kv := strings.SplitN(cur.String(), "=", 2)
		cur.Reset()
		if len(kv) != 2 {
			return
		}
		v := kv[1]
		if len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"' {
			v = v[1 : len(v)-1]
		}
		out[kv[0]] = v
	}
	for _, c := range line {
		switch {
		case c == '"':
			quoted = !quoted
			cur.WriteRune(c)
		case c == ',' && !quoted:
			flush()
		default:
			cur.WriteRune(c)
		}
	}
	flush()
	return out
}

// parseSF reads the documented text format; an error says what is wrong with the text.
func parseSF(text string) (*sfFile, error) {
	out := &sfFile{}
	var nodes map[string]*mnode
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimRight(line, "\r")
		if line == "" {
			continue
		}
		f := sfFields(line)
		switch {
		case strings.HasPrefix(line, "FOREST="):
			out.header = f
			if v, ok := f["INTERCEPT"]; ok {
				x, err := strconv.ParseFloat(v, 64)
				if err != nil {
					return nil, fmt.Errorf("intercept in %q", line)
				}
				out.intercept = x
			}
		case strings.HasPrefix(line, "TREE="):
			tr := &mtree{target: f["TARGET"], weight: -1}
			if v, ok := f["WEIGHT"]; ok {
				x, err := strconv.ParseFloat(v, 64)
				if err != nil {
					return nil, fmt.Errorf("weight in %q", line)
				}
				tr.weight = x
			}
			out.trees = append(out.trees, tr)
			nodes = map[string]*mnode{}
		case strings.HasPrefix(line, "NODE="):
			if len(out.trees) == 0 {
				return nil, fmt.Errorf("node before a tree: %q", line)
			}
			p := f["NODE"]
			n := &mnode{path: p, pred: f["PRED"]}
			if s, ok := f["SPLITTER"]; ok {
				n.r = &rule{f: &mfeat{Name: s}}
				switch f["SPLITTERTYPE"] {
				case "NUMERICAL":
					x, err := strconv.ParseFloat(f["LVALUES"], 64)
					if err != nil {
						return nil, fmt.Errorf("threshold in %q", line)
					}
					n.r.f.Num, n.r.val = true, x
				case "CATEGORICAL":
					n.r.left = map[string]bool{}
					for _, l := range strings.Split(f["LVALUES"], ":") {
						n.r.left[l] = true
					}
				default:
					return nil, fmt.Errorf("split in %q", line)
				}
			}
			if nodes[p] != nil {
				return nil, fmt.Errorf("second node %q", line)
			}
			nodes[p] = n
			if p == "*" {
				out.trees[len(out.trees)-1].root = n
				continue
			}
			par := nodes[p[:len(p)-1]]
			if par == nil || par.leaf() {
				return nil, fmt.Errorf("node without a split above: %q", line)
			}
			switch p[len(p)-1] {
			case 'L':
				par.l = n
			case 'R':
				par.g = n
			case 'M':
				par.m = n
			default:
				return nil, fmt.Errorf("path in %q", line)
			}
		default:
			return nil, fmt.Errorf("unknown line %q", line)
		}
	}
	for i, tr := range out.trees {
		if tr.root == nil {
			return nil, fmt.Errorf("tree %d has no root", i)
		}
		var bad error
		tr.root.walk(func(n *mnode, d int) {
			if !n.leaf() && (n.l == nil || n.g == nil) {
				bad = fmt.Errorf("tree %d node %s has no left or right child", i, n.path)
			}
			if n.leaf() && n.pred == "" {
				bad = fmt.Errorf("tree %d leaf %s has no prediction", i, n.path)
			}
		})
		if bad != nil {
			return nil, bad
		}
	}
	return out, nil
}

// renderSF writes trees in the documented text format.
func renderSF(trees []*mtree, header string) string {
	var sb strings.Builder
	if header != "" {
		sb.WriteString(header + "\n")
	}
	for i, tr := range trees {
		fmt.Fprintf(&sb, "TREE=%d,TARGET=%q", i, tr.target)
		if tr.weight >= 0 {
			fmt.Fprintf(&sb, ",WEIGHT=%v", tr.weight)
		}
		sb.WriteString("\n")
		tr.root.walk(func(n *mnode, d int) {
			fmt.Fprintf(&sb, "NODE=%s", n.path)
			if n.leaf() {
				pred := n.pred
				if strings.TrimSpace(pred) != pred {
					pred = "\"" + pred + "\""
				}
				fmt.Fprintf(&sb, ",PRED=%s", pred)
			} else if n.r.f.Num {
				fmt.Fprintf(&sb, ",SPLITTER=\"%s\",SPLITTERTYPE=NUMERICAL,LVALUES=%v", n.r.f.Name, n.r.val)
			} else {
				var l []string
				for _, k := range n.r.f.Cats {
					if n.r.left[k] {
						l = append(l, k)
					}
				}
				fmt.Fprintf(&sb, ",SPLITTER=\"%s\",SPLITTERTYPE=CATEGORICAL,LVALUES=\"%s\"", n.r.f.Name, strings.Join(l, ":"))
			}
			sb.WriteString("\n")
		})
	}
	return sb.String()
}

// ---------------------------------------------------------------- data files

// asParsed numbers the categories as a parser does: in order of first appearance, none unused.
func (m *mmat) asParsed() *mmat {
	out := &mmat{N: m.N, Labels: m.Labels}
	for _, f := range m.F {
		g := *f
		if !f.Num {
			g.Cats, g.C = nil, make([]int, m.N)
			idx := map[int]int{}
			for i := 0; i < m.N; i++ {
				if f.Miss[i] {
					continue
				}
				k, ok := idx[f.C[i]]
				if !ok {
					k = len(g.Cats)
					idx[f.C[i]] = k
					g.Cats = append(g.Cats, f.Cats[f.C[i]])
				}
				g.C[i] = k
			}
		}
		g.Miss = append([]bool(nil), f.Miss...)
		out.F = append(out.F, &g)
	}
	return out
}

func (m *mmat) cells() [][]string {
	out := make([][]string, len(m.F))
	for j, f := range m.F {
		for i := 0; i < m.N; i++ {
			out[j] = append(out[j], f.str(i))
		}
	}
	return out
}

// arff renders the table as ARFF ('?' for missing).
func (m *mmat) arff() string {
	var sb strings.Builder
	sb.WriteString("@relation r\n\n")
	for _, f := range m.F {
		if f.Num {
			fmt.Fprintf(&sb, "@attribute %s numeric\n", f.Name)
		} else {
			fmt.Fprintf(&sb, "@attribute %s {%s}\n", f.Name, strings.Join(f.Cats, ","))
		}
	}
	sb.WriteString("\n@data\n")
	for i := 0; i < m.N; i++ {
		var row []string
		for _, f := range m.F {
			s := f.str(i)
			if f.Miss[i] {
				s = "?"
			}
			row = append(row, csvCell(s))
		}
		sb.WriteString(strings.Join(row, ",") + "\n")
	}
	return sb.String()
}

// writeData writes the table in a drawn layout and returns the file name and the labels cases get.
func writeData(t *rapid.T, dir, base string, m *mmat) (string, []string) {
	switch rapid.SampledFrom([]string{"rows", "rows", "cols", "arff"}).Draw(t, "layout "+base) {
	case "cols":
		writeFile(dir, base+".afm", renderCols(t, m, m.cells()))
		return base + ".afm", m.Labels
	case "arff":
		writeFile(dir, base+".arff", m.arff())
		labels := []string{}
		for i := 0; i < m.N; i++ {
			labels = append(labels, strconv.Itoa(i))
		}
		return base + ".arff", labels
	}
	writeFile(dir, base+".afm", renderRows(t, m, m.cells()))
	return base + ".afm", m.Labels
}

// ---------------------------------------------------------------- growforest command lines

// cliKinds are the targets growforest offers.
func cliKinds() []string {
	return []string{"gini", "gini", "entropy", "wrf", "regret", "dentropy", "np", "hdist", "trans", "num", "num", "l1", "ordinal",
		"adaboost", "adacost", "numada", "gradboost"}
}

func boosting(kind string) bool {
	return kind == "adaboost" || kind == "adacost" || kind == "numada" || kind == "gradboost"
}

func (g *growArgs) known() []int {
	var out []int
	for i, x := range g.r.col.Miss {
		if !x {
			out = append(out, i)
		}
	}
	return out
}

// genCli draws a growing problem as data files and command lines express it.
func genCli(t *rapid.T, kinds []string, modes bool) *growArgs {
	g := genGrowStyles(t, kinds, modes, bigStyles)
	if g.r.kind != "trans" && rapid.IntRange(0, 2).Draw(t, "tmiss") == 0 {
		for i := range g.r.col.Miss {
			g.r.col.Miss[i] = rapid.IntRange(0, 4).Draw(t, "tm") == 0
		}
		if len(g.known()) < 2 {
			g.r.col.Miss[0], g.r.col.Miss[1] = false, false
		}
	}
	g.m = g.m.asParsed()
	g.r.col = g.m.F[g.ti]
	if !g.r.isNum() && len(g.r.col.Cats) < 2 && (g.r.kind == "hdist" || g.r.kind == "dentropy" || g.r.kind == "np") {
		g.r.kind, g.r.crit = "gini", false
	}
	costs := map[string]float64{}
	for _, l := range g.r.col.Cats {
		costs[l] = g.r.costs[l]
	}
	g.r.costs = costs
	if len(g.r.col.Cats) > 0 {
		g.r.pos = rapid.SampledFrom(g.r.col.Cats).Draw(t, "pos")
		g.r.unlab = rapid.SampledFrom(g.r.col.Cats).Draw(t, "unlab")
	}
	if g.r.kind == "trans" {
		g.r.others = g.m.F
	}
	g.bag = g.known()
	return g
}

// targetFlags are the options that select the target.
func (g *growArgs) targetFlags() []string {
	js := func() string { b, _ := json.Marshal(g.r.costs); return string(b) }
	ff := func(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }
	switch g.r.kind {
	case "entropy":
		return []string{"-entropy"}
	case "wrf":
		return []string{"-rfweights", js()}
	case "regret":
		return []string{"-cost", js()}
	case "dentropy":
		return []string{"-dentropy", js()}
	case "np":
		return []string{"-NP", "-NP_pos", g.r.pos, "-NP_a", ff(g.r.alpha), "-NP_k", ff(g.r.kappa)}
	case "hdist":
		return []string{"-hellinger", "-positive", g.r.pos}
	case "trans":
		return []string{"-trans_unlabeled", g.r.unlab, "-trans_alpha", ff(g.r.alpha), "-trans_beta", ff(g.r.beta)}
	case "adaboost", "numada":
		return []string{"-adaboost"}
	case "adacost":
		return []string{"-adaboost", "-adacost", js()}
	case "gradboost":
		return []string{"-gbt", ff(g.r.lr)}
	case "l1":
		return []string{"-l1"}
	case "ordinal":
		return []string{"-ordinal"}
	}
	return nil
}

// modeFlags are the options of the split search.
func (g *growArgs) modeFlags() (out []string) {
	for _, x := range []struct {
		on bool
		f  string
	}{{g.splitmissing, "-splitmissing"}, {g.force, "-force"}, {g.vet, "-vet"}, {g.evaloob, "-evaloob"}, {g.xrandm, "-extra"}} {
		if x.on {
			out = append(out, x.f)
		}
	}
	return
}

// candFlags makes only the candidates usable, by any mix of blacklist, block and include expressions.
func (g *growArgs) candFlags(t *rapid.T, dir string) (out []string) {
	var no, yes []string
	for i, f := range g.m.F {
		switch {
		case i == g.ti:
		case containsInt(g.cands, i):
			yes = append(yes, f.Name)
		default:
			no = append(no, f.Name)
		}
	}
	re := func(names []string) string {
		var q []string
		for _, n := range names {
			q = append(q, regexp.QuoteMeta(n))
		}
		return "^(" + strings.Join(q, "|") + ")$"
	}
	if len(no) == 0 {
		switch rapid.IntRange(0, 3).Draw(t, "no exclusions") {
		case 0:
			out = append(out, "-blockRE", ".*target$") // never blocks the target itself
		case 1:
			out = append(out, "-includeRE", re(yes))
		}
		return
	}
	how := rapid.IntRange(1, 7).Draw(t, "how")
	if how&1 != 0 {
		lines := append([]string(nil), no...)
		if rapid.Bool().Draw(t, "odd lines") {
			lines = append(lines, "N:unknown", g.r.col.Name, no[0])
		}
		writeFile(dir, "black.txt", strings.Join(lines, "\n")+"\n")
		out = append(out, "-blacklist", "black.txt")
	}
	if how&2 != 0 {
		out = append(out, "-blockRE", re(no))
	}
	if how&4 != 0 {
		out = append(out, "-includeRE", re(yes))
	}
	return
}

// amount spells a number of things: as a count, or as a fraction of the total. Returns text and meaning.
func amount(t *rapid.T, what string, max, total int) (string, int) {
	if rapid.Bool().Draw(t, what+" as fraction") {
		hi := 20
		if total > 0 && 20*max/total > hi {
			hi = 20 * max / total
		}
		k := rapid.IntRange(1, hi).Draw(t, what+" 20ths")
		x := float64(k) / 20
		s := strconv.FormatFloat(x, 'f', 2, 64)
		if rapid.Bool().Draw(t, what+" short") {
			s = strings.TrimPrefix(s, "0")
		}
		// exact: ceil(k*total/20) unless rounding of the product decides
		want := (k*total + 19) / 20
		if got := int(math.Ceil(x * float64(total))); got != want {
			want = got // the decimal fraction is not exact in binary; both are the stated fraction
		}
		return s, want
	}
	n := rapid.IntRange(1, max).Draw(t, what)
	return strconv.Itoa(n), n
}

// printed finds the value of a "name : value" line.
func printed(out, name string) (string, bool) {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, name+": ") {
			return strings.TrimSpace(l[len(name)+2:]), true
		}
		if strings.HasPrefix(l, name+" : ") {
			return strings.TrimSpace(l[len(name)+3:]), true
		}
	}
	return "", false
}

// mustRun runs a tool that has to succeed.
func mustRun(t *rapid.T, dir, tool string, args ...string) cmdResult {
	res := runTool(dir, tool, args...)
	if res.rc != 0 {
		t.Fatalf("%s %q failed (%d): %s\n%s", tool, args, res.rc, tail(res.stderr, 1500), tail(res.stdout, 500))
	}
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func loadSF(t *rapid.T, dir, name, what string) *sfFile {
	text, ok := readFile(filepath.Join(dir, name))
	if !ok {
		t.Fatalf("%s: no forest written", what)
	}
	sf, err := parseSF(text)
	if err != nil {
		t.Fatalf("%s: %v in %s", what, err, tail(text, 2000))
	}
	return sf
}

// ---------------------------------------------------------------- C24

func TestC24_SettingsHonoured(t *testing.T) {
	forall(t, "the forest has several trees with splits", 400, 6000, func(t *rapid.T, c *Case) {
		g := genCli(t, cliKinds(), true)
		dir, done := scratchDir()
		defer done()
		if g.evaloob && boosting(g.r.kind) {
			g.evaloob = false
		}
		nTrees := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 13}).Draw(t, "nTrees")
		cores := rapid.SampledFrom([]int{1, 1, 2, 3, 8}).Draw(t, "cores")
		train, _ := writeData(t, dir, "train", g.m)
		args := []string{"-train", train, "-target", g.r.col.Name, "-rfpred", "f.sf", "-nTrees", strconv.Itoa(nTrees), "-nCores", strconv.Itoa(cores), "-noseed"}
		args = append(args, g.targetFlags()...)
		args = append(args, g.modeFlags()...)
		args = append(args, g.candFlags(t, dir)...)
		known := g.known()
		want := map[string]int{"nTrees": nTrees, "Non Target Features": len(g.cands), "non-missing cases": len(known)}

		g.mTry = int(math.Ceil(math.Sqrt(float64(len(g.cands)))))
		if rapid.Bool().Draw(t, "mTry given") {
			s, v := amount(t, "mTry", len(g.cands)+2, len(g.cands))
			args = append(args, "-mTry", s)
			g.mTry = v
		}
		want["mTry"] = g.mTry
		if g.mTry > len(g.cands) {
			g.mTry = len(g.cands)
		}
		g.leaf = 1
		switch {
		case boosting(g.r.kind):
			g.leaf = len(known) / 3
			if g.leaf < 1 {
				g.leaf = 1
			}
		case g.r.isNum():
			g.leaf = 4
		}
		if rapid.IntRange(0, 2).Draw(t, "leafSize given") > 0 {
			s, v := amount(t, "leafSize", 4, len(known))
			args = append(args, "-leafSize", s)
			g.leaf = v
		}
		want["leafSize"] = g.leaf
		if g.depth > 0 || rapid.Bool().Draw(t, "depth0") {
			args = append(args, "-maxDepth", strconv.Itoa(g.depth))
		}
		nobag := rapid.IntRange(0, 2).Draw(t, "nobag") > 0
		jungle := rapid.IntRange(0, 7).Draw(t, "jungle") == 0 // written as the trees that share their branches
		if jungle {
			args = append(args, "-jungle")
		}
		samples := len(known)
		if nobag {
			args = append(args, "-nobag")
		} else if rapid.Bool().Draw(t, "nSamples given") {
			s, v := amount(t, "nSamples", 2*len(known), len(known))
			args = append(args, "-nSamples", s)
			samples = v
		}
		want["nSamples"] = samples
		numeric := true // only numerical splits can be exported
		for _, ci := range g.cands {
			numeric = numeric && g.m.F[ci].Num
		}
		scikit := false
		for _, x := range []string{"-selftest", "-oob", "-oobpreds", "-importance", "-progress", "-scikitforest", "-test", "-balance"} {
			if rapid.IntRange(0, 4).Draw(t, x) > 0 {
				continue
			}
			switch x {
			case "-selftest", "-oob":
				if g.r.kind == "dentropy" || g.r.kind == "hdist" || g.r.kind == "gradboost" {
					continue
				}
				args = append(args, x)
			case "-progress":
				if g.r.kind == "dentropy" || g.r.kind == "hdist" || g.r.kind == "gradboost" {
					continue
				}
				args = append(args, x)
			case "-oobpreds", "-importance":
				args = append(args, x, "out"+x)
			case "-scikitforest":
				if numeric && !g.splitmissing {
					scikit = true
					args = append(args, x, "scikit.json")
				}
			case "-test":
				if g.r.kind == "dentropy" || g.r.kind == "hdist" || g.r.kind == "gradboost" {
					continue
				}
				args = append(args, x, train)
			case "-balance":
				if g.r.isNum() || nobag {
					break
				}
				args = append(args, x)
				var by []string // balancing by a feature does not make it a candidate
				for i, f := range g.m.F {
					both := false // a case to draw
					for _, j := range known {
						both = both || !f.Miss[j]
					}
					if i != g.ti && !f.Num && both {
						by = append(by, f.Name)
					}
				}
				if len(by) > 0 && rapid.Bool().Draw(t, "balanceby") {
					args = append(args, "-balanceby", rapid.SampledFrom(by).Draw(t, "by"))
				}
			}
		}
		what := fmt.Sprintf("growforest %q on %v", args, g.m)
		res := mustRun(t, dir, "growforest", args...)
		for name, v := range want {
			if s, ok := printed(res.stdout, name); !ok || s != strconv.Itoa(v) {
				t.Fatalf("%s: says %s : %q, want %d", what, name, s, v)
			}
		}
		sf := loadSF(t, dir, "f.sf", what)
		if len(sf.trees) != nTrees {
			t.Fatalf("%s: wrote %d trees", what, len(sf.trees))
		}
		if sf.header != nil && sf.header["TARGET"] != g.r.col.Name {
			t.Fatalf("%s: forest predicts %q", what, sf.header["TARGET"])
		}
		if scikit {
			text, _ := readFile(filepath.Join(dir, "scikit.json"))
			var ts []map[string]interface{}
			if err := json.Unmarshal([]byte(text), &ts); err != nil || len(ts) != nTrees {
				t.Fatalf("%s: %d scikit trees, %v", what, len(ts), err)
			}
		}
		splits := 0
		for i, tr := range sf.trees {
			if tr.target != g.r.col.Name {
				t.Fatalf("%s: tree %d predicts %q", what, i, tr.target)
			}
			if boosting(g.r.kind) != (tr.weight >= 0) {
				t.Fatalf("%s: tree %d has weight %v", what, i, tr.weight)
			}
			splits += tr.root.splits()
			if jungle {
				g.checkBaggedTree(t, what, i, tr.root, math.MaxInt32)
			} else if nobag {
				g.checkCliTree(t, what, i, tr.root)
			} else {
				g.checkBaggedTree(t, what, i, tr.root, samples)
			}
		}
		c.Class("target %s", g.r.kind)
		c.ClassIf(cores > 1, "several cores")
		c.ClassIf(nobag, "without bagging")
		c.ClassIf(jungle, "jungles")
		c.ClassIf(len(known) < g.m.N, "missing target values")
		c.ClassIf(len(g.cands) < g.ti, "excluded features")
		if nTrees > 1 && splits >= nTrees {
			c.NT(fmt.Sprint(args), g.m.String())
			c.Sample("%v on %v", args, g.m)
		}
	})
}

// checkCliTree judges a tree grown from all known cases.
func (g *growArgs) checkCliTree(t *rapid.T, what string, i int, root *mnode) {
	if boosting(g.r.kind) {
		// leaf sizes, features and depth; gains depend on the weights and residuals of the round
		g.checkBaggedTree(t, what, i, root, len(g.bag))
		in := members(root, g.m, g.bag)
		root.walk(func(n *mnode, d int) {
			if n.leaf() && len(in[n]) == 0 {
				t.Fatalf("%s: no case in leaf %s of tree %d %v", what, n.path, i, root)
			}
			if !n.leaf() {
				w := n.r.want(g.m.feat(n.r.f.Name), in[n])
				if len(w[0]) < g.leaf || len(w[1]) < g.leaf {
					t.Fatalf("%s: node %s of tree %d splits %v into %v: %v", what, n.path, i, in[n], w, root)
				}
			}
		})
		return
	}
	g.checkShape(t, root)
}

// checkBaggedTree judges what can be said without knowing the sample.
func (g *growArgs) checkBaggedTree(t *rapid.T, what string, i int, root *mnode, samples int) {
	leaves := 0
	root.walk(func(n *mnode, d int) {
		if n.leaf() {
			leaves++
			return
		}
		ok := false
		for _, ci := range g.cands {
			ok = ok || (g.m.F[ci].Name == n.r.f.Name && g.m.F[ci].Num == n.r.f.Num)
		}
		if !ok {
			t.Fatalf("%s: tree %d splits on %v: %v", what, i, n.r, root)
		}
		if g.depth > 0 && d >= g.depth {
			t.Fatalf("%s: tree %d is split at depth %d: %v", what, i, d, root)
		}
		if n.m != nil && !g.splitmissing {
			t.Fatalf("%s: tree %d has a missing branch: %v", what, i, root)
		}
		if !n.r.f.Num {
			cats := map[string]bool{}
			for _, l := range g.m.feat(n.r.f.Name).Cats {
				cats[l] = true
			}
			for l := range n.r.left {
				if !cats[l] {
					t.Fatalf("%s: tree %d splits on unknown label %q: %v", what, i, l, root)
				}
			}
		}
	})
	if !g.splitmissing && leaves > 1 && leaves*g.leaf > samples {
		t.Fatalf("%s: tree %d has %d leaves of at least %d cases from %d samples: %v", what, i, leaves, g.leaf, samples, root)
	}
}

// distinctCols makes a numerical column of n unequal values.
func distinctCol(t *rapid.T, name string, n int) *mfeat {
	f := &mfeat{Name: name, Num: true, Miss: make([]bool, n)}
	p := genPerm(t, n, name)
	for i := 0; i < n; i++ {
		f.V = append(f.V, float64(p[i])/4)
	}
	return f
}

// TestC24_FeaturesTried: mTry features are tried per split, no fewer and no more.
func TestC24_FeaturesTried(t *testing.T) {
	forall(t, "fewer features than there are have to be tried and the best is clear", 150, 2000, func(t *rapid.T, c *Case) {
		nf := rapid.IntRange(2, 6).Draw(t, "nf")
		n := rapid.SampledFrom([]int{8, 12, 16, 24}).Draw(t, "n")
		kinds := []string{"gini", "entropy", "num", "l1"}
		m := &mmat{N: n}
		for i := 0; i < n; i++ {
			m.Labels = append(m.Labels, fmt.Sprintf("s%d", i))
		}
		for j := 0; j < nf; j++ {
			if rapid.IntRange(0, 3).Draw(t, "cat") == 0 {
				m.F = append(m.F, genCatFeat(t, fmt.Sprintf("C:f%d", j), n, rapid.Bool().Draw(t, "mf"), rapid.IntRange(2, 5).Draw(t, "nc"), true))
			} else {
				m.F = append(m.F, genNumFeatStyle(t, fmt.Sprintf("N:f%d", j), n, rapid.Bool().Draw(t, "mf"), rapid.SampledFrom([]string{"few", "grid", "wide", "binary"}).Draw(t, "st")))
			}
		}
		g := &growArgs{m: m, leaf: 1, depth: 1}
		g.r = searchProblem(t, m.F[0], n, kinds)
		m.F = append(m.F, g.r.col)
		g.ti = nf
		g.m = m.asParsed()
		g.r.col = g.m.F[nf]
		g.cands = seq(nf)
		g.bag = seq(n)
		// what every feature offers at the root
		var offers []float64
		exact := true
		for j := 0; j < nf; j++ {
			one := *g
			one.cands = []int{j}
			b, ex := one.bestOffer(g.bag)
			exact = exact && ex
			offers = append(offers, b)
		}
		dir, done := scratchDir()
		defer done()
		train, _ := writeData(t, dir, "train", g.m)
		mTry := rapid.IntRange(1, nf).Draw(t, "mTry")
		spell := strconv.Itoa(mTry)
		if rapid.Bool().Draw(t, "fraction") {
			spell = fmt.Sprintf("%.4f", (float64(mTry)-0.5)/float64(nf))
		}
		trees := 120
		args := append([]string{"-train", train, "-target", g.r.col.Name, "-rfpred", "f.sf", "-nTrees", strconv.Itoa(trees), "-nobag", "-maxDepth", "1", "-leafSize", "1",
			"-mTry", spell, "-noseed", "-nCores", rapid.SampledFrom([]string{"1", "4"}).Draw(t, "cores")}, g.targetFlags()...)
		what := fmt.Sprintf("growforest %q on %v", args, g.m)
		mustRun(t, dir, "growforest", args...)
		sf := loadSF(t, dir, "f.sf", what)
		if len(sf.trees) != trees {
			t.Fatalf("%s: %d trees", what, len(sf.trees))
		}
		tol := 1e-7 + 2*gainTol(g.r, g.bag)
		pure := g.r.imp(g.bag) <= 1e-7
		usable := 0
		top, second := math.Inf(-1), math.Inf(-1)
		for _, o := range offers {
			if o > tol {
				usable++
			}
			if o > top {
				top, second = o, top
			} else if o > second {
				second = o
			}
		}
		roots := map[string]int{}
		best := 0
		for i, tr := range sf.trees {
			if tr.root.leaf() {
				roots["leaf"]++
				if !pure && exact && usable > nf-mTry {
					t.Fatalf("%s: tree %d is not split though any %d features include one offering a decrease: %v", what, i, mTry, offers)
				}
				continue
			}
			f := g.m.feat(tr.root.r.f.Name)
			roots[f.Name]++
			w := tr.root.r.want(f, g.bag)
			got := totalGain(g.r, f, g.bag, div{l: w[0], r: w[1], gnm: nmGain(g.r, w[0], w[1])})
			better := 0
			for _, o := range offers {
				if o > got+tol {
					better++
				}
			}
			for j, o := range offers {
				if g.m.F[j] == f && got > o+tol {
					exact = false // missing cases as a third group make more of a split than is counted as offered
				}
			}
			if exact && better > nf-mTry {
				t.Fatalf("%s: tree %d splits on %s with decrease %v, %d features offer more: %v", what, i, f.Name, got, better, offers)
			}
			if better == 0 {
				best++
			}
		}
		clear := exact && !pure && top > second+tol && top > tol
		if clear && mTry < nf {
			// each tree finds the best feature with probability mTry/nf
			p := float64(mTry) / float64(nf)
			if best == trees || math.Abs(float64(best)-p*float64(trees)) > 9*math.Sqrt(p*(1-p)*float64(trees))+1 {
				t.Fatalf("%s: the best feature is found by %d of %d trees, roots %v, offers %v", what, best, trees, roots, offers)
			}
			c.NT(fmt.Sprint(args), g.m.String())
			c.Sample("%v: offers %v roots %v", args, offers, roots)
		}
		c.ClassIf(mTry == nf, "all features tried")
		c.ClassIf(!clear, "no clear best")
	})
}

// TestC24_SampleSizes: trees are grown from the requested number of cases.
func TestC24_SampleSizes(t *testing.T) {
	forall(t, "a sample size smaller than the data is requested", 250, 3000, func(t *rapid.T, c *Case) {
		n := genSize(t, 3, 40, 100, 200)
		m := &mmat{N: n}
		for i := 0; i < n; i++ {
			m.Labels = append(m.Labels, fmt.Sprintf("s%d", i))
		}
		m.F = append(m.F, distinctCol(t, "N:id", n))
		num := rapid.Bool().Draw(t, "num")
		tc := uniqueTarget(t, n, num)
		known := 0
		for i := range tc.Miss {
			tc.Miss[i] = rapid.IntRange(0, 7).Draw(t, "tm") == 0
		}
		tc.Miss[0], tc.Miss[n-1] = false, false
		for _, x := range tc.Miss {
			if !x {
				known++
			}
		}
		m.F = append(m.F, tc)
		dir, done := scratchDir()
		defer done()
		train, _ := writeData(t, dir, "train", m.asParsed())
		nobag := rapid.Bool().Draw(t, "nobag")
		max := 3 * known
		if nobag {
			max = known
		}
		s, k := amount(t, "nSamples", max, known)
		trees := rapid.IntRange(1, 6).Draw(t, "trees")
		args := []string{"-train", train, "-target", tc.Name, "-rfpred", "f.sf", "-nTrees", strconv.Itoa(trees), "-leafSize", "1", "-nSamples", s, "-noseed",
			"-nCores", rapid.SampledFrom([]string{"1", "3"}).Draw(t, "cores")}
		if nobag {
			args = append(args, "-nobag")
		}
		what := fmt.Sprintf("growforest %q on %v", args, m)
		mustRun(t, dir, "growforest", args...)
		sf := loadSF(t, dir, "f.sf", what)
		if len(sf.trees) != trees {
			t.Fatalf("%s: %d trees", what, len(sf.trees))
		}
		for i, tr := range sf.trees {
			seen := map[string]int{}
			leaves := 0
			tr.root.walk(func(x *mnode, d int) {
				if x.leaf() {
					seen[x.pred]++
					leaves++
				}
			})
			for p, cnt := range seen {
				if cnt > 1 {
					t.Fatalf("%s: %d leaves of tree %d predict %s, the value of a single case: %v", what, cnt, i, p, tr.root)
				}
			}
			if nobag && leaves != k || leaves > k {
				t.Fatalf("%s: %d cases sampled, tree %d has %d leaves: %v", what, k, i, leaves, tr.root)
			}
			// a sample of k out of `known` with replacement has few distinct cases only by extreme chance
			if exp := float64(known) * (1 - math.Pow(1-1/float64(known), float64(k))); float64(leaves) < exp-9*math.Sqrt(float64(known))/2-1 {
				t.Fatalf("%s: tree %d of %d samples has %d leaves, about %.1f expected", what, i, k, leaves, exp)
			}
		}
		c.ClassIf(nobag, "without replacement")
		if k < known {
			c.NT(fmt.Sprint(args), m.String())
			c.Sample("%v on %v", args, m)
		}
	})
}

// TestC24_OutOfBagEvaluation: splits that hold up out of bag are still found when they are evaluated there,
// however the bag is made.
func TestC24_OutOfBagEvaluation(t *testing.T) {
	forall(t, "some of the cases are out of bag", 100, 1500, func(t *rapid.T, c *Case) {
		n := rapid.SampledFrom([]int{40, 60, 90}).Draw(t, "n")
		m := &mmat{N: n}
		x := &mfeat{Name: "N:x", Num: true, Miss: make([]bool, n), V: make([]float64, n)}
		num := rapid.Bool().Draw(t, "num")
		y := &mfeat{Name: "C:target", Cats: []string{"no", "yes"}, Miss: make([]bool, n), C: make([]int, n)}
		if num {
			y = &mfeat{Name: "N:target", Num: true, Miss: make([]bool, n), V: make([]float64, n)}
		}
		known := n
		for i, p := range rapid.Permutation(seq(n)).Draw(t, "order") {
			m.Labels = append(m.Labels, fmt.Sprintf("s%d", i))
			x.V[i] = float64(p)
			if num {
				y.V[i] = float64(p%2) / 4
				if p >= n/2 {
					y.V[i] += 10
				}
			} else if p >= n/2 {
				y.C[i] = 1
			}
			if p%10 == 3 && rapid.Bool().Draw(t, "tm") {
				y.Miss[i] = true
				known--
			}
		}
		m.F = append(m.F, x, y)
		dir, done := scratchDir()
		defer done()
		train, _ := writeData(t, dir, "train", m.asParsed())
		args := []string{"-train", train, "-target", y.Name, "-rfpred", "f.sf", "-nTrees", "6", "-leafSize", "1", "-mTry", "1", "-evaloob", "-noseed"}
		nobag := rapid.Bool().Draw(t, "nobag")
		if nobag {
			args = append(args, "-nobag", "-nSamples", rapid.SampledFrom([]string{".5", "20", ".7"}).Draw(t, "nSamples"))
		} else if rapid.Bool().Draw(t, "nSamples given") {
			args = append(args, "-nSamples", ".5")
		}
		for _, o := range []string{"-jungle", "-oob", "-splitmissing"} {
			if rapid.IntRange(0, 3).Draw(t, o) == 0 {
				args = append(args, o)
			}
		}
		what := fmt.Sprintf("growforest %q on %v", args, m)
		mustRun(t, dir, "growforest", args...)
		split := 0
		for _, tr := range loadSF(t, dir, "f.sf", what).trees {
			if !tr.root.leaf() {
				split++
			}
		}
		// both halves of the values are out of bag but by extreme chance
		if split < 5 {
			t.Fatalf("%s: only %d of 6 trees split on a feature that tells the target", what, split)
		}
		c.ClassIf(nobag, "without replacement")
		c.NT(fmt.Sprint(args), m.String())
		c.Sample("%v on %v", args, m)
	})
}

// uniqueTarget gives every case a value of its own.
func uniqueTarget(t *rapid.T, n int, num bool) *mfeat {
	if num {
		f := &mfeat{Name: "N:target", Num: true, Miss: make([]bool, n)}
		p := rapid.Permutation(seq(n)).Draw(t, "tperm")
		for i := 0; i < n; i++ {
			f.V = append(f.V, float64(p[i]))
		}
		return f
	}
	f := &mfeat{Name: "C:target", Miss: make([]bool, n)}
	for i := 0; i < n; i++ {
		f.C = append(f.C, i)
		f.Cats = append(f.Cats, fmt.Sprintf("u%d", i))
	}
	return f
}

// TestC24_Shuffles: only the features asked for are shuffled, and they really are.
func TestC24_Shuffles(t *testing.T) {
	forall(t, "a feature or the target is shuffled", 100, 1500, func(t *rapid.T, c *Case) {
		n := rapid.IntRange(60, 90).Draw(t, "n")
		num := rapid.Bool().Draw(t, "num")
		m := &mmat{N: n}
		for i := 0; i < n; i++ {
			m.Labels = append(m.Labels, fmt.Sprintf("s%d", i))
		}
		m.F = append(m.F, distinctCol(t, "N:alpha", n), distinctCol(t, "N:beta", n))
		by := rapid.IntRange(0, 1).Draw(t, "by")
		half := float64(n/2) / 4
		tc := &mfeat{Name: "C:target", Num: num, Miss: make([]bool, n), Cats: []string{"low", "high"}}
		if num {
			tc.Name = "N:target"
		}
		for i := 0; i < n; i++ {
			k := 0
			if m.F[by].V[i] >= half {
				k = 1
			}
			tc.C = append(tc.C, k)
			tc.V = append(tc.V, float64(k))
		}
		alike, opposed := true, true // the other feature tells the same two groups apart
		for i, k := range tc.C {
			other := m.F[1-by].V[i] >= half
			alike, opposed = alike && other == (k == 1), opposed && other != (k == 1)
		}
		if alike || opposed {
			t.Skip("both features inform")
		}
		m.F = append(m.F, tc)
		dir, done := scratchDir()
		defer done()
		train, _ := writeData(t, dir, "train", m)
		args := []string{"-train", train, "-target", tc.Name, "-rfpred", "f.sf", "-nTrees", "2", "-nobag", "-mTry", "2", "-leafSize", "1", "-noseed", "-selftest"}
		want := true // one split on the informative feature separates everything
		switch rapid.IntRange(0, 4).Draw(t, "how") {
		case 0:
			args = append(args, "-shuffleRE", []string{"alpha", "beta"}[by])
			want = false
		case 1:
			args = append(args, "-shuffleRE", []string{"alpha", "beta"}[1-by])
		case 2:
			args = append(args, "-shuffleRE", ".a.*")
			want = false
		case 3:
			args = append(args, "-permute")
			want = false
		case 4:
			args = append(args, "-shuffleRE", "target")
		}
		what := fmt.Sprintf("growforest %q on %v", args, m)
		res := mustRun(t, dir, "growforest", args...)
		// unequal values single out every case, whatever target it was given
		if s, ok := printed(res.stdout, "Error"); !ok || s != "0" {
			t.Fatalf("%s: fully grown trees have the error %q", what, s)
		}
		sf := loadSF(t, dir, "f.sf", what)
		if len(sf.trees) != 2 {
			t.Fatalf("%s: %d trees", what, len(sf.trees))
		}
		for _, tr := range sf.trees {
			one := tr.root.splits() == 1 && tr.root.r.f.Name == m.F[by].Name
			if one != want {
				t.Fatalf("%s: tree %v", what, tr.root)
			}
			if want {
				w := tr.root.r.want(m.F[by], seq(n))
				for _, i := range w[0] {
					if tc.C[i] != 0 {
						t.Fatalf("%s: tree %v puts case %d left", what, tr.root, i)
					}
				}
			}
		}
		c.Class("shuffled %v", !want)
		c.NT(fmt.Sprint(args), m.String())
		c.Sample("%v: %d splits", args, sf.trees[0].root.splits())
	})
}

// TestC24_BadRequests: what cannot be done is reported.
func TestC24_BadRequests(t *testing.T) {
	forall(t, "a request that cannot be satisfied", 80, 600, func(t *rapid.T, c *Case) {
		g := genCli(t, []string{"gini", "num"}, false)
		dir, done := scratchDir()
		defer done()
		train, _ := writeData(t, dir, "train", g.m)
		args := []string{"-train", train, "-target", g.r.col.Name, "-rfpred", "f.sf", "-nTrees", "2", "-noseed"}
		set := func(name, v string) {
			for i := range args {
				if args[i] == name {
					args[i+1] = v
					return
				}
			}
			args = append(args, name, v)
		}
		kinds := []string{"target", "train", "blacklist", "rfpred", "test", "testtarget", "flag", "output", "folder"}
		if !g.r.isNum() {
			kinds = append(kinds, "balanceby", "cost")
		}
		kind := rapid.SampledFrom(kinds).Draw(t, "bad")
		switch kind {
		case "target":
			set("-target", rapid.SampledFrom([]string{"N:nothing", "", "target"}).Draw(t, "name"))
		case "train":
			set("-train", "nothing.afm")
		case "blacklist":
			set("-blacklist", "nothing.txt")
		case "rfpred":
			set("-rfpred", "nodir/f.sf")
		case "output":
			set(rapid.SampledFrom([]string{"-importance", "-scikitforest"}).Draw(t, "which"), "nodir/out")
		case "folder":
			// what is there but can't be read or written as a file
			set(rapid.SampledFrom([]string{"-importance", "-scikitforest", "-rfpred", "-train", "-test", "-blacklist"}).Draw(t, "which"), ".")
		case "test":
			set("-test", "nothing.afm")
		case "testtarget":
			o := *g.m
			o.F = o.F[:g.ti]
			writeFile(dir, "other.afm", renderRows(t, &o, o.cells()))
			set("-test", "other.afm")
		case "balanceby":
			set("-balanceby", "C:nothing")
		case "cost":
			set(rapid.SampledFrom([]string{"-cost", "-rfweights", "-dentropy"}).Draw(t, "which"), "{broken")
		case "flag":
			args = append(args, rapid.SampledFrom([]string{"-nosuchflag", "-nTrees=x", "-nCores=many"}).Draw(t, "which"))
		}
		res := runTool(dir, "growforest", args...)
		if res.rc == 0 || strings.TrimSpace(res.stderr) == "" {
			t.Fatalf("growforest %q succeeds or is silent (%d): %s", args, res.rc, res.stdout)
		}
		if strings.Contains(res.stderr, "goroutine ") {
			t.Fatalf("growforest %q panics: %s", args, tail(res.stderr, 1500))
		}
		c.Class("%s", kind)
		c.NT(fmt.Sprint(args))
		c.Sample("%v: %s", args, tail(strings.TrimSpace(res.stderr), 200))
	})
}

// TestC24_Fractions: counts mean themselves and fractions that part of the total, rounded up.
func TestC24_Fractions(t *testing.T) {
	forall(t, "a fraction of a total above one", 20000, 200000, func(t *rapid.T, c *Case) {
		total := rapid.OneOf(rapid.IntRange(0, 30), rapid.IntRange(0, 100000)).Draw(t, "total")
		var term string
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0: // count
			k := rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 1<<30)).Draw(t, "count")
			if got := CF.ParseAsIntOrFractionOfTotal(strconv.Itoa(k), total); got != k {
				t.Fatalf("%d of %d is %d", k, total, got)
			}
			return
		case 1: // nothing usable
			term = rapid.SampledFrom([]string{"", ".", "x", "1.x", "half", "1.5.2", "--1", "1,5", " "}).Draw(t, "bad")
			if got := CF.ParseAsIntOrFractionOfTotal(term, total); got != 0 {
				t.Fatalf("%q of %d is %d", term, total, got)
			}
			return
		case 2: // just over a whole number of cases
			k := rapid.IntRange(0, 40).Draw(t, "k")
			term = strconv.FormatFloat((float64(k)+rapid.SampledFrom([]float64{1e-6, 1e-4, 1e-3, .999, .9999}).Draw(t, "over"))/float64(total+1), 'f', -1, 64)
			total++
		default:
			term = rapid.SampledFrom([]string{"", "0", "1", "2"}).Draw(t, "int") + "." + rapid.StringMatching("[0-9]{1,6}").Draw(t, "digits")
		}
		if !strings.Contains(term, ".") {
			return
		}
		frac, ok := new(big.Rat).SetString(term)
		if !ok {
			t.Fatalf("harness: %q", term)
		}
		frac.Mul(frac, big.NewRat(int64(total), 1))
		exact, _ := frac.Float64()
		want := int(math.Ceil(exact))
		got := CF.ParseAsIntOrFractionOfTotal(term, total)
		near := math.Abs(exact-math.Round(exact)) < 1e-9*(1+exact)
		if got != want && !(near && (got == int(math.Round(exact)) || got == int(math.Round(exact))+1)) {
			t.Fatalf("%q of %d is %d, want %v rounded up", term, total, got, exact)
		}
		if total > 1 {
			c.NT(term, total)
			c.Sample("%q of %d: %d", term, total, got)
		}
	})
}

// TestC24_BadRequestsOfTools: the other tools report what cannot be done too.
func TestC24_BadRequestsOfTools(t *testing.T) {
	forall(t, "a request that cannot be satisfied", 120, 1200, func(t *rapid.T, c *Case) {
		g := genCli(t, []string{"gini", "num"}, false)
		dir, done := scratchDir()
		defer done()
		train, _ := writeData(t, dir, "train", g.m)
		target := g.r.col.Name
		mustRun(t, dir, "growforest", "-train", train, "-target", target, "-rfpred", "f.sf", "-nTrees", "2", "-noseed")
		num := func(l ...string) []string { return l }
		var tool string
		var args []string
		var bad []string // flags that can be given something unusable
		switch rapid.IntRange(0, 3).Draw(t, "tool") {
		case 0:
			tool, args, bad = "applyforest", num("-fm", train, "-rfpred", "f.sf", "-preds", "p.tsv"), num("-fm", "-rfpred", "-preds")
			if !g.r.isNum() {
				args, bad = append(args, "-votes", "v.tsv"), append(bad, "-votes")
			}
		case 1:
			tool, args, bad = "leafcount", num("-fm", train, "-rfpred", "f.sf", "-leaves", "l.tsv", "-branches", "b.tsv", "-splits", "s.json"), num("-fm", "-rfpred", "-leaves", "-branches", "-splits")
		case 2:
			tool, args, bad = "nfold", num("-fm", train, "-target", target, "-folds", "2"), num("-fm", "-blacklist", "-train", "-test")
		case 3:
			tool, args, bad = "toafm", num("-data", train, "-out", "o.afm"), num("-data", "-blacklist", "-out")
			if rapid.IntRange(0, 3).Draw(t, "libsvm") == 0 {
				args, bad = append(args, "-libsvmtarget", target), append(bad, "-libsvmtarget")
			}
		}
		which := rapid.SampledFrom(bad).Draw(t, "bad")
		v := "nodir/nothing"
		if which != "-libsvmtarget" && rapid.Bool().Draw(t, "folder") {
			v = "."
		}
		if which == "-train" || which == "-test" {
			v = "nodir/%v"
		}
		found := false
		for i := range args {
			if args[i] == which {
				args[i+1], found = v, true
			}
		}
		if !found {
			args = append(args, which, v)
		}
		if rapid.IntRange(0, 9).Draw(t, "flag") == 0 {
			args = append(args, "-nosuchflag")
		}
		res := runTool(dir, tool, args...)
		if res.rc == 0 || strings.TrimSpace(res.stderr) == "" {
			t.Fatalf("%s %q succeeds or is silent (%d): %s", tool, args, res.rc, res.stdout)
		}
		if strings.Contains(res.stderr, "goroutine ") {
			t.Fatalf("%s %q panics: %s", tool, args, tail(res.stderr, 1500))
		}
		c.Class("%s %s", tool, which)
		c.NT(fmt.Sprint(tool, args))
		c.Sample("%s %v: %s", tool, args, tail(strings.TrimSpace(res.stderr), 200))
	})
}

// ---------------------------------------------------------------- C16, the report of the tool

func TestC16_ImportanceFile(t *testing.T) {
	forall(t, "two features are used", 250, 4000, func(t *rapid.T, c *Case) {
		g := genCli(t, []string{"gini", "entropy", "wrf", "regret", "dentropy", "np", "hdist", "num", "l1", "ordinal"}, false)
		dir, done := scratchDir()
		defer done()
		train, _ := writeData(t, dir, "train", g.m)
		nTrees := rapid.IntRange(1, 7).Draw(t, "nTrees")
		g.mTry = rapid.IntRange(1, len(g.cands)).Draw(t, "mTry")
		args := []string{"-train", train, "-target", g.r.col.Name, "-rfpred", "f.sf", "-nTrees", strconv.Itoa(nTrees), "-importance", "imp.tsv", "-noseed",
			"-mTry", strconv.Itoa(g.mTry), "-leafSize", strconv.Itoa(g.leaf), "-maxDepth", strconv.Itoa(g.depth), "-nCores", rapid.SampledFrom([]string{"1", "1", "3"}).Draw(t, "cores")}
		args = append(args, g.targetFlags()...)
		args = append(args, g.modeFlags()...)
		args = append(args, g.candFlags(t, dir)...)
		nobag := rapid.IntRange(0, 2).Draw(t, "nobag") > 0
		if nobag {
			args = append(args, "-nobag")
		}
		what := fmt.Sprintf("growforest %q on %v", args, g.m)
		mustRun(t, dir, "growforest", args...)
		sf := loadSF(t, dir, "f.sf", what)
		text, ok := readFile(filepath.Join(dir, "imp.tsv"))
		lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
		if !ok || len(lines) != len(g.m.F) {
			t.Fatalf("%s: %d lines of importances for %d features", what, len(lines), len(g.m.F))
		}
		used := 0
		for fi, f := range g.m.F {
			sum, cnt, in, depth := 0.0, 0.0, 0.0, 0.0
			tol := 1e-12
			for _, tr := range sf.trees {
				shallow := -1
				where := members(tr.root, g.m, g.bag)
				tr.root.walk(func(n *mnode, d int) {
					if n.leaf() || n.r.f.Name != f.Name {
						return
					}
					cnt++
					if shallow < 0 || d < shallow {
						shallow = d
					}
					w := n.r.want(f, where[n])
					if nobag {
						sum += totalGain(g.r, f, where[n], div{l: w[0], r: w[1], gnm: nmGain(g.r, w[0], w[1])})
						tol += gainTol(g.r, where[n])
					}
				})
				if shallow >= 0 {
					in++
					depth += float64(shallow)
				}
			}
			cells := strings.Split(lines[fi], "\t")
			if len(cells) != 7 || cells[0] != f.Name {
				t.Fatalf("%s: line %d is %q", what, fi, lines[fi])
			}
			v := make([]float64, 7)
			for j := 1; j < 7; j++ {
				x, err := strconv.ParseFloat(cells[j], 64)
				if err != nil {
					t.Fatalf("%s: line %q", what, lines[fi])
				}
				v[j] = x
			}
			if v[2] != cnt || v[5] != in {
				t.Fatalf("%s: %s is used by %v splits in %v trees, reported %q", what, f.Name, cnt, in, lines[fi])
			}
			if cnt > 0 {
				used++
				if nobag && math.Abs(v[1]-sum/cnt) > tol+1e-12*math.Abs(sum) {
					t.Fatalf("%s: the splits on %s have a mean decrease of %v, reported %q", what, f.Name, sum/cnt, lines[fi])
				}
				if !closeAt(v[6], depth/in, depth/in) {
					t.Fatalf("%s: %s has mean minimal depth %v, reported %q", what, f.Name, depth/in, lines[fi])
				}
				if !closeAt(v[4], v[1]*cnt/in, v[1]*cnt/in) {
					t.Fatalf("%s: decrease per tree with %s is %v, reported %q", what, f.Name, v[1]*cnt/in, lines[fi])
				}
			}
			if !closeAt(v[3], v[1]*cnt/float64(nTrees), v[1]*cnt/float64(nTrees)) {
				t.Fatalf("%s: decrease per tree of %s is %v, reported %q", what, f.Name, v[1]*cnt/float64(nTrees), lines[fi])
			}
		}
		c.ClassIf(nobag, "gains recomputed")
		if used >= 2 {
			c.NT(fmt.Sprint(args), g.m.String())
			c.Sample("%v:\n%s", args, text)
		}
	})
}
