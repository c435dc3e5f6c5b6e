package main

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/model/modelutil"
)

// ---- C15: reference trainer ----------------------------------------------

// refW2V applies the published word2vec steps to its own copy of the vectors.
type refW2V struct {
	cfg   *modelCfg
	w, c  [][]float64 // word and context vectors
	path  [][]int     // hs: inner nodes above each word, root first
	codes [][]int     // hs: branch taken below each of them
	inner [][]float64 // hs: inner node vectors
	sig   func(float64) float64
	edge  bool // an inner product close to the end of the sigmoid table was met
	sat   bool // an inner product beyond the table was met
	mode  int  // what hs does with a node beyond the table: 0 nothing, 1 the clipped step
}

func clone(m [][]float64) [][]float64 {
	if m == nil {
		return nil
	}
	r := make([][]float64, len(m))
	for i := range m {
		r[i] = append([]float64(nil), m[i]...)
	}
	return r
}

// step trains target id against the summed/own input vector x and returns the
// movement of x.
func (r *refW2V) step(id int, x []float64, ch *chooser) []float64 {
	d := make([]float64, len(x))
	lr := float64(r.cfg.LR)
	one := func(v []float64, label float64) {
		in := dot(v, x)
		r.edge = r.edge || math.Abs(math.Abs(in)-6) < 0.1
		if math.Abs(in) >= 6 {
			r.sat = true
			if r.cfg.Opt == "hs" && r.mode == 0 {
				return
			}
		}
		g := (label - r.sig(in)) * lr
		for i := range x {
			d[i] += g * v[i]
			v[i] += g * x[i]
		}
	}
	if r.cfg.Opt == "hs" {
		for i, n := range r.path[id] {
			one(r.inner[n], 1-float64(r.codes[id][i]))
		}
		return d
	}
	one(r.c[id], 1)
	for n := 0; n < r.cfg.Neg; n++ {
		if s := ch.choose(len(r.c)); s != id {
			one(r.c[s], 0)
		}
	}
	return d
}

func (r *refW2V) train(doc []int, ch *chooser) {
	for pos, id := range doc {
		reach := r.cfg.Window - ch.choose(r.cfg.Window)
		var ctx []int
		for c := pos - reach; c <= pos+reach; c++ {
			if c != pos && c >= 0 && c < len(doc) {
				ctx = append(ctx, doc[c])
			}
		}
		if r.cfg.Kind == "skipgram" {
			for _, c := range ctx {
				d := r.step(id, append([]float64(nil), r.w[c]...), ch)
				for i := range d {
					r.w[c][i] += d[i]
				}
			}
			continue
		}
		x := make([]float64, r.cfg.Dim)
		for _, c := range ctx {
			for i := range x {
				x[i] += r.w[c][i]
			}
		}
		d := r.step(id, x, ch)
		for _, c := range ctx {
			for i := range d {
				r.w[c][i] += d[i]
			}
		}
	}
}

func tableSigmoid(x float64) float64 {
	switch {
	case x <= -6:
		return 0
	case x >= 6:
		return 1
	}
	return sigmoid(math.Floor((x+6)*1000/12)*12/1000 - 6)
}

func genExact(t *rapid.T) any {
	c := &trainCase{Seed: int64(uniform(t, 1, 1<<20, "seed"))}
	g := modelCfg{Model: "word2vec", Kind: pick(t, "kind", "cbow", "skipgram"), Opt: pick(t, "opt", "ns", "hs"), Goroutines: pick(t, "gor", 1, 1, 2, 3), InMemory: boolean(t, "mem"), Dim: intIn(t, 1, 5, "dim"), Max: -1}
	g.LR = pick(t, "lr", F(0.025), F(0.3), F(1.5), F(8), F(30))
	g.MinLR = g.LR
	n, np := 0, intIn(t, 1, 6, "np")
	profile := intIn(t, 0, 3, "profile")
	switch {
	case profile == 0: // no choices at all
		n, g.Window, g.Iter = uniform(t, 1, 30, "n"), 1, intIn(t, 1, 3, "iter")
		if chance(t, 20, "long") {
			n, np, g.Dim = uniform(t, 30, 400, "nlong"), uniform(t, 2, 26, "nplong"), intIn(t, 1, 40, "dimlong")
			g.LR = pick(t, "lrlong", F(0.025), F(0.3))
			g.MinLR = g.LR
		}
	case profile == 1: // window choices
		g.Window, g.Iter = intIn(t, 2, 4, "win"), intIn(t, 1, 2, "iter")
		n = intIn(t, 2, 6, "n") / g.Iter
		if g.Window == 4 {
			n = min(n, 4)
		}
	case profile == 2: // negatives
		g.Opt, g.Window, g.Iter = "ns", 1, intIn(t, 1, 2, "iter")
		g.Neg = intIn(t, 1, 3, "neg")
		n = pick(t, "n", 2, 3)
	default: // both
		g.Window, g.Iter = intIn(t, 1, 3, "win"), 1
		g.Neg = intIn(t, 1, 2, "neg")
		n = intIn(t, 2, 3, "n")
	}
	if g.Opt == "hs" {
		g.Neg = 0
		g.MaxDepth = pick(t, "maxdepth", 0, 0, 2, 3, 4, 100)
	}
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, string(rune('a'+intIn(t, 0, np-1, "w"))))
	}
	if boolean(t, "rare") { // words below the limit take part in nothing but sampling
		g.Min = 2
		if profile != 0 {
			for i := range ws {
				ws[i] = string(rune('a' + i/2)) // nearly all occur twice
			}
		}
		for i, k := 0, intIn(t, 0, 3, "nrare"); i < k; i++ {
			at := intIn(t, 0, len(ws), "at")
			ws = append(ws[:at], append([]string{fmt.Sprintf("r%d", i)}, ws[at:]...)...)
		}
	}
	c.Text = joinWords(ws)
	c.Cfg = g
	return c
}

func judgeExact(x any, o *Obs) error {
	c := x.(*trainCase)
	cfg := c.Cfg
	cfg0 := cfg
	cfg0.Iter = 0
	m0, err := trained(cfg0, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	m1, err := trained(cfg, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	s0, a0 := rowsOf(m0.WordVector("single")), rowsOf(m0.WordVector("agg"))
	s1, a1 := rowsOf(m1.WordVector("single")), rowsOf(m1.WordVector("agg"))
	ws := tokens(string(c.Text), false)
	order, freq := firstAppearance(ws)
	if len(s1) != len(order) || len(s0) != len(order) {
		return bad("%d vectors for %d words", len(s1), len(order))
	}
	id := map[string]int{}
	dic := dictionary.New()
	for i, w := range order {
		id[w] = i
	}
	for _, w := range ws {
		dic.Add(w)
	}
	var doc []int
	for _, w := range ws {
		if freq[w] >= cfg.Min {
			doc = append(doc, id[w])
		}
	}
	start := refW2V{cfg: &cfg, w: s0}
	if cfg.Opt == "hs" {
		idx := map[any]int{}
		for _, leaf := range dic.HuffnamTree(cfg.Dim) {
			full := refPath(leaf, 0)
			if cfg.MaxDepth > 0 && cfg.MaxDepth < len(full) {
				full = full[:cfg.MaxDepth]
			}
			var p, k []int
			for i := 0; i+1 < len(full); i++ {
				if _, ok := idx[full[i]]; !ok {
					idx[full[i]] = len(start.inner)
					start.inner = append(start.inner, append([]float64(nil), full[i].Vector...))
				}
				p, k = append(p, idx[full[i]]), append(k, full[i+1].Code)
			}
			start.path, start.codes = append(start.path, p), append(start.codes, k)
		}
	} else {
		for i := range s0 {
			start.c = append(start.c, subv(a0[i], s0[i]))
		}
	}
	ps := parts(doc, &cfg, modelutil.IndexPerThread)
	if len(ps) > 1 {
		nonempty := 0
		for _, p := range ps {
			if len(p) > 0 {
				nonempty++
			}
		}
		o.ClassIf(nonempty > 1, "several parts")
	}
	run := func(ch *chooser, sig func(float64) float64) *refW2V {
		r := start
		r.sig, r.w, r.c, r.inner = sig, clone(start.w), clone(start.c), clone(start.inner)
		for it := 0; it < cfg.Iter; it++ {
			left := append([][]int(nil), ps...)
			for len(left) > 0 { // parts may be trained in any order
				k := 0
				if len(left) <= 3 {
					k = ch.choose(len(left))
				}
				r.train(left[k], ch)
				left = append(left[:k:k], left[k+1:]...)
			}
		}
		return &r
	}
	if len(ps) > 3 || len(ps) > 1 && cfg.Goroutines > 1 {
		// concurrent parts interleave: covered by the linear part instead
		small := 0
		for _, p := range ps {
			if len(p) > 1 {
				small++
			}
		}
		if small > 1 {
			return nil
		}
		one := [][]int{}
		for _, p := range ps {
			if len(p) > 1 {
				one = append(one, p)
			}
		}
		ps = one
	}
	o.Class("%s %s", cfg.Kind, cfg.Opt)
	best := math.Inf(1)
	var bestMsg string
	sat, edge := false, false
	lr := float64(cfg.LR)
	var found, all bool
	var n int
	// nodes beyond the sigmoid table may be skipped or take the clipped step
	for mode := 0; mode < 2 && !found; mode++ {
		if mode == 1 && (cfg.Opt != "hs" || !sat) {
			break
		}
		found, all, n = exists(12000, func(ch *chooser) bool {
			// the same choices twice: exact sigmoid, and the table the
			// implementation documents; the difference bounds what is allowed
			start.mode = mode
			ex := run(ch, sigmoid)
			ch.pos = 0
			tb := run(ch, tableSigmoid)
			sat = sat || ex.sat
			if ex.edge || tb.edge || ex.sat != tb.sat {
				edge = true
				return true // the table decides on which side this falls
			}
			d, mv := 0., 0.
			for i := range ex.w {
				for j := range ex.w[i] {
					d = math.Max(d, math.Abs(ex.w[i][j]-tb.w[i][j]))
					mv = math.Max(mv, math.Abs(ex.w[i][j]))
					if ex.c != nil {
						d = math.Max(d, math.Abs(ex.c[i][j]-tb.c[i][j]))
						mv = math.Max(mv, math.Abs(ex.c[i][j]))
					}
				}
			}
			tol := 3*d + 0.004*lr*mv + 1e-12
			off := 0.
			for i := range ex.w {
				for j := range ex.w[i] {
					off = math.Max(off, math.Abs(s1[i][j]-ex.w[i][j]))
					if ex.c != nil {
						off = math.Max(off, math.Abs(a1[i][j]-s1[i][j]-ex.c[i][j]))
					}
				}
			}
			if off < best {
				best = off
				bestMsg = fmt.Sprintf("single %v, expected about %v (off by %.3g, allowed %.3g)", s1, ex.w, off, tol)
			}
			return off <= tol
		})
	}
	o.Nontrivial = len(doc) >= 2 && all && !edge
	o.ClassIf(!all, "too many draws to enumerate")
	o.ClassIf(n > 1, "draws enumerated")
	o.ClassIf(edge, "undecided at the end of the table")
	o.ClassIf(sat && !edge, "beyond the table, "+cfg.Opt)
	if !found && all {
		return bad("%s %s: no window and sampling draws explain the trained vectors; closest of %d: %s", cfg.Kind, cfg.Opt, n, clip(bestMsg))
	}
	return nil
}

// ---- C15/C17/C19: reading training steps off the vectors -----------------

const tinyLR = 1e-7

func genLinear(model string, cover bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		c := &trainCase{Seed: int64(uniform(t, 1, 1<<20, "seed"))}
		g := modelCfg{Model: model, Goroutines: pick(t, "gor", 1, 2, 3, 4, 7), InMemory: boolean(t, "mem"), Max: -1}
		if model == "" {
			g.Model = pick(t, "model", "word2vec", "word2vec", "lexvec")
		}
		if g.Model == "word2vec" {
			g.Kind, g.Opt = pick(t, "kind", "cbow", "skipgram"), "ns"
		} else {
			g.Rel = pick(t, "rel", "ppmi", "pmi", "co", "logco")
			g.Smooth = pick(t, "smooth", F(0.75), F(1), F(0.5), F(2), F(0))
		}
		if !g.InMemory {
			g.Batch = pick(t, "batch", 10000, 1, 2, 3, 5, 8, 16)
		}
		n := uniform(t, 2, 60, "n")
		np := uniform(t, 2, 16, "np")
		if cover || boolean(t, "unique") {
			n = uniform(t, 2, 24, "n")
			np = 0
		}
		far := 0
		if cover && chance(t, 12, "farn") {
			n = uniform(t, 25, 320, "nfar")
			g.Goroutines = pick(t, "gorfar", 2, 5, 16, 33, 64, 65, 100, 128, 129, 200, 256, 300)
		}
		repeating := false
		large := np != 0 && chance(t, 6, "large")
		if large {
			n, np = uniform(t, 60, 700, "nlarge"), uniform(t, 20, 60, "nplarge")
		} else if np != 0 && chance(t, 8, "repeating") { // few words, large counts
			n, np = uniform(t, 200, 1500, "nlong"), uniform(t, 2, 5, "npfew")
			repeating = true
		}
		var ws []string
		for i := 0; i < n; i++ {
			if np == 0 {
				ws = append(ws, fmt.Sprintf("u%d", i))
			} else {
				ws = append(ws, fmt.Sprintf("u%d", uniform(t, 0, np-1, "w")))
			}
		}
		c.Text = joinWords(ws)
		order, _ := firstAppearance(ws)
		g.Window = 1
		if boolean(t, "wide") {
			g.Window = intIn(t, 2, 5, "win")
		} else if boolean(t, "negs") {
			g.Neg = intIn(t, 1, 3, "neg")
		}
		if cover {
			g.Window, g.Neg = 1, 0
			if g.Rel == "logco" {
				g.Rel = "pmi" // the log of a single count is 0: nothing to see
			}
			g.Smooth = max(g.Smooth, 0.5) // the same for exponent 0
		}
		g.Iter = 1
		if boolean(t, "more") {
			g.Iter = intIn(t, 1, 20, "iter")
			if np != 0 {
				g.Iter = min(g.Iter, 2)
			}
		}
		if chance(t, 12, "far") { // one setting far beyond the usual
			switch intIn(t, 0, 2, "which") {
			case 0:
				g.Goroutines = uniform(t, 8, 300, "fargor")
			case 1:
				far = uniform(t, 1, 1500, "fardim")
			default:
				if np == 0 {
					g.Iter = uniform(t, 20, 120, "fariter")
				}
			}
		}
		g.Dim = 2*len(order) + 4 + far
		g.LR, g.MinLR = tinyLR, tinyLR
		if np != 0 && boolean(t, "min") {
			g.Min = intIn(t, 1, 3, "min")
		}
		if g.Model == "lexvec" {
			g.LR, g.MinLR = tinyLR/10, tinyLR/10
			if repeating { // the associations add up
				if g.Rel == "co" {
					g.Rel = "pmi"
				}
				g.LR, g.MinLR = tinyLR/100, tinyLR/100
			}
		}
		c.Cfg = g
		return c
	}
}

// pairAt counts, over the parts, ordered (centre, context) pairs of words at
// every distance up to max.
func pairAt(ps [][]int, v, max int) [][][]int {
	r := make([][][]int, max+1)
	for d := range r {
		r[d] = make([][]int, v)
		for i := range r[d] {
			r[d][i] = make([]int, v)
		}
	}
	for _, p := range ps {
		for i := range p {
			for d := 1; d <= max; d++ {
				if i-d >= 0 {
					r[d][p[i]][p[i-d]]++
				}
				if i+d < len(p) {
					r[d][p[i]][p[i+d]]++
				}
			}
		}
	}
	return r
}

func filteredDoc(lr *linearRun, cfg *modelCfg) []int {
	var doc []int
	for _, w := range lr.ws {
		if lr.freq[w] < cfg.Min || cfg.Max > 0 && lr.freq[w] > cfg.Max {
			continue
		}
		doc = append(doc, lr.id[w])
	}
	return doc
}

func judgeW2VLinear(x any, o *Obs) error {
	c := x.(*trainCase)
	cfg := &c.Cfg
	lr, err := newLinearRun(*cfg, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	V := len(lr.order)
	doc := filteredDoc(lr, cfg)
	ps := parts(doc, cfg, modelutil.IndexPerThread)
	at := pairAt(ps, V, cfg.Window)
	o.Class("%s window=%d neg=%d", cfg.Kind, min(cfg.Window, 2), min(cfg.Neg, 1))
	o.ClassIf(cfg.Goroutines > 1 && cfg.InMemory, "several threads")
	o.Nontrivial = len(doc) >= 2
	X := make([][]float64, V) // X[target][context], in units of lr
	for v := range X {
		xs, rest := coefs(lr.w0, lr.inv, lr.dc[v])
		for i := range xs {
			xs[i] /= float64(cfg.LR)
		}
		X[v] = xs
		if norm2(lr.dc[v]) > 1e-3*tinyLR*norm2(lr.w0[v]) && rest > 1e-3+lr.noise(norm2(lr.c0[v]))/norm2(lr.dc[v]) {
			return bad("%s: the context vector of %q moved by %v, which is no combination of word vectors", cfg.Kind, lr.order[v], lr.dc[v])
		}
	}
	// the word vectors move by the same steps
	for w := 0; w < V; w++ {
		want := combine(lr.c0, func(v int) float64 { return X[v][w] * float64(cfg.LR) }, cfg.Dim)
		sum := 0.
		for v := range X {
			sum += math.Abs(X[v][w])
		}
		if diff := norm2(subv(want, lr.dw[w])); diff > 1e-3*tinyLR*(sum+0.5)*norm2(lr.c0[w]) {
			return bad("%s window=%d: the word vector of %q moved by %v, but the steps its contexts took make %v", cfg.Kind, cfg.Window, lr.order[w], lr.dw[w], want)
		}
	}
	// step counts
	draws, far := 0, 0
	negTotal, negSteps := 0, 0
	for w := 0; w < V; w++ {
		stepsW, negW := 0, 0
		for v := 0; v < V; v++ {
			lo, hi := at[1][v][w]*cfg.Iter, 0
			for d := 1; d <= cfg.Window; d++ {
				hi += at[d][v][w] * cfg.Iter
			}
			stepsW += hi
			s := math.Abs(dot(lr.w0[w], lr.c0[v]))
			ctxs := 1.
			if cfg.Kind == "cbow" {
				ctxs = float64(2 * cfg.Window)
				for u := range lr.w0 {
					s = math.Max(s, math.Abs(dot(lr.w0[u], lr.c0[v])))
				}
			}
			slack := (0.0035 + 0.25*s*ctxs) * 2 // per step, relative to one step
			k := math.Round(X[v][w] * 2)
			most := float64(hi)
			if cfg.Neg > 0 {
				most = float64(hi) + math.Abs(float64(hi)-k) + 2
			}
			if tol := slack*most + 1e-3; math.Abs(X[v][w]*2-k) > tol {
				return bad("%s: target %q with context %q took %.4f steps (window counts allow %d..%d)", cfg.Kind, lr.order[v], lr.order[w], X[v][w]*2, lo, hi)
			} else if tol > 0.45 {
				o.Class("too many steps to count")
				return nil
			}
			n := int(k)
			if cfg.Neg == 0 {
				if n < lo || n > hi {
					return bad("%s window=%d: target %q was trained %d times with context %q, the document allows %d..%d", cfg.Kind, cfg.Window, lr.order[v], n, lr.order[w], lo, hi)
				}
				if cfg.Window > 1 && v < w {
					for d := 1; d <= cfg.Window; d++ {
						if d == cfg.Window && hi-at[d][v][w]*cfg.Iter == 0 {
							far += n
							draws += hi
						}
					}
				}
			} else { // window 1: positives are known, the rest are negatives
				ng := hi - n
				if ng < 0 {
					return bad("%s: target %q was trained %d times with context %q, the document allows %d", cfg.Kind, lr.order[v], n, lr.order[w], hi)
				}
				negW += ng
			}
		}
		if cfg.Neg > 0 {
			if negW > cfg.Neg*stepsW {
				return bad("%s: %d negative samples in %d steps with context %q, at most %d each", cfg.Kind, negW, stepsW, lr.order[w], cfg.Neg)
			}
			negTotal, negSteps = negTotal+negW, negSteps+stepsW
		}
	}
	if cfg.Neg > 0 && V >= 5 && V%2 == 1 && cfg.Kind == "skipgram" && negSteps > 0 {
		// V odd: the draws are as good as random
		o.Class("negative rate")
		if !rateOK(negTotal, negSteps*cfg.Neg, float64(V-1)/float64(V)) {
			return bad("%s: %d negative samples other than the target in %d steps with %d samples each over %d words", cfg.Kind, negTotal, negSteps, cfg.Neg, V)
		}
	}
	if draws >= 200 {
		o.Class("reach rate")
		if far == 0 || far == draws {
			return bad("%s window=%d: the farthest context was trained in %d of %d draws", cfg.Kind, cfg.Window, far, draws)
		}
	}
	return nil
}

// ---- C15: the edge of the sigmoid ----------------------------------------

// The inner product is driven to the largest value below 6 by searching for
// the learning rate that produces it.
type edgeCase struct {
	Kind string
	Seed int64
	Mem  bool
	Down bool
}

func genEdge(t *rapid.T) any {
	return &edgeCase{Kind: pick(t, "kind", "cbow", "skipgram"), Seed: int64(uniform(t, 1, 1<<20, "seed")), Mem: boolean(t, "mem")}
}

func judgeEdge(x any, o *Obs) error {
	c := x.(*edgeCase)
	cfg := modelCfg{Model: "word2vec", Kind: c.Kind, Opt: "ns", Dim: 1, Iter: 1, Window: 1, Goroutines: 1, InMemory: c.Mem}
	inner := func(rate float64) (float64, float64, error) {
		g := cfg
		g.LR, g.MinLR = F(rate), F(rate)
		m, err := trained(g, "a b", c.Seed)
		if err != nil {
			return 0, 0, err
		}
		s, a := m.WordVector("single"), m.WordVector("agg")
		return (a.Slice(0)[0] - s.Slice(0)[0]) * s.Slice(1)[0], (a.Slice(1)[0] - s.Slice(1)[0]) * s.Slice(0)[0], nil
	}
	lo, hi := 0., 1e6
	in, _, err := inner(hi)
	if err != nil {
		return err
	}
	if !(in > 6) {
		return nil
	}
	for i := 0; i < 80; i++ {
		mid := lo + (hi-lo)/2
		in, _, err := inner(mid)
		if err != nil {
			return err
		}
		if in >= 6 {
			hi = mid
		} else {
			lo = mid
		}
	}
	o.Nontrivial = true
	two := cfg
	two.Iter = 2
	rate := hi
	for i := 0; i < 60; i++ {
		rate = math.Nextafter(rate, 0)
	}
	for i := 0; i < 120; i++ {
		two.LR, two.MinLR = F(rate), F(rate)
		if _, err := trained(two, "a b", c.Seed); err != nil {
			return err
		}
		rate = math.Nextafter(rate, math.Inf(1))
	}
	return nil
}

func init() {
	register(&Prop{ID: "C15",
		Rule: "part 'exact': tiny documents trained with any seed, kind, optimiser, window, sample size, division; the vectors must equal the published update rules run by an independent trainer for some sequence of window and sample draws (all are enumerated), within the resolution of the documented sigmoid table; part 'linear': documents up to 60 tokens with a tiny rate, number of steps per (target, context) pair read off the displacement; part 'edge': inner products driven to the last value below the table's range; non-trivial: a trained document of two tokens whose draws were all enumerated (linear: two tokens)",
		Parts: []Part{
			{Name: "exact", Isolated: true, Serial: true, Quick: 4000, Thorough: 150000, New: func() any { return &trainCase{} }, Gen: genExact, Judge: judgeExact},
			{Name: "linear", Isolated: true, Serial: true, Quick: 3000, Thorough: 100000, New: func() any { return &trainCase{} }, Gen: genLinear("word2vec", false), Judge: judgeW2VLinear},
			{Name: "edge", Isolated: true, Quick: 160, Thorough: 4000, New: func() any { return &edgeCase{} }, Gen: genEdge, Judge: judgeEdge},
		}})
}

var _ = strings.Join
