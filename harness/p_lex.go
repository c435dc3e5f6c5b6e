package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/model/modelutil"
)

// ---- C17 ----------------------------------------------------------------

// assoc is the configured association of two words. orient says which of the
// two frequencies is smoothed; the definition leaves that to the
// implementation as long as it is the same everywhere:
// 0 the larger id's, 1 the smaller id's, 2 the context's, 3 the centre's.
type assoc struct {
	cfg    *modelCfg
	count  map[pairKey]float64
	order  []string
	freq   map[string]int
	total  int
	orient int
}

func (a *assoc) of(centre, ctx int) float64 {
	n, ok := a.count[mkPair(a.order[centre], a.order[ctx])]
	if !ok || n == 0 {
		return 0
	}
	switch a.cfg.Rel {
	case "co":
		return n
	case "logco":
		return math.Log(n)
	}
	plain, smooth := centre, ctx
	switch a.orient {
	case 0:
		plain, smooth = min(centre, ctx), max(centre, ctx)
	case 1:
		plain, smooth = max(centre, ctx), min(centre, ctx)
	case 3:
		plain, smooth = ctx, centre
	}
	s := float64(a.cfg.Smooth)
	v := math.Log(n) - math.Log(float64(a.freq[a.order[plain]])) - s*math.Log(float64(a.freq[a.order[smooth]])) + s*math.Log(float64(a.total))
	if a.cfg.Rel == "ppmi" && v < 0 {
		return 0
	}
	return v
}

func newAssoc(cfg *modelCfg, ws []string) *assoc {
	a := &assoc{cfg: cfg, count: refCooc(ws, cfg.Window, "inc"), total: len(ws)}
	a.order, a.freq = firstAppearance(ws)
	return a
}

func genLexExact(t *rapid.T) any {
	c := genExact(t).(*trainCase)
	g := &c.Cfg
	g.Model, g.Kind, g.Opt, g.MaxDepth = "lexvec", "", "", 0
	g.Rel, g.Smooth = pick(t, "rel", "ppmi", "pmi", "co", "logco"), pick(t, "smooth", F(0.75), F(1), F(0), F(0.5), F(0.3), F(1.5), F(2))
	g.LR = pick(t, "lr", F(0.025), F(0.1), F(0.002))
	tame(g, c.Text)
	g.MinLR = g.LR
	return c
}

func judgeLexExact(x any, o *Obs) error {
	c := x.(*trainCase)
	cfg := c.Cfg
	cfg0 := cfg
	cfg0.Iter = 0
	m0, err := trained(cfg0, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	m1, err := trained(cfg, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	s0, a0 := rowsOf(m0.WordVector("single")), rowsOf(m0.WordVector("agg"))
	s1, a1 := rowsOf(m1.WordVector("single")), rowsOf(m1.WordVector("agg"))
	ws := tokens(string(c.Text), false)
	as := newAssoc(&cfg, ws)
	if len(s1) != len(as.order) || len(s0) != len(as.order) {
		return bad("%d vectors for %d words", len(s1), len(as.order))
	}
	id := map[string]int{}
	for i, w := range as.order {
		id[w] = i
	}
	var doc []int
	for _, w := range ws {
		if as.freq[w] >= cfg.Min {
			doc = append(doc, id[w])
		}
	}
	ps := parts(doc, &cfg, modelutil.IndexPerThread)
	if len(ps) > 3 || len(ps) > 1 && cfg.Goroutines > 1 {
		var one [][]int
		for _, p := range ps {
			if len(p) > 1 {
				one = append(one, p)
			}
		}
		if len(one) > 1 {
			return nil // concurrent: see the linear part
		}
		ps = one
	}
	o.Class("%s neg=%v", cfg.Rel, cfg.Neg > 0)
	var c0 [][]float64
	for i := range s0 {
		c0 = append(c0, subv(a0[i], s0[i]))
	}
	lr := float64(cfg.LR)
	best := math.Inf(1)
	var bestMsg string
	wild := false
	orients := 1
	if (cfg.Rel == "ppmi" || cfg.Rel == "pmi") && cfg.Smooth != 1 {
		orients = 4
	}
	found, all, n := exists(60000, func(ch *chooser) bool {
		as.orient = ch.choose(orients)
		space := ch.choose(2) // 0: window contexts by word vector, 1: by context vector
		w, cv := clone(s0), clone(c0)
		upd := func(a, b []float64, f float64) {
			d := (dot(a, b) - f) * lr
			for i := range a {
				t1, t2 := d*b[i], d*a[i]
				a[i] -= t1
				b[i] -= t2
			}
		}
		for it := 0; it < cfg.Iter; it++ {
			left := append([][]int(nil), ps...)
			for len(left) > 0 {
				k := ch.choose(len(left))
				p := left[k]
				left = append(left[:k:k], left[k+1:]...)
				for pos, e := range p {
					reach := cfg.Window - ch.choose(cfg.Window)
					for q := pos - reach; q <= pos+reach; q++ {
						if q == pos || q < 0 || q >= len(p) {
							continue
						}
						if space == 0 {
							upd(w[e], w[p[q]], as.of(e, p[q]))
						} else {
							upd(w[e], cv[p[q]], as.of(e, p[q]))
						}
						for k := 0; k < cfg.Neg; k++ {
							s := ch.choose(len(w))
							upd(w[e], cv[s], as.of(e, s))
						}
					}
				}
			}
		}
		off, mv := 0., 0.
		for i := range w {
			for j := range w[i] {
				mv = math.Max(mv, math.Max(math.Abs(w[i][j]), math.Abs(cv[i][j])))
				off = math.Max(off, math.Max(math.Abs(s1[i][j]-w[i][j]), math.Abs(a1[i][j]-s1[i][j]-cv[i][j])))
			}
		}
		if !(mv < 1e3) {
			wild = true
			return true // diverges: outside the stable range of rates
		}
		if off < best {
			best = off
			bestMsg = fmt.Sprintf("single %v, expected %v (off by %.3g)", s1, w, off)
		}
		return off <= 1e-8*(mv+1e-3)
	})
	o.Nontrivial = len(doc) >= 2 && all && !wild
	o.ClassIf(wild, "diverging")
	o.ClassIf(!all, "too many draws to enumerate")
	if !found && all {
		return bad("lexvec %s: no window and sampling draws explain the trained vectors; closest of %d: %s", cfg.Rel, n, clip(bestMsg))
	}
	return nil
}

func judgeLexLinear(x any, o *Obs) error {
	c := x.(*trainCase)
	cfg := &c.Cfg
	r, err := newLinearRun(*cfg, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	as := newAssoc(cfg, r.ws)
	doc := filteredDoc(r, cfg)
	ps := parts(doc, cfg, modelutil.IndexPerThread)
	at := pairAt(ps, len(r.order), cfg.Window)
	o.Class("%s window=%d neg=%d", cfg.Rel, min(cfg.Window, 2), min(cfg.Neg, 1))
	o.ClassIf(cfg.Goroutines > 1 && cfg.InMemory, "several threads")
	o.Nontrivial = len(doc) >= 2
	lr := float64(cfg.LR)
	V := len(r.order)
	// rounding and second-order effects, in units of steps x association
	most := 0.
	for v := 0; v < V; v++ {
		for _, rows := range [][][]float64{r.dw, r.dc} {
			xs, _ := coefs(r.w0, r.inv, rows[v])
			sum := 0.
			for _, x := range xs {
				sum += math.Abs(x / lr)
			}
			most = math.Max(most, sum)
		}
	}
	noise := 1e-5*(1+most) + lr*most*most
	var first error
	for as.orient = 0; as.orient < 4; as.orient++ {
		err := func() error {
			// negatives (centre w, sample v), read off the context vectors
			N := make([][]float64, V)
			for w := range N {
				N[w] = make([]float64, V)
			}
			for v := 0; v < V; v++ {
				xs, rest := coefs(r.w0, r.inv, r.dc[v])
				if cfg.Neg == 0 && norm2(r.dc[v]) > 1e-4*lr*norm2(r.c0[v]) {
					return bad("lexvec: the context vector of %q moved although nothing is sampled", r.order[v])
				}
				if norm2(r.dc[v]) > 1e-3*lr*norm2(r.w0[v]) && rest > 1e-3+r.noise(norm2(r.c0[v]))/norm2(r.dc[v]) {
					return bad("lexvec: the context vector of %q moved by %v, which is no combination of word vectors", r.order[v], r.dc[v])
				}
				for w := range xs {
					f := as.of(w, v) - dot(r.w0[w], r.c0[v])
					N[w][v] = xs[w] / lr / f
					tol := noise/math.Abs(f) + 1e-3*math.Abs(N[w][v])
					if !(tol < 0.3) {
						N[w][v] = math.NaN() // cannot be told
						continue
					}
					if k := math.Round(N[w][v]); math.Abs(N[w][v]-k) > tol || k < 0 {
						return bad("lexvec %s: context vector of %q took %.4f steps with centre %q (association %.4f)", cfg.Rel, r.order[v], N[w][v], r.order[w], as.of(w, v))
					} else {
						N[w][v] = k
					}
				}
			}
			for w := 0; w < V; w++ {
				steps, sum, unknown := 0, 0., 0
				for v := 0; v < V; v++ {
					steps += at[1][w][v] * cfg.Iter
					if math.IsNaN(N[w][v]) {
						unknown++
					} else {
						sum += N[w][v]
					}
				}
				want := float64(steps * cfg.Neg)
				if cfg.Neg > 0 && (sum > want || unknown == 0 && sum != want) {
					return bad("lexvec: centre %q took %v sampling steps, %d contexts with %d samples each make %v", r.order[w], sum, steps, cfg.Neg, want)
				}
				if cfg.Neg > 0 && unknown > 0 {
					o.Class("sample counts partly unknown")
					continue
				}
				// what the word vector must have done
				if cfg.Window == 1 {
					pos := combine(r.w0, func(v int) float64 {
						return lr * float64(cfg.Iter*(at[1][w][v]+at[1][v][w])) * (as.of(w, v) - dot(r.w0[w], r.w0[v]))
					}, cfg.Dim)
					if as.orient >= 2 {
						pos = combine(r.w0, func(v int) float64 {
							q := dot(r.w0[w], r.w0[v])
							return lr * float64(cfg.Iter) * (float64(at[1][w][v])*(as.of(w, v)-q) + float64(at[1][v][w])*(as.of(v, w)-q))
						}, cfg.Dim)
					}
					neg := combine(r.c0, func(v int) float64 {
						if N[w][v] == 0 {
							return 0
						}
						return lr * N[w][v] * (as.of(w, v) - dot(r.w0[w], r.c0[v]))
					}, cfg.Dim)
					tot := make([]float64, cfg.Dim)
					scale := 0.
					for i := range tot {
						tot[i] = pos[i] + neg[i]
						scale = math.Max(scale, math.Abs(pos[i])+math.Abs(neg[i]))
					}
					diff := norm2(subv(tot, r.dw[w]))
					if diff > 1e-3*math.Sqrt(float64(cfg.Dim))*scale+1e-4*lr*norm2(r.w0[w]) {
						return bad("lexvec %s: the word vector of %q moved by %v, its steps make %v", cfg.Rel, r.order[w], r.dw[w], tot)
					}
					continue
				}
				xs, rest := coefs(r.w0, r.inv, r.dw[w])
				if norm2(r.dw[w]) > 1e-3*lr*norm2(r.w0[w]) && rest > 1e-3+r.noise(norm2(r.w0[w]))/norm2(r.dw[w]) {
					return bad("lexvec: the word vector of %q moved by %v, which is no combination of word vectors", r.order[w], r.dw[w])
				}
				for v := range xs {
					if as.orient >= 2 {
						continue
					}
					lo, hi := cfg.Iter*(at[1][w][v]+at[1][v][w]), 0
					for d := 1; d <= cfg.Window; d++ {
						hi += cfg.Iter * (at[d][w][v] + at[d][v][w])
					}
					f := as.of(w, v) - dot(r.w0[w], r.w0[v])
					n := xs[v] / lr / f
					ok := false
					for k := lo; k <= hi; k++ {
						ok = ok || math.Abs(xs[v]/lr-float64(k)*f) <= noise+1e-3*math.Abs(float64(k)*f)
					}
					if !ok {
						return bad("lexvec %s window=%d: %q and %q were trained %.4f times with each other, the document allows %d..%d (association %.4f)", cfg.Rel, cfg.Window, r.order[w], r.order[v], n, lo, hi, as.of(w, v))
					}
				}
			}
			return nil
		}()
		if err == nil {
			return nil
		}
		if first == nil {
			first = err
		}
		if cfg.Rel != "ppmi" && cfg.Rel != "pmi" || cfg.Smooth == 1 {
			break
		}
	}
	return first
}

// ---- C16 ----------------------------------------------------------------

// gloveStart reconstructs the initial parameters, biases included. The
// biases cannot be observed; they are taken from the seeded random sequence
// if the visible part of it matches.
func gloveStart(seed int64, v, dim int, w, c [][]float64) (bw, bc []float64, ok bool) {
	rng := rand.New(rand.NewSource(seed))
	for r := 0; r < 2*v; r++ {
		for i := 0; i < dim; i++ {
			x := rng.Float64() / float64(dim)
			if r < v && !near(x, w[r][i], 1e-12) || r >= v && !near(x, c[r-v][i], 1e-12) {
				return nil, nil, false
			}
		}
		x := rng.Float64() / float64(dim)
		if r < v {
			bw = append(bw, x)
		} else {
			bc = append(bc, x)
		}
	}
	return bw, bc, true
}

type gloveItem struct {
	a, b    int
	logf, k float64
}

func gloveItems(cfg *modelCfg, ws []string) []gloveItem {
	order, freq := firstAppearance(ws)
	id := map[string]int{}
	for i, w := range order {
		id[w] = i
	}
	out := func(w string) bool {
		return freq[w] < cfg.Min || cfg.Max > 0 && freq[w] > cfg.Max
	}
	var items []gloveItem
	for p, n := range refCooc(ws, cfg.Window, cfg.Count) {
		if out(p.a) || out(p.b) {
			continue
		}
		k := 1.
		if n < float64(cfg.Xmax) {
			k = math.Pow(n/float64(cfg.Xmax), float64(cfg.Alpha))
		}
		items = append(items, gloveItem{a: id[p.a], b: id[p.b], logf: math.Log(n), k: k})
	}
	sort.Slice(items, func(i, j int) bool {
		if items[i].a != items[j].a {
			return items[i].a < items[j].a
		}
		return items[i].b < items[j].b
	})
	return items
}

func genGlove(exact bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		c := &trainCase{Seed: int64(uniform(t, 1, 1<<20, "seed"))}
		g := modelCfg{Model: "glove", Solver: pick(t, "solver", "sgd", "adagrad"), Count: pick(t, "count", "inc", "prox"), InMemory: boolean(t, "mem"), Max: -1, Goroutines: pick(t, "gor", 1, 2, 3, 5, 8)}
		g.Xmax, g.Alpha = pick(t, "xmax", 1, 2, 3, 4, 10, 100), pick(t, "alpha", F(0.75), F(0), F(1), F(0.5), F(2))
		n, np := uniform(t, 2, 60, "n"), uniform(t, 1, 14, "np")
		g.Window = intIn(t, 1, 6, "win")
		if exact {
			n, np = intIn(t, 2, 9, "n"), intIn(t, 1, 3, "np")
			g.Window = intIn(t, 1, 3, "win")
			g.Goroutines = 1
			g.Dim, g.Iter = intIn(t, 1, 4, "dim"), intIn(t, 1, 2, "iter")
			g.LR = pick(t, "lr", F(0.025), F(0.3), F(1))
		}
		large := !exact && chance(t, 6, "large")
		if large && chance(t, 4, "larger") {
			n, np, g.Window = uniform(t, 1500, 6000, "nlarger"), uniform(t, 70, 160, "nplarger"), uniform(t, 5, 40, "winlarger")
			g.Goroutines = uniform(t, 1, 300, "gorlarger")
		} else if large {
			n, np, g.Window = uniform(t, 60, 1500, "nlarge"), uniform(t, 10, 70, "nplarge"), uniform(t, 1, 25, "winlarge")
			g.Goroutines = pick(t, "gorlarge", 1, 4, 16, 64)
			if boolean(t, "sqall") {
				np = -np
			}
		}
		var ws []string
		sq := np < 0
		if sq {
			np = -np
		}
		for i := 0; i < n; i++ {
			k := uniform(t, 0, np-1, "w")
			if sq || !large && boolean(t, "sq") {
				k = k * k / np
			}
			ws = append(ws, fmt.Sprintf("u%d", k))
		}
		if boolean(t, "lim") {
			g.Min = intIn(t, 1, 3, "min")
			g.Max = pick(t, "max", -1, 0, 5, 10)
		}
		c.Text = joinWords(ws)
		if !exact {
			order, _ := firstAppearance(ws)
			g.Dim, g.Iter, g.LR = 2*len(order)+4, intIn(t, 1, 4, "iter"), 1e-8
			if chance(t, 15, "long") {
				g.Iter = uniform(t, 5, 60, "iterlong")
			}
			if large || g.Iter > 4 {
				g.LR = 1e-9
			}
		} else if n <= 3 && boolean(t, "long") {
			g.Iter = uniform(t, 3, 60, "iterlong")
			g.LR = min(g.LR, 0.2)
		}
		c.Cfg = g
		return c
	}
}

func judgeGloveLinear(x any, o *Obs) error {
	c := x.(*trainCase)
	cfg := &c.Cfg
	r, err := newLinearRun(*cfg, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	V := len(r.order)
	items := gloveItems(cfg, r.ws)
	o.Class("%s %s", cfg.Solver, cfg.Count)
	o.ClassIf(cfg.Goroutines > 1, "several threads")
	o.Nontrivial = len(items) >= 1
	lr := float64(cfg.LR)
	use := make([][]*gloveItem, V)
	for i := range use {
		use[i] = make([]*gloveItem, V)
	}
	capped := 0
	for i := range items {
		it := &items[i]
		use[it.a][it.b], use[it.b][it.a] = it, it
		if it.k == 1 {
			capped++
		}
	}
	o.ClassIf(capped > 0 && capped < len(items), "some weights capped")
	bw, bc, known := gloveStart(c.Seed, V, cfg.Dim, r.w0, r.c0)
	o.ClassIf(known, "biases known")
	// rounding and second-order effects, in units of steps
	most := 0.
	for v := 0; v < V; v++ {
		for k, rows := range [][][]float64{r.dw, r.dc} {
			xs, _ := coefs(r.c0, r.invC, rows[v])
			if k == 1 {
				xs, _ = coefs(r.w0, r.inv, rows[v])
			}
			sum := 0.
			for _, x := range xs {
				sum += math.Abs(x / lr)
			}
			most = math.Max(most, sum)
		}
	}
	round := 1e-15 * float64(cfg.Iter*V)
	noise := lr*most*most + 1e-6*most + round/lr
	if noise > 0.1 {
		o.Class("too many steps to read")
		o.Nontrivial = false
		return nil
	}
	// role 0: word i in word role with context j, read off W_i and C_j
	check := func(what string, i, j int, got float64, inner, bias float64) error {
		it := use[i][j]
		if it == nil {
			if math.Abs(got) > 1e-3+noise {
				return bad("glove: %s %q moved by %.4f steps along %q, which it never occurs with (or which is outside the limits)", what, r.order[i], got, r.order[j])
			}
			return nil
		}
		m := float64(cfg.Iter)
		if i == j {
			m *= 2
		}
		if it.k < 1e-3 { // too small to be measured well
			return nil
		}
		err := -got / m / it.k // = inner + b + b' - log count
		if known {
			if want := inner + bias - it.logf; math.Abs(err-want) > (1e-3*(1+math.Abs(want))+noise/m)/math.Min(1, it.k) {
				return bad("glove %s: %s %q with %q: error term %.6f, expected %.6f (log count %.4f, weight %.4f, %d iterations)", cfg.Solver, what, r.order[i], r.order[j], err, want, it.logf, it.k, cfg.Iter)
			}
		} else if b := err + it.logf - inner; b < -(1e-2+noise)/it.k || b > 2/float64(cfg.Dim)+(1e-2+noise)/it.k {
			return bad("glove %s: %s %q with %q: error term %.6f cannot come from biases in [0,%v) (log count %.4f, weight %.4f)", cfg.Solver, what, r.order[i], r.order[j], err, 1/float64(cfg.Dim), it.logf, it.k)
		}
		return nil
	}
	for i := 0; i < V; i++ {
		xw, restW := coefs(r.c0, r.invC, r.dw[i])
		xc, restC := coefs(r.w0, r.inv, r.dc[i])
		nw, nc := norm2(r.dw[i]), norm2(r.dc[i])
		if nw > 1e-2*lr*norm2(r.w0[i]) && restW > 1e-3+round/nw || nc > 1e-2*lr*norm2(r.c0[i]) && restC > 1e-3+round/nc {
			return bad("glove: a vector of %q moved by no combination of the other role's vectors", r.order[i])
		}
		for j := 0; j < V; j++ {
			b1, b2 := 0., 0.
			if known {
				b1, b2 = bw[i]+bc[j], bc[i]+bw[j]
			}
			if err := check("word vector of", i, j, xw[j]/lr, dot(r.w0[i], r.c0[j]), b1); err != nil {
				return err
			}
			if err := check("context vector of", i, j, xc[j]/lr, dot(r.c0[i], r.w0[j]), b2); err != nil {
				return err
			}
		}
	}
	return nil
}

func judgeGloveExact(x any, o *Obs) error {
	c := x.(*trainCase)
	cfg := c.Cfg
	cfg0 := cfg
	cfg0.Iter = 0
	m0, err := trained(cfg0, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	m1, err := trained(cfg, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	s0, a0 := rowsOf(m0.WordVector("single")), rowsOf(m0.WordVector("agg"))
	s1, a1 := rowsOf(m1.WordVector("single")), rowsOf(m1.WordVector("agg"))
	ws := tokens(string(c.Text), false)
	order, _ := firstAppearance(ws)
	V, dim, lr := len(order), cfg.Dim, float64(cfg.LR)
	if len(s1) != V || len(s0) != V {
		return bad("%d vectors for %d words", len(s1), V)
	}
	items := gloveItems(&cfg, ws)
	if len(items) > 6 || len(items) > 4 && cfg.Iter > 1 {
		return nil
	}
	var c0 [][]float64
	for i := range s0 {
		c0 = append(c0, subv(a0[i], s0[i]))
	}
	bw, bc, ok := gloveStart(c.Seed, V, dim, s0, c0)
	o.ClassIf(!ok, "biases unknown")
	if !ok {
		return nil
	}
	o.Class("%s items=%d", cfg.Solver, len(items))
	type row struct {
		v, g []float64 // parameters (bias last) and accumulated squares
	}
	mk := func(vs [][]float64, b []float64) []row {
		r := make([]row, V)
		for i := range r {
			r[i].v = append(append([]float64(nil), vs[i]...), b[i])
			r[i].g = make([]float64, dim+1)
			for j := range r[i].g {
				r[i].g[j] = 1
			}
		}
		return r
	}
	best := math.Inf(1)
	var bestMsg string
	wild := false
	found, all, n := exists(30000, func(ch *chooser) bool {
		w, cv := mk(s0, bw), mk(c0, bc)
		before, beforeB := false, false
		if cfg.Solver == "adagrad" {
			// whether the sum includes the step being taken is left open
			before, beforeB = ch.choose(2) == 1, ch.choose(2) == 0
		}
		one := func(a, b *row, it *gloveItem) {
			d := (dot(a.v[:dim], b.v[:dim]) + a.v[dim] + b.v[dim] - it.logf) * it.k * lr
			for i := 0; i <= dim; i++ {
				t1, t2, bf := d, d, beforeB
				if i < dim {
					t1, t2, bf = d*b.v[i], d*a.v[i], before
				}
				if cfg.Solver == "adagrad" {
					q1, q2 := a.g[i], b.g[i]
					a.g[i] += t1 * t1
					b.g[i] += t2 * t2
					if !bf {
						q1, q2 = a.g[i], b.g[i]
					}
					t1, t2 = t1/math.Sqrt(q1), t2/math.Sqrt(q2)
				}
				a.v[i] -= t1
				b.v[i] -= t2
			}
		}
		for it := 0; it < cfg.Iter; it++ {
			left := make([]int, len(items))
			for i := range left {
				left[i] = i
			}
			for len(left) > 0 {
				k := ch.choose(len(left))
				im := &items[left[k]]
				left = append(left[:k:k], left[k+1:]...)
				if im.a == im.b {
					one(&w[im.a], &cv[im.a], im)
					one(&w[im.a], &cv[im.a], im)
					continue
				}
				one(&w[im.a], &cv[im.b], im)
				one(&w[im.b], &cv[im.a], im)
			}
		}
		off, mv := 0., 0.
		for i := range w {
			for j := 0; j < dim; j++ {
				mv = math.Max(mv, math.Max(math.Abs(w[i].v[j]), math.Abs(cv[i].v[j])))
				off = math.Max(off, math.Max(math.Abs(s1[i][j]-w[i].v[j]), math.Abs(a1[i][j]-s1[i][j]-cv[i].v[j])))
			}
		}
		if !(mv < 100) {
			wild = true
			return true // diverges: outside the stable range of rates
		}
		if off < best {
			best = off
			bestMsg = fmt.Sprintf("single %v, expected first vector %v (off by %.3g)", s1, w[0].v, off)
		}
		return off <= 1e-8*(mv+1e-3)
	})
	o.Nontrivial = len(items) >= 1 && all && !wild
	o.ClassIf(wild, "diverging")
	if !found && all {
		return bad("glove %s: no order of the %d pairs explains the trained vectors; closest of %d: %s", cfg.Solver, len(items), n, clip(bestMsg))
	}
	return nil
}

func init() {
	register(&Prop{ID: "C17",
		Rule: "part 'exact': tiny documents, every relation and smoothing exponent; the vectors must equal an independent trainer's for some enumerated sequence of window and sample draws (and one consistent side to smooth); part 'linear': documents up to 60 tokens with a tiny rate, steps per word pair read off the displacement; non-trivial: two trained tokens, all draws enumerated (linear: two tokens)",
		Parts: []Part{
			{Name: "exact", Isolated: true, Serial: true, Quick: 4000, Thorough: 150000, New: func() any { return &trainCase{} }, Gen: genLexExact, Judge: judgeLexExact},
			{Name: "linear", Isolated: true, Serial: true, Quick: 3000, Thorough: 100000, New: func() any { return &trainCase{} }, Gen: genLinear("lexvec", false), Judge: judgeLexLinear},
		}})
	register(&Prop{ID: "C16",
		Rule: "part 'linear': documents up to 60 tokens, every solver, count type, cap, exponent, window and limits, 1..8 goroutines, tiny rate: the error term of every word pair in both roles is read off the displacement and compared with weight, log count, inner product and biases; part 'exact': up to 6 pairs at large rates against an independent trainer over all pair orders; non-trivial: at least one pair",
		Parts: []Part{
			{Name: "linear", Isolated: true, Serial: true, Quick: 4000, Thorough: 150000, New: func() any { return &trainCase{} }, Gen: genGlove(false), Judge: judgeGloveLinear},
			{Name: "exact", Quick: 6000, Thorough: 200000, New: func() any { return &trainCase{} }, Gen: genGlove(true), Judge: judgeGloveExact},
		}})
}
