package main

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/model/modelutil"
)

// ---- C18 ----------------------------------------------------------------

type lrCase struct {
	Cfg  modelCfg
	N    int
	Fill []int `json:",omitempty"` // positions taken by one repeated word
	Seed int64
}

const lrInit = 1e-7

func genC18(t *rapid.T) any {
	c := &lrCase{N: uniform(t, 2, 120, "n"), Seed: int64(uniform(t, 1, 1<<20, "seed"))}
	long := chance(t, 30, "long")
	if long {
		c.N = uniform(t, 120, 6000, "nlong")
	}
	g := modelCfg{Model: "word2vec", Kind: pick(t, "kind", "cbow", "skipgram"), Opt: "ns", Window: 1, InMemory: boolean(t, "mem"), Max: -1}
	if chance(t, 3, "lexvec") {
		g.Model, g.Kind, g.Opt, g.Rel, g.Smooth = "lexvec", "", "", pick(t, "rel", "ppmi", "pmi", "co"), pick(t, "smooth", F(0.75), F(1))
	}
	g.Dim, g.Iter = intIn(t, 6, 12, "dim"), pick(t, "iter", 1, 1, 1, 2, 3)
	g.Goroutines = pick(t, "gor", 1, 1, 1, 2, 4)
	if chance(t, 3, "batches") {
		g.Batch = uniform(t, 2, 40, "batch")
		if long {
			g.Batch = pick(t, "longbatch", 1000, 1024, 4096, 500, 333)
		}
	}
	if chance(t, 12, "far") {
		if boolean(t, "passes") {
			g.Iter, c.N = uniform(t, 4, 80, "fariter"), min(c.N, 400)
		} else {
			g.Goroutines = uniform(t, 5, 200, "fargor")
		}
	}
	g.LR = lrInit
	g.MinLR = pick(t, "minlr", F(0), F(1e-4*lrInit), F(0.01*lrInit), F(0.1*lrInit), F(0.35*lrInit), F(0.5*lrInit), F(0.9*lrInit), F(lrInit), F(lrInit))
	if boolean(t, "minreal") {
		g.MinLR = realIn(t, 0, lrInit, "minlr2")
	}
	switch intIn(t, 0, 4, "ulr") {
	case 0:
		g.UpdateLR = 1
	case 1:
		g.UpdateLR = uniform(t, 1, c.N, "u")
	case 2:
		g.UpdateLR = pick(t, "uedge", c.N, c.N-1, c.N+1)
	case 3:
		g.UpdateLR = 100000
	default:
		g.UpdateLR = intIn(t, 1, 10, "usmall")
	}
	if g.Iter <= 3 && boolean(t, "fill") { // over many passes the repeated word moves too far
		for i, k := 0, uniform(t, 1, min(c.N, 300), "nfill"); i < k; i++ {
			c.Fill = append(c.Fill, uniform(t, 0, c.N-1, "fill"))
		}
		if chance(t, 3, "limit") {
			g.Max = pick(t, "max", 1, 2, 5)
		}
	}
	if chance(t, 4, "subsample") && g.Goroutines == 1 {
		// Both runs leave out the same words: they draw the same numbers.
		g.Iter, g.Batch = 1, 0
		g.Threshold = pick(t, "threshold", F(0.01), F(0.1), F(0.3), F(0.6), F(0.9))
	}
	g.Verbose, g.LogBatch = chance(t, 4, "verbose"), pick(t, "log", 1, 2, 3, 10, 100000)
	c.Cfg = g
	return c
}

// judgeC30Rate: messages leave the learning rate alone.
func judgeC30Rate(x any, o *Obs) error {
	c := *x.(*lrCase)
	batch := c.Cfg.LogBatch
	c.Cfg.Verbose, c.Cfg.LogBatch = false, 0
	if judgeC18(&c, o) != nil {
		return nil // not a matter of the messages
	}
	o.Class("log batch %d", def(batch, 100000))
	for _, c.Cfg.Verbose = range []bool{false, true} {
		c.Cfg.LogBatch = batch
		if err := judgeC18(&c, &Obs{}); err != nil {
			return bad("only with verbose=%v and log batch %d: %v", c.Cfg.Verbose, def(batch, 100000), err)
		}
	}
	return nil
}

func judgeC18(x any, o *Obs) error {
	c := x.(*lrCase)
	cfg := &c.Cfg
	all := make([]string, c.N)
	fills := 0
	for _, p := range c.Fill {
		if p < c.N && all[p] == "" {
			all[p] = "fill"
			fills++
		}
	}
	skip := cfg.Max > 0 && fills > cfg.Max // the repeated word is not trained
	id, ids := map[string]int{}, []int{}   // ids: the word trained at each position
	for i := range all {
		if all[i] == "" {
			all[i] = fmt.Sprintf("u%d", i)
		}
		if _, ok := id[all[i]]; !ok {
			id[all[i]] = len(id)
		}
		if !(skip && all[i] == "fill") {
			ids = append(ids, id[all[i]])
		}
	}
	filler := -1
	if fills > 1 {
		filler = id["fill"]
	}
	text := strings.Join(all, " ")
	flat := *cfg
	flat.MinLR, flat.UpdateLR = flat.LR, 1<<30
	zero := *cfg
	zero.Iter = 0
	var s, ctx [3][][]float64
	for i, g := range []modelCfg{zero, flat, *cfg} {
		m, err := trained(g, text, c.Seed)
		if err != nil {
			return err
		}
		s[i] = rowsOf(m.WordVector("single"))
		a := rowsOf(m.WordVector("agg"))
		if len(s[i]) != len(id) || len(a) != len(id) {
			return bad("%d vectors for %d words", len(s[i]), len(id))
		}
		for j := range a {
			ctx[i] = append(ctx[i], subv(a[j], s[i][j]))
		}
	}
	n, u := len(ids), cfg.UpdateLR
	lo := float64(cfg.MinLR) / lrInit
	size := def(cfg.Batch, 10000)
	ordered := cfg.Goroutines == 1 && (cfg.InMemory || n <= size)
	o.Class("%s%s", cfg.Model, cfg.Kind)
	o.ClassIf(lo == 1, "constant")
	o.ClassIf(!ordered, "parallel")
	o.ClassIf(cfg.Iter > 1, "several passes")
	o.ClassIf(filler >= 0, "repeated word")
	o.ClassIf(skip, "words beyond the limits")
	o.ClassIf(cfg.Threshold > 0, "subsampling")
	o.Nontrivial = u <= n && lo < 1
	err := judgeRates(c, s, ctx, ids, filler, c.N, ordered, o)
	if err != nil && skip {
		// which words make the corpus is not laid down where some are left out
		err = judgeRates(c, s, ctx, ids, filler, n, ordered, o)
	}
	return err
}

// judgeRates compares the movement of the vectors (s: own, ctx: context; at
// the start, with a constant rate, and in the run) with the law for a corpus
// of total words; ids are the words at the trained positions.
func judgeRates(c *lrCase, s, ctx [3][][]float64, ids []int, filler, total int, ordered bool, o *Obs) error {
	cfg := &c.Cfg
	n, u := len(ids), cfg.UpdateLR
	lo, hi := float64(cfg.MinLR)/lrInit, 1.
	// law: rate after cnt words of a pass
	law := func(cnt int) float64 {
		k := cnt / u * u
		return math.Max(lo, 1-float64(k)/float64(total))
	}
	// possible rates at position p: the count of processed words lags by at
	// most one; before the first update of a later pass it is the one the
	// previous pass ended with, or, while its last update is under way, the
	// one before that
	eps := 1e-3 * float64(cfg.Iter+1)
	if filler >= 0 { // a word trained often moves while it is being used
		s0 := s[0][filler]
		m := norm2(subv(s[1][filler], s0)) + norm2(subv(ctx[1][filler], ctx[0][filler]))
		eps += 10 * float64(cfg.Iter) * m / math.Max(norm2(s0), 1e-6)
	}
	type iv struct{ lo, hi float64 }
	at := func(p, pass int) iv {
		b := max(p-1, 0)
		r := iv{law(p), law(b)}
		if b < u && pass > 0 {
			r = iv{law(n), law(max(n-u, 0))}
			if p >= u {
				r = iv{math.Min(r.lo, law(p)), math.Max(r.hi, law(p))}
			}
		}
		return r
	}
	below := 0
	for v := 0; v < n; v++ {
		if ids[v] == filler {
			continue
		}
		me := ids[v]
		// movement of the constant-rate run and of this run: each position
		// of word2vec moves its own context vector; each pair of neighbours
		// of lexvec moves one word vector along the other, from both sides
		var ratios []float64
		var from [][]int
		if cfg.Model == "lexvec" {
			var rows [][]float64
			var nb []int
			for _, w := range []int{v - 1, v + 1} {
				if w >= 0 && w < n {
					if len(nb) == 1 && ids[nb[0]] == ids[w] {
						nb[0] = -1 // the repeated word on both sides
						continue
					}
					rows, nb = append(rows, s[0][ids[w]]), append(nb, w)
				}
			}
			inv := invGram(rows)
			if inv == nil {
				continue
			}
			x0, _ := coefs(rows, inv, subv(s[1][me], s[0][me]))
			x1, _ := coefs(rows, inv, subv(s[2][me], s[0][me]))
			for i, w := range nb {
				if w >= 0 && math.Abs(x0[i]) > 0.05*lrInit*float64(cfg.Iter) {
					ratios, from = append(ratios, x1[i]/x0[i]), append(from, []int{v, w})
				}
			}
		} else {
			d0, d1 := subv(ctx[1][me], ctx[0][me]), subv(ctx[2][me], ctx[0][me])
			if q := dot(d0, d0); math.Sqrt(q) > 1e-3*lrInit*float64(cfg.Iter)*norm2(s[0][me]) {
				ratios, from = append(ratios, dot(d0, d1)/q), append(from, []int{v, v})
			}
		}
		for k, r := range ratios {
			r *= float64(cfg.Iter) // sum of rates over passes, in units of the initial one
			if r > float64(cfg.Iter)*hi+eps {
				return bad("%s: position %d of %d: learning rates of %d passes sum to %.5f times the initial rate", cfg.Model, v, n, cfg.Iter, r)
			}
			if r < float64(cfg.Iter)*lo-eps {
				return bad("%s: position %d of %d: learning rates of %d passes sum to %.5f times the initial rate, below the minimum of %.5f each", cfg.Model, v, n, cfg.Iter, r, lo)
			}
			if !ordered {
				continue
			}
			sum := iv{}
			for pass := 0; pass < cfg.Iter; pass++ {
				a, b := at(from[k][0], pass), at(from[k][1], pass)
				p := iv{(a.lo + b.lo) / 2, (a.hi + b.hi) / 2}
				if cfg.Threshold > 0 { // either side may have been left out
					p = iv{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi)}
				}
				sum.lo += p.lo
				sum.hi += p.hi
			}
			if r > sum.hi+eps {
				return bad("%s: position %d of %d (update batch %d, minimum %.4f, %d passes): learning rate is %.5f times the initial rate, at most %.5f expected", cfg.Model, v, n, u, lo, cfg.Iter, r, sum.hi)
			}
			if r < sum.lo-eps {
				below++
				// the last update of a pass may take effect late in the next;
				// not so where there are no updates, nor in many of the passes
				if u > n || sum.lo-r > 1+float64(cfg.Iter)/8 || below > (cfg.Iter-1)*4*(u+3) {
					return bad("%s: position %d of %d (update batch %d, minimum %.4f, %d passes): learning rate is %.5f times the initial rate, at least %.5f expected", cfg.Model, v, n, u, lo, cfg.Iter, r, sum.lo)
				}
			}
		}
	}
	return nil
}

// ---- C19 ----------------------------------------------------------------

type splitCase struct{ T, N int }

func genSplit(t *rapid.T) any {
	c := &splitCase{T: pick(t, "t", 1, 2, 3, 4, 7, 8, 16, 64), N: sizeBiased(t, 0, 5000, "n")}
	if boolean(t, "any") {
		c.T = uniform(t, 1, 300, "t2")
	}
	if chance(t, 20, "huge") {
		c.N = uniform(t, 0, 1<<40, "n2")
	}
	return c
}

func judgeSplit(x any, o *Obs) error {
	c := x.(*splitCase)
	b := modelutil.IndexPerThread(c.T, c.N)
	o.Nontrivial = c.T > 1 && c.N > 0
	o.ClassIf(c.N < c.T, "fewer items than threads")
	o.ClassIf(c.N%c.T != 0, "uneven")
	if len(b) < c.T+1 || b[0] != 0 || b[c.T] != c.N {
		return bad("%d threads, %d items: bounds %v", c.T, c.N, clipInts(b))
	}
	lo, hi := math.MaxInt, 0
	for i := 0; i < c.T; i++ {
		d := b[i+1] - b[i]
		lo, hi = min(lo, d), max(hi, d)
	}
	if lo < 0 || hi-lo > 1 {
		return bad("%d threads, %d items: part sizes from %d to %d", c.T, c.N, lo, hi)
	}
	return nil
}

func judgeCover(x any, o *Obs) error {
	c := x.(*trainCase)
	cfg := &c.Cfg
	r, err := newLinearRun(*cfg, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	n := len(r.order)
	o.Class("%s mem=%v", cfg.Model, cfg.InMemory)
	as := newAssoc(cfg, r.ws)
	lr := float64(cfg.LR)
	// times[v]: how often positions v and v+1 were trained with each other
	times := make([]int, n-1)
	for v := 0; v < n; v++ {
		d := r.dc[v]
		if cfg.Model == "lexvec" {
			d = r.dw[v]
		}
		xs, rest := coefs(r.w0, r.inv, d)
		if norm2(d) > 1e-3*lr*norm2(r.w0[v]) && rest > 1e-3+r.noise(norm2(r.w0[v])+norm2(r.c0[v]))/norm2(d) {
			return bad("%s: vector %d moved by no combination of word vectors", cfg.Model, v)
		}
		for w := range xs {
			unit := 0.5 // 1 - sigmoid(about 0)
			if cfg.Model == "lexvec" {
				unit = 2 * (as.of(v, w) - dot(r.w0[v], r.w0[w]))
				if w != v-1 && w != v+1 {
					unit = 1
				}
			}
			k := xs[w] / lr / unit
			if w != v-1 && w != v+1 {
				if math.Abs(k) > 0.05 {
					return bad("%s: position %d was trained %.3f times with position %d, which is outside its window", cfg.Model, v, k, w)
				}
				continue
			}
			tol := 0.02 + 0.02*math.Abs(k)
			if it := float64(cfg.Iter); it > 20 && math.Abs(k-it) <= tol { // the error of k grows with k
				k, tol = it, 0
			}
			if math.Abs(k-math.Round(k)) > tol || tol > 0.5 {
				return bad("%s: position %d was trained %.3f times with position %d", cfg.Model, v, k, w)
			}
			at, t := min(v, w), int(math.Round(k))
			if w > v {
				times[at] = t
			} else if times[at] != t {
				return bad("%s: position %d was trained %d times with position %d, but the other way round %d times", cfg.Model, v, t, w, times[at])
			}
		}
	}
	// runs of positions that were trained together
	runs := []int{1}
	for v, t := range times {
		switch t {
		case cfg.Iter:
			runs[len(runs)-1]++
		case 0:
			runs = append(runs, 1)
		default:
			return bad("%s: positions %d and %d were trained with each other %d times in %d passes", cfg.Model, v, v+1, t, cfg.Iter)
		}
	}
	o.Nontrivial = len(runs) > 1
	o.ClassIf(n < cfg.Goroutines, "fewer words than threads")
	if cfg.InMemory {
		want := min(n, cfg.Goroutines)
		lo, hi := n, 0
		for _, s := range runs {
			lo, hi = min(lo, s), max(hi, s)
		}
		if len(runs) != want || hi-lo > 1 {
			return bad("%s: %d words on %d goroutines were trained in parts of sizes %v", cfg.Model, n, cfg.Goroutines, runs)
		}
		return nil
	}
	size := def(cfg.Batch, 10000)
	want := (n + size - 1) / size
	for i, s := range runs {
		if i < len(runs)-1 && s != size || s > size {
			want = -1
		}
	}
	if len(runs) != want {
		return bad("%s: %d words in batches of %d were trained in parts of sizes %v", cfg.Model, n, size, runs)
	}
	return nil
}

// blocks: the parts share no words, so training them at the same time gives
// what training them one after the other gives.
func genBlocks(t *rapid.T) any {
	c := &trainCase{Seed: int64(uniform(t, 1, 1<<20, "seed"))}
	g := modelCfg{Model: "word2vec", Kind: pick(t, "kind", "cbow", "skipgram"), Opt: "ns", Window: 1, InMemory: boolean(t, "mem"), Max: -1}
	if chance(t, 3, "lexvec") {
		g.Model, g.Kind, g.Opt, g.Rel, g.Smooth = "lexvec", "", "", pick(t, "rel", "ppmi", "pmi", "logco"), 1
	}
	g.Dim, g.Iter = intIn(t, 1, 40, "dim"), intIn(t, 1, 3, "iter")
	g.Goroutines = pick(t, "gor", 2, 3, 4, 8, 16)
	if chance(t, 10, "fargor") {
		g.Goroutines = uniform(t, 17, 300, "gor2")
	}
	g.LR = pick(t, "lr", F(0.025), F(0.1))
	g.MinLR = g.LR
	n := uniform(t, 2, 400, "n")
	long := chance(t, 40, "long")
	if long {
		n = uniform(t, 400, 25000, "nlong")
		g.Dim = min(g.Dim, 8)
		g.LR, g.MinLR = 0.01, 0.01
	}
	g.Batch = max(1, n/uniform(t, 1, 12, "nb"))
	if long {
		g.Batch = pick(t, "longbatch", 0, 0, 1000, 1024, 4096, 65536)
	}
	np := intIn(t, 1, 6, "np")
	doc := make([]int, n)
	ps := parts(doc, &g, modelutil.IndexPerThread)
	var ws []string
	for i, p := range ps {
		for range p {
			ws = append(ws, fmt.Sprintf("p%dw%d", i, intIn(t, 0, np-1, "w")))
		}
	}
	c.Text, c.Cfg = joinWords(ws), g
	return c
}

func judgeBlocks(x any, o *Obs) error {
	c := x.(*trainCase)
	cfg := c.Cfg
	cfg0 := cfg
	cfg0.Iter = 0
	m0, err := trained(cfg0, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	m1, err := trained(cfg, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	s0, a0 := rowsOf(m0.WordVector("single")), rowsOf(m0.WordVector("agg"))
	s1, a1 := rowsOf(m1.WordVector("single")), rowsOf(m1.WordVector("agg"))
	ws := tokens(string(c.Text), false)
	as := newAssoc(&cfg, ws)
	if len(s1) != len(as.order) || len(s0) != len(as.order) {
		return bad("%d vectors for %d words", len(s1), len(as.order))
	}
	id := map[string]int{}
	for i, w := range as.order {
		id[w] = i
	}
	// the division is given by the words' names
	var ps [][]int
	last := ""
	for _, w := range ws {
		p, _, _ := strings.Cut(w, "w")
		if p != last {
			ps, last = append(ps, nil), p
		}
		ps[len(ps)-1] = append(ps[len(ps)-1], id[w])
	}
	if real := parts(make([]int, len(ws)), &cfg, modelutil.IndexPerThread); true {
		i := 0
		for _, p := range real {
			if len(p) == 0 {
				continue
			}
			if i >= len(ps) || len(ps[i]) != len(p) {
				return nil // shrunk to a document that no longer fits its division
			}
			i++
		}
	}
	o.Class("%s%s mem=%v", cfg.Model, cfg.Kind, cfg.InMemory)
	o.Nontrivial = len(ps) > 1
	var c0 [][]float64
	for i := range s0 {
		c0 = append(c0, subv(a0[i], s0[i]))
	}
	compare := func(w, cv [][]float64, tol float64) error {
		for i := range w {
			for j := range w[i] {
				if d := math.Max(math.Abs(s1[i][j]-w[i][j]), math.Abs(a1[i][j]-s1[i][j]-cv[i][j])); !(d <= tol) {
					return bad("%s %s: %d parts without common words, %d goroutines: the vectors of %q differ by %.3g from training the parts one after the other (allowed %.3g)", cfg.Model, cfg.Kind, len(ps), cfg.Goroutines, as.order[i], d, tol)
				}
			}
		}
		return nil
	}
	if cfg.Model == "lexvec" {
		w := clone(s0)
		for it := 0; it < cfg.Iter; it++ {
			for _, p := range ps {
				for pos, e := range p {
					for _, q := range []int{pos - 1, pos + 1} {
						if q < 0 || q >= len(p) {
							continue
						}
						a, b := w[e], w[p[q]]
						d := (dot(a, b) - as.of(e, p[q])) * float64(cfg.LR)
						for i := range a {
							t1, t2 := d*b[i], d*a[i]
							a[i] -= t1
							b[i] -= t2
						}
						if !(dot(a, a)+dot(b, b) < 1e4) {
							o.Class("diverging")
							return nil // outside the stable range of rates
						}
					}
				}
			}
		}
		return compare(w, c0, 1e-8)
	}
	var w, cv [2][][]float64
	for i, sig := range []func(float64) float64{sigmoid, tableSigmoid} {
		r := refW2V{cfg: &cfg, w: clone(s0), c: clone(c0), sig: sig}
		for it := 0; it < cfg.Iter; it++ {
			for _, p := range ps {
				r.train(p, &chooser{})
			}
		}
		w[i], cv[i] = r.w, r.c
	}
	d, mv := 0., 0.
	for i := range w[0] {
		for j := range w[0][i] {
			d = math.Max(d, math.Max(math.Abs(w[0][i][j]-w[1][i][j]), math.Abs(cv[0][i][j]-cv[1][i][j])))
			mv = math.Max(mv, math.Max(math.Abs(w[0][i][j]), math.Abs(cv[0][i][j])))
		}
	}
	return compare(w[0], cv[0], 3*d+0.004*float64(cfg.LR)*mv+1e-12)
}

func init() {
	register(&Prop{ID: "C18",
		Rule:  "documents of 2..120 words (distinct, but for one word repeated any number of times at any positions, which may be beyond the frequency limits) trained with a tiny initial rate, any minimum, update batch, division and number of passes, and once at a constant rate with the same seed: the ratio of the displacements of each position's vectors is its learning rate; non-trivial: an update happens and the minimum is below the initial rate",
		Parts: []Part{{Name: "rate", Quick: 12000, Thorough: 150000, New: func() any { return &lrCase{} }, Gen: genC18, Judge: judgeC18}}})
	register(&Prop{ID: "C19",
		Rule: "part 'split': bounds of 1..300 threads over 0..2^40 items; part 'cover': documents of distinct words, window 1, tiny rate: which neighbouring positions were trained together, and how often, read off the vectors; part 'blocks': documents whose parts share no words trained in parallel, compared with an independent trainer going through the parts in order; part 'pairs': the GloVe pairs of a document over 1..8 goroutines; non-trivial: more than one part",
		Parts: []Part{
			{Name: "split", Quick: 20000, Thorough: 2000000, New: func() any { return &splitCase{} }, Gen: genSplit, Judge: judgeSplit},
			{Name: "cover", Isolated: true, Serial: true, Quick: 2000, Thorough: 80000, New: func() any { return &trainCase{} }, Gen: genLinear("", true), Judge: judgeCover},
			{Name: "blocks", Quick: 3000, Thorough: 100000, New: func() any { return &trainCase{} }, Gen: genBlocks, Judge: judgeBlocks},
			{Name: "pairs", Isolated: true, Serial: true, Quick: 1000, Thorough: 40000, New: func() any { return &trainCase{} }, Gen: genGlove(false), Judge: judgeGloveLinear},
		}})
}
