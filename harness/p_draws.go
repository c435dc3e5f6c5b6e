package main

import (
	"fmt"
	"math"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/model/modelutil"
)

// ---- C15/C17: how windows and negative samples are drawn --------------------

// Windows are read off documents of unique words, in which every pair of words
// has one distance; negative samples off documents in which every pair of
// words is adjacent once. Bounds are odd: the documented generator is a linear
// congruential one, whose even bounds are regular by nature.
func genDraws(model string) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		c := &trainCase{Seed: int64(uniform(t, 1, 1<<20, "seed"))}
		g := modelCfg{Model: model, Goroutines: pick(t, "gor", 1, 1, 2, 4), InMemory: boolean(t, "mem"), Max: -1, Batch: 10000}
		if model == "word2vec" {
			g.Kind, g.Opt = pick(t, "kind", "cbow", "skipgram"), "ns"
			g.LR = tinyLR
		} else {
			g.Rel, g.Smooth = pick(t, "rel", "ppmi", "pmi", "co"), pick(t, "smooth", F(0.75), F(1), F(2))
			g.LR = tinyLR / 10
		}
		g.MinLR = g.LR
		var ws []string
		if boolean(t, "windows") {
			g.Window = 2*uniform(t, 1, 15, "win") + 1
			g.Iter = uniform(t, 1, 20, "iter")
			if model == "lexvec" {
				g.Window, g.Iter = min(g.Window, 15), min(g.Iter, 4)
			}
			n := uniform(t, 3, 44, "n")
			if chance(t, 12, "far") {
				g.Window, g.Iter = 2*uniform(t, 15, 90, "farwin")+1, min(g.Iter, 3)
				n = uniform(t, 60, 330, "farn")
			}
			for i := 0; i < n; i++ {
				ws = append(ws, fmt.Sprintf("u%d", i))
			}
		} else {
			g.Window = 1
			g.Neg = pick(t, "neg", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 20, 25, 30, 50, 90)
			v := pick(t, "v", 5, 7, 11, 13)
			g.Iter = uniform(t, 1, max(1, 60/g.Neg), "iter")
			if model == "lexvec" {
				g.Iter = min(g.Iter, 5)
			}
			// every pair once: walks around the circle with steps 1, 2, ...
			at := uniform(t, 0, v-1, "start")
			ws = append(ws, fmt.Sprintf("u%d", at))
			for step := 1; step <= (v-1)/2; step++ {
				for i := 0; i < v; i++ {
					at = (at + step) % v
					ws = append(ws, fmt.Sprintf("u%d", at))
				}
			}
			g.Goroutines, g.Smooth = 1, 1
		}
		c.Text = joinWords(ws)
		seen := map[string]bool{}
		for _, w := range ws {
			seen[w] = true
		}
		g.Dim = 2*len(seen) + 4
		c.Cfg = g
		return c
	}
}

// near rate: hits is known up to a share slack; half counts allow for draws
// shared by two steps.
func looseRate(hits, n, p, slack float64) bool {
	lo, hi := hits*(1-slack), hits*(1+slack)
	q := math.Min(math.Max(n*p, lo), hi) / n
	if !(q >= 0) {
		return false
	}
	return n/2*kl(math.Min(q, 1), p) <= 30
}

func judgeDraws(x any, o *Obs) error {
	c := x.(*trainCase)
	cfg := &c.Cfg
	lr, err := newLinearRun(*cfg, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	V := len(lr.order)
	doc := filteredDoc(lr, cfg)
	ps := parts(doc, cfg, modelutil.IndexPerThread)
	o.Class("%s%s %s", cfg.Kind, cfg.Rel, map[bool]string{true: "windows", false: "negatives"}[cfg.Neg == 0])
	rate := float64(cfg.LR)
	as := newAssoc(cfg, lr.ws)
	// times[v][w]: steps of target v with context w (lexvec: in either role)
	times := make([][]float64, V)
	for v := range times {
		var xs []float64
		if cfg.Model == "word2vec" {
			xs, _ = coefs(lr.w0, lr.inv, lr.dc[v])
		} else if cfg.Neg == 0 {
			xs, _ = coefs(lr.w0, lr.inv, lr.dw[v])
		} else {
			xs, _ = coefs(lr.w0, lr.inv, lr.dc[v])
		}
		times[v] = make([]float64, V)
		for w := range xs {
			switch {
			case cfg.Model == "word2vec":
				times[v][w] = xs[w] / rate * 2
			case cfg.Neg == 0:
				times[v][w] = xs[w] / rate / (as.of(v, w) - dot(lr.w0[v], lr.w0[w]))
			default:
				times[v][w] = xs[w] / rate / (as.of(w, v) - dot(lr.w0[w], lr.c0[v]))
			}
		}
	}
	if cfg.Neg == 0 {
		return judgeWindows(cfg, lr, ps, times, o)
	}
	if len(ps) != 1 {
		return nil
	}
	o.Nontrivial = true
	at := pairAt(ps, V, 1)
	for v := 0; v < V; v++ {
		n, hits := 0., 0.
		for w := 0; w < V; w++ {
			if cfg.Model == "lexvec" {
				if w == v {
					continue // no association, no visible step
				}
				for t := 0; t < V; t++ {
					n += float64(at[1][w][t] * cfg.Iter * cfg.Neg)
				}
				hits += times[v][w]
				continue
			}
			for t := 0; t < V; t++ {
				if t != v {
					n += float64(at[1][t][w] * cfg.Iter * cfg.Neg)
				}
			}
			hits += float64(at[1][v][w]*cfg.Iter) - times[v][w]
		}
		if !looseRate(hits, n, 1/float64(V), 0.03) {
			return bad("%s %s: %q was the negative sample in %.1f of %.0f draws (%d samples per step, %d words)", cfg.Model, cfg.Kind, lr.order[v], hits, n, cfg.Neg, V)
		}
	}
	return nil
}

func judgeWindows(cfg *modelCfg, lr *linearRun, ps [][]int, times [][]float64, o *Obs) error {
	total := make([]float64, cfg.Window+1)
	num := make([]float64, cfg.Window+1)
	share := 1.
	if cfg.Model == "lexvec" {
		share = 2 // both words' draws move the pair
	}
	for _, p := range ps {
		if len(p) > 1 {
			o.Nontrivial = true
		}
		for i := range p {
			last := math.Inf(1)
			for d := 1; d <= cfg.Window && i+d < len(p); d++ {
				n := times[p[i]][p[i+d]]
				most := share * float64(cfg.Iter)
				k := math.Round(n)
				if k < 0 || k > most || math.Abs(n-k) > 0.45 {
					return bad("%s %s%s window=%d: %q took %.3f steps with %q at distance %d, at most %v are possible", cfg.Model, cfg.Kind, cfg.Rel, cfg.Window, lr.order[p[i]], n, lr.order[p[i+d]], d, most)
				}
				if cfg.Model == "word2vec" {
					// one draw decides on both sides and on all nearer words
					if k > last {
						return bad("%s window=%d: %q took %v steps with %q at distance %d, but %v at distance %d", cfg.Kind, cfg.Window, lr.order[p[i]], k, lr.order[p[i+d]], d, last, d-1)
					}
					last = k
					if i-d >= 0 {
						if b := math.Round(times[p[i]][p[i-d]]); b != k {
							return bad("%s window=%d: %q took %v steps with %q, %v with %q, both at distance %d", cfg.Kind, cfg.Window, lr.order[p[i]], k, lr.order[p[i+d]], b, lr.order[p[i-d]], d)
						}
					}
				}
				total[d] += k
				num[d] += most
			}
			// nothing beyond the window
			for d := cfg.Window + 1; i+d < len(p) && cfg.Model == "word2vec"; d++ {
				if n := times[p[i]][p[i+d]]; math.Abs(n) > 0.45 {
					return bad("%s window=%d: %q took %.2f steps with %q at distance %d", cfg.Kind, cfg.Window, lr.order[p[i]], n, lr.order[p[i+d]], d)
				}
			}
		}
	}
	for d := 1; d <= cfg.Window; d++ {
		want := float64(cfg.Window-d+1) / float64(cfg.Window)
		o.ClassIf(num[d] >= 100, "rate over 100 draws")
		if num[d] > 0 && (d == 1 && total[d] != num[d] || d > 1 && !looseRate(total[d], num[d], want, 0)) {
			return bad("%s %s%s window=%d: words at distance %d were trained in %v of %v draws, expected a share of %.3f", cfg.Model, cfg.Kind, cfg.Rel, cfg.Window, d, total[d], num[d], want)
		}
	}
	return nil
}
