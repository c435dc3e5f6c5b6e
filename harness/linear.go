package main

import (
	"math"
	"strings"
)

// With a tiny learning rate every training step moves the vectors by a known
// first-order amount, so sums over steps can be read off the displacement:
// linearRun trains the same seeded model with 0 and with Iter iterations.
type linearRun struct {
	order  []string
	id     map[string]int
	freq   map[string]int
	ws     []string // all tokens
	w0, c0 [][]float64
	dw, dc [][]float64
	inv    [][]float64 // (w0 w0^T)^-1
	invC   [][]float64 // (c0 c0^T)^-1
	steps  int         // at most so many per occurrence of a word
}

func newLinearRun(cfg modelCfg, text string, seed int64) (*linearRun, error) {
	r := &linearRun{ws: tokens(text, cfg.ToLower), steps: 2 * max(cfg.Iter, 1) * max(cfg.Window, 1) * (cfg.Neg + 1)}
	r.order, r.freq = firstAppearance(r.ws)
	r.id = map[string]int{}
	for i, w := range r.order {
		r.id[w] = i
	}
	cfg0 := cfg
	cfg0.Iter = 0
	m0, err := trained(cfg0, text, seed)
	if err != nil {
		return nil, err
	}
	m1, err := trained(cfg, text, seed)
	if err != nil {
		return nil, err
	}
	s0, a0 := rowsOf(m0.WordVector("single")), rowsOf(m0.WordVector("agg"))
	s1, a1 := rowsOf(m1.WordVector("single")), rowsOf(m1.WordVector("agg"))
	n := len(r.order)
	if len(s0) != n || len(s1) != n || len(a0) != n || len(a1) != n {
		return nil, bad("%d vectors for %d words", len(s1), n)
	}
	for i := 0; i < n; i++ {
		c0, c1 := subv(a0[i], s0[i]), subv(a1[i], s1[i])
		r.w0, r.c0 = append(r.w0, s0[i]), append(r.c0, c0)
		r.dw, r.dc = append(r.dw, subv(s1[i], s0[i])), append(r.dc, subv(c1, c0))
	}
	r.inv, r.invC = invGram(r.w0), invGram(r.c0)
	if r.inv == nil || r.invC == nil {
		return nil, bad("the initial vectors are not independent (%d words, dimension %d)", n, cfg.Dim)
	}
	return r, nil
}

// invGram inverts the Gram matrix of the rows; nil if (nearly) singular.
func invGram(rows [][]float64) [][]float64 {
	n := len(rows)
	a := make([][]float64, n)
	scale := 0.
	for i := range a {
		a[i] = make([]float64, 2*n)
		for j := range rows {
			a[i][j] = dot(rows[i], rows[j])
		}
		scale = math.Max(scale, a[i][i])
		a[i][n+i] = 1
	}
	for k := 0; k < n; k++ {
		p := k
		for i := k + 1; i < n; i++ {
			if math.Abs(a[i][k]) > math.Abs(a[p][k]) {
				p = i
			}
		}
		if !(math.Abs(a[p][k]) > 1e-6*scale) {
			return nil
		}
		a[k], a[p] = a[p], a[k]
		f := a[k][k]
		for j := k; j < 2*n; j++ {
			a[k][j] /= f
		}
		for i := 0; i < n; i++ {
			if i == k || a[i][k] == 0 {
				continue
			}
			f := a[i][k]
			for j := k; j < 2*n; j++ {
				a[i][j] -= f * a[k][j]
			}
		}
	}
	for i := range a {
		a[i] = a[i][n:]
	}
	return a
}

// coefs writes d as a combination of the rows; rest is the norm of what is
// left over, relative to d.
// noise is what rounding may add up to over the steps of a vector of that norm.
func (r *linearRun) noise(norm float64) float64 {
	return 1e-15 * norm * math.Sqrt(float64(len(r.ws)*r.steps))
}

func coefs(rows, inv [][]float64, d []float64) (x []float64, rest float64) {
	n := len(rows)
	b := make([]float64, n)
	for i := range rows {
		b[i] = dot(rows[i], d)
	}
	x = make([]float64, n)
	res := append([]float64(nil), d...)
	for i := range x {
		x[i] = dot(inv[i], b)
	}
	for i := range rows {
		for j := range res {
			res[j] -= x[i] * rows[i][j]
		}
	}
	nd := math.Sqrt(dot(d, d))
	if nd == 0 {
		return x, 0
	}
	return x, math.Sqrt(dot(res, res)) / nd
}

func combine(rows [][]float64, x func(i int) float64, dim int) []float64 {
	r := make([]float64, dim)
	for i := range rows {
		f := x(i)
		for j := range r {
			r[j] += f * rows[i][j]
		}
	}
	return r
}

func norm2(v []float64) float64 { return math.Sqrt(dot(v, v)) }

func sigmoid(x float64) float64 { return 1 / (1 + math.Exp(-x)) }

// parts says how a filtered document is divided, for tests that do not
// themselves decide that: in memory by IndexPerThread, else by batch.
func parts(doc []int, cfg *modelCfg, bounds func(threads, n int) []int) [][]int {
	var ps [][]int
	if cfg.InMemory {
		b := bounds(cfg.Goroutines, len(doc))
		for i := 0; i+1 < len(b); i++ {
			ps = append(ps, doc[b[i]:b[i+1]])
		}
		return ps
	}
	size := def(cfg.Batch, 10000)
	for len(doc) > size {
		ps, doc = append(ps, doc[:size]), doc[size:]
	}
	return append(ps, doc)
}

func joinWords(ws []string) B { return B(strings.Join(ws, " ")) }

// chooser enumerates all sequences of choices a program makes.
type chooser struct {
	path []int
	size []int
	pos  int
}

func (c *chooser) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if c.pos == len(c.path) {
		c.path, c.size = append(c.path, 0), append(c.size, n)
	}
	c.pos++
	return c.path[c.pos-1]
}

// next moves to the next sequence; false when all were seen.
func (c *chooser) next() bool {
	c.path, c.size = c.path[:c.pos], c.size[:c.pos]
	for i := len(c.path) - 1; i >= 0; i-- {
		if c.path[i]+1 < c.size[i] {
			c.path[i]++
			c.path, c.size = c.path[:i+1], c.size[:i+1]
			c.pos = 0
			return true
		}
	}
	return false
}

// exists runs prog for every sequence of choices until it answers true.
// all is false if the limit was reached first.
func exists(limit int, prog func(c *chooser) bool) (found, all bool, n int) {
	c := &chooser{}
	for n = 1; ; n++ {
		c.pos = 0
		if prog(c) {
			return true, true, n
		}
		if !c.next() {
			return false, true, n
		}
		if n >= limit {
			return false, false, n
		}
	}
}
