package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/model/modelutil/vector"
)

// ---- C40 ----------------------------------------------------------------

// What a training starts from: the result of one with no pass.
type initCase struct {
	Cfg   modelCfg
	Words int
	Extra []int // further occurrences of words, by number
	Seed  int64
	Seed2 int64
}

func genC40(t *rapid.T) any {
	c := &initCase{Cfg: genCfg(t), Seed: int64(uniform(t, 1, 1<<30, "seed")), Seed2: int64(uniform(t, 1, 1<<30, "seed2"))}
	g := &c.Cfg
	g.Iter = 0
	g.Batch = max(g.Batch, 100)
	g.Window = min(g.Window, 10)
	g.Dim = pick(t, "dim", 1, 2, 3, 10, 10, 50, 100)
	if chance(t, 3, "any dim") {
		g.Dim = uniform(t, 1, 400, "dim2")
	}
	size := pick(t, "size", 100, 1000, 4000, 20000)
	if chance(t, 20, "larger") {
		size = 100000
	}
	c.Words = min(uniform(t, 1, max(1, size/g.Dim)+1, "words"), 6000)
	if boolean(t, "full") {
		c.Words = min(max(1, size/g.Dim)+1, 6000)
	}
	for i, n := 0, intIn(t, 0, 30, "nextra"); i < n; i++ {
		c.Extra = append(c.Extra, uniform(t, 0, c.Words-1, "extra"))
	}
	return c
}

// The bounds below are those for a false alarm once in 1e13 tests.
const lnRare = 30.6 // ln(2e13)

// flatOn01 tells whether the values look drawn uniformly from [0, 1]
// (Dvoretzky-Kiefer-Wolfowitz).
func flatOn01(u []float64) (float64, bool) {
	s := append([]float64(nil), u...)
	sort.Float64s(s)
	d, n := 0., float64(len(s))
	for i, x := range s {
		d = math.Max(d, math.Max(math.Abs(x-float64(i)/n), math.Abs(x-float64(i+1)/n)))
	}
	return d, d <= math.Sqrt(lnRare/(2*n))
}

// unrelated tells whether pairs of values centred on 1/2 look uncorrelated:
// the products are martingale differences of at most 1/4 (Azuma).
func unrelated(u, v []float64) (float64, bool) {
	s := 0.
	for i := range u {
		s += (u[i] - 0.5) * (v[i] - 0.5)
	}
	n := float64(len(u))
	return s / n, math.Abs(s) <= math.Sqrt(2*n/16*lnRare)
}

func judgeC40(x any, o *Obs) error {
	c := x.(*initCase)
	var sb strings.Builder
	for i := 0; i < c.Words; i++ {
		fmt.Fprintf(&sb, "w%d ", i)
	}
	for _, e := range c.Extra {
		fmt.Fprintf(&sb, "w%d ", e%c.Words)
	}
	d := c.Cfg.Dim
	what := c.Cfg.Model + " " + c.Cfg.Opt
	o.Class("%s", what)
	o.Nontrivial = c.Words*d >= 500
	start := func(seed int64) (single, ctx []float64, err error) {
		m, err := trained(c.Cfg, sb.String(), seed)
		if err != nil {
			return nil, nil, err
		}
		s, a := rowsOf(m.WordVector(vector.Single)), rowsOf(m.WordVector(vector.Agg))
		if len(s) != c.Words || len(a) != c.Words {
			return nil, nil, bad("%s: %d and %d vectors for %d words", what, len(s), len(a), c.Words)
		}
		for i := range s {
			if len(s[i]) != d || len(a[i]) != d {
				return nil, nil, bad("%s: vectors of %d and %d components, not %d", what, len(s[i]), len(a[i]), d)
			}
			for j := range s[i] {
				single, ctx = append(single, s[i][j]), append(ctx, a[i][j]-s[i][j])
			}
		}
		return single, ctx, nil
	}
	single, ctx, err := start(c.Seed)
	if err != nil {
		return err
	}
	sets := map[string][]float64{"own": single, "context": ctx}
	if c.Cfg.Model == "word2vec" && c.Cfg.Opt == "hs" {
		delete(sets, "context")
	}
	unit := map[string][]float64{}
	for name, vs := range sets {
		u := make([]float64, len(vs))
		for i, x := range vs {
			u[i] = x * float64(d) // glove: from 0 to 1/dimension
			if c.Cfg.Model != "glove" {
				u[i] += 0.5 // around 0
			}
			if !(u[i] >= -1e-9 && u[i] <= 1+1e-9) {
				return bad("%s: the %s vector of word %d starts with component %d at %v, out of range for %d dimensions", what, name, i/d, i%d, x, d)
			}
		}
		unit[name] = u
	}
	for name, u := range unit {
		slices := map[string][]float64{"all": u}
		for _, k := range []int{0, 1, d / 2, d - 1} { // components
			if k < d {
				for i := k; i < len(u); i += d {
					key := fmt.Sprintf("component %d of all", k)
					slices[key] = append(slices[key], u[i])
				}
			}
		}
		for _, k := range []int{0, 1, c.Words / 2, c.Words - 1} { // words
			if k < c.Words {
				slices[fmt.Sprintf("all components of word %d in the", k)] = u[k*d : (k+1)*d]
			}
		}
		for what2, s := range slices {
			if len(s) < 40 {
				continue
			}
			if dist, ok := flatOn01(s); !ok {
				return bad("%s, %d words, %d dimensions: %s %s vectors at the start are not spread evenly (distance %.4f from the law)", what, c.Words, d, what2, name, dist)
			}
		}
		for _, lag := range []int{1, 2, d - 1, d, d + 1, 2 * d, len(u) / 2} {
			if lag > 0 && len(u)-lag >= 100 {
				if r, ok := unrelated(u[lag:], u[:len(u)-lag]); !ok {
					return bad("%s, %d words, %d dimensions: components of the %s vectors %d apart are related at the start (%.5f)", what, c.Words, d, name, lag, r)
				}
			}
		}
		// 53 random bits: hardly two are the same
		seen, twice := map[float64]int{}, 0
		for i, x := range sets[name] {
			j, ok := seen[x]
			if ok && name == "own" {
				twice++
			}
			if twice > len(u)/2000 {
				return bad("%s, %d words, %d dimensions: component %d of word %d and component %d of word %d start at the same value %v", what, c.Words, d, j%d, j/d, i%d, i/d, x)
			}
			seen[x] = i
		}
	}
	if u, v := unit["own"], unit["context"]; v != nil && len(u) >= 100 {
		if r, ok := unrelated(u, v); !ok {
			return bad("%s, %d words, %d dimensions: own and context vectors are related at the start (%.5f)", what, c.Words, d, r)
		}
	}
	// another seed, other vectors
	if c.Seed2 != c.Seed {
		again, _, err := start(c.Seed2)
		if err != nil {
			return err
		}
		same := 0
		for i := range again {
			if again[i] == single[i] {
				same++
			}
		}
		if same > 0 {
			return bad("%s: %d of %d components start at the same value for another seed of the random source", what, same, len(single))
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:    "C40",
		Rule:  "trainings of no pass of every model over vocabularies of 1..6000 words at 1..400 dimensions: range of every component, evenness (Dvoretzky-Kiefer-Wolfowitz, false-alarm probability 1e-13 per test) of all components, of single ones and of single words, lag correlations (Azuma, the same), distinctness, and another seed; non-trivial: at least 500 components",
		Parts: []Part{{Name: "start", Quick: 3000, Thorough: 100000, New: func() any { return &initCase{} }, Gen: genC40, Judge: judgeC40}},
	})
}
