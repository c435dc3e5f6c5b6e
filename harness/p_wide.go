package main

import (
	"fmt"
	"math/rand"
	"strings"

	"pgregory.net/rapid"
)

// Large cases are described compactly: a seed and a few sizes, from which the
// judge expands the same case type the small parts use and hands it to the
// same oracle. The description is what shrinks and what a replay file holds.

type wideSet struct {
	Seed   int64
	N, Dim int
	Grid   bool // components -3..3 (ties), else reals
	Dup    int  // out of 100: words that repeat an earlier word
	Zero   int  // out of 100: zero vectors
	Copy   int  // out of 100: multiples of an earlier vector
}

func genWideSet(t *rapid.T, maxN, maxDim, maxCells int) wideSet {
	w := wideSet{Seed: int64(uniform(t, 0, 1<<30, "seed")), N: uniform(t, 1, maxN, "n")}
	w.Dim = pick(t, "dim", 1, 2, 3, 8, 50, 100, 128, 200, 256, 300, maxDim)
	if chance(t, 3, "anydim") {
		w.Dim = uniform(t, 1, maxDim, "dim")
	}
	w.Dim = min(w.Dim, maxDim)
	if w.N*w.Dim > maxCells {
		w.N = max(1, maxCells/w.Dim)
	}
	w.Grid = boolean(t, "grid")
	w.Dup = pick(t, "dup", 0, 0, 2, 30)
	w.Zero = pick(t, "zero", 0, 1, 20)
	w.Copy = pick(t, "copy", 0, 3, 40)
	return w
}

func (w wideSet) rng() *rand.Rand { return rand.New(rand.NewSource(w.Seed)) }

func (w wideSet) expand(rng *rand.Rand) embSet {
	var s embSet
	for i := 0; i < w.N; i++ {
		word := B(fmt.Sprintf("w%d", i))
		if i > 0 && rng.Intn(100) < w.Dup {
			word = s.Words[rng.Intn(i)]
		}
		s.Words = append(s.Words, word)
		var v []F
		switch {
		case rng.Intn(100) < w.Zero:
			v = make([]F, w.Dim)
		case i > 0 && rng.Intn(100) < w.Copy:
			f := F([]int{1, -1, 2, -2, 4}[rng.Intn(5)])
			for _, x := range s.Vecs[rng.Intn(i)] {
				if x *= f; x > 1000 || x < -1000 {
					x /= 1024
				}
				v = append(v, x)
			}
		default:
			v = w.vec(rng)
		}
		s.Vecs = append(s.Vecs, v)
	}
	return s
}

func (w wideSet) vec(rng *rand.Rand) []F {
	v := make([]F, w.Dim)
	for j := range v {
		if w.Grid {
			v[j] = F(rng.Intn(7) - 3)
		} else {
			v[j] = F(rng.Float64()*20 - 10)
		}
	}
	return v
}

type wideSearchCase struct {
	Set    wideSet
	K      int
	Ignore int // ignored words
	Own    bool
}

func genWideSearch(maxN int) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		c := &wideSearchCase{Set: genWideSet(t, maxN, 400, 400000)}
		if chance(t, 20, "many") {
			c.Set.N, c.Set.Dim = uniform(t, 60000, 140000, "n many"), intIn(t, 1, 3, "dim many")
		}
		c.K = genK(t, c.Set.N)
		if c.Set.N > 60000 { // the time goes with the product
			c.K = min(c.K, 500)
		}
		if chance(t, 3, "smallk") {
			c.K = intIn(t, 1, 12, "k")
		}
		c.Ignore = pick(t, "ign", 0, 1, 3, 40, c.Set.N)
		c.Own = boolean(t, "own")
		return c
	}
}

func (c *wideSearchCase) expand() *searchCase {
	rng := c.Set.rng()
	s := c.Set.expand(rng)
	x := &searchCase{Set: s, K: c.K}
	if c.Own {
		x.Query = s.Vecs[rng.Intn(len(s.Vecs))]
	} else {
		x.Query = c.Set.vec(rng)
	}
	for i := 0; i < c.Ignore; i++ {
		x.Ignore = append(x.Ignore, s.Words[rng.Intn(len(s.Words))])
	}
	x.QWord = s.Words[rng.Intn(len(s.Words))]
	if rng.Intn(12) == 0 {
		x.QWord = "unknown"
	}
	return x
}

func judgeC01Wide(x any, o *Obs) error { return judgeC01(x.(*wideSearchCase).expand(), o) }

func judgeC02Wide(x any, o *Obs) error {
	c := x.(*wideSearchCase).expand()
	c.Ignore = nil
	return judgeC02(c, o)
}

type wideSeqCase struct {
	Set wideSet
	Ops int
	Par int
}

func genC33Wide(par bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		maxN, maxOps := 1500, 150
		if par {
			maxN, maxOps = 400, 24
		}
		c := &wideSeqCase{Set: genWideSet(t, maxN, 64, 30000), Ops: uniform(t, 2, maxOps, "ops")}
		if par {
			c.Par = uniform(t, 2, 32, "par")
		}
		return c
	}
}

func judgeC33Wide(x any, o *Obs) error {
	c := x.(*wideSeqCase)
	rng := c.Set.rng()
	s := c.Set.expand(rng)
	q := &searchSeqCase{Set: s, Par: c.Par}
	for i := 0; i < c.Ops; i++ {
		op := searchOp{Kind: rng.Intn(3), K: 1 + rng.Intn(12)}
		if rng.Intn(4) == 0 {
			op.K = rng.Intn(len(s.Words) + 3)
		}
		op.Query = c.Set.vec(rng)
		op.Word = s.Words[rng.Intn(len(s.Words))]
		if rng.Intn(10) == 0 {
			op.Word = "unknown"
		}
		for j := rng.Intn(5); j > 0; j-- {
			op.Ignore = append(op.Ignore, s.Words[rng.Intn(len(s.Words))])
		}
		q.Ops = append(q.Ops, op)
	}
	return judgeC33(q, o)
}

type wideValidCase struct {
	Set  wideSet
	Odd  int // position of an item of another dimension, -1 none
	OddD int
	Find int
}

func genC32Wide(t *rapid.T) any {
	c := &wideValidCase{Set: genWideSet(t, 6000, 12, 30000), Odd: -1, Find: intIn(t, 1, 40, "find")}
	if chance(t, 20, "many") {
		c.Set.N, c.Set.Dim, c.Find = uniform(t, 60000, 140000, "n many"), intIn(t, 1, 3, "dim many"), 3
	}
	c.OddD = pick(t, "oddd", -1, 1)
	switch intIn(t, 0, 3, "where") {
	case 0:
		c.Odd = c.Set.N - 1
	case 1:
		c.Odd = uniform(t, 0, c.Set.N-1, "odd")
	}
	return c
}

func judgeC32Wide(x any, o *Obs) error {
	c := x.(*wideValidCase)
	rng := c.Set.rng()
	s := c.Set.expand(rng)
	v := &validCase{}
	for i, w := range s.Words {
		it := rawItem{Word: w, Dim: c.Set.Dim, Vec: s.Vecs[i]}
		if i == c.Odd {
			it.Dim += c.OddD
			if it.Dim == 0 {
				it.Dim = 2
			}
			it.Vec = make([]F, it.Dim)
		}
		v.Set = append(v.Set, it)
		if rng.Intn(50) == 0 && len(v.Items) < 40 {
			it := it
			if rng.Intn(2) == 0 {
				it.Dim += rng.Intn(3) - 1
			}
			v.Items = append(v.Items, it)
		}
	}
	for i := 0; i < c.Find; i++ {
		w := s.Words[rng.Intn(len(s.Words))]
		switch rng.Intn(6) {
		case 0:
			w = s.Words[len(s.Words)-1]
		case 1:
			w = B(strings.ToUpper(string(w)))
		case 2:
			w = w[:len(w)-1]
		}
		v.Find = append(v.Find, w)
	}
	return judgeC32(v, o)
}

// ---- dictionary, trees, matrices, pair codes ------------------------------

type wideTreeCase struct {
	Seed    int64
	N       int
	Kind    int // 0 equal, 1 small, 2 wide, 3 Zipf, 4 Fibonacci
	Dim     int
	Lookups int
	Par     int
}

func genWideTree(maxN int, lookups, par bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		maxN := maxN
		if chance(t, 25, "larger") {
			maxN *= 5
		}
		c := &wideTreeCase{Seed: int64(uniform(t, 0, 1<<30, "seed")), N: uniform(t, 1, maxN, "n"), Kind: intIn(t, 0, 4, "kind"), Dim: pick(t, "dim", 1, 2, 10, 100, 300, 1000)}
		if c.Kind == 4 {
			c.N = uniform(t, 14, 27, "nfib")
		}
		c.Dim = min(c.Dim, max(1, 30000/c.N))
		if lookups {
			c.Dim, c.Lookups = 1, uniform(t, 2, 400, "lookups")
		}
		if par {
			c.Par = uniform(t, 2, 32, "par")
		}
		return c
	}
}

func (c *wideTreeCase) expand() *treeCase {
	rng := rand.New(rand.NewSource(c.Seed))
	x := &treeCase{Dim: c.Dim, Par: c.Par}
	a, b := 1, 1
	for i := 0; i < c.N; i++ {
		f := 1
		switch c.Kind {
		case 1:
			f = 1 + rng.Intn(3)
		case 2:
			f = 1 + rng.Intn(200)
		case 3:
			f = 1 + 3000/(i+1)
		case 4:
			f = a
			a, b = b, a+b
		}
		x.Freqs = append(x.Freqs, f)
	}
	rng.Shuffle(len(x.Freqs), func(i, j int) { x.Freqs[i], x.Freqs[j] = x.Freqs[j], x.Freqs[i] })
	hot := rng.Intn(c.N)
	for i := 0; i < c.Lookups; i++ {
		l, d := rng.Intn(c.N), rng.Intn(30)-2
		if rng.Intn(3) == 0 {
			l = hot
		}
		x.Lookups = append(x.Lookups, [2]int{l, d})
	}
	return x
}

func judgeC07Wide(x any, o *Obs) error { return judgeC07(x.(*wideTreeCase).expand(), o) }
func judgeC08Wide(x any, o *Obs) error { return judgeC08(x.(*wideTreeCase).expand(), o) }

type wideMatCase struct {
	Seed       int64
	Rows, Cols int
	Ops        int
}

func genC29Wide(t *rapid.T) any {
	c := &wideMatCase{Seed: int64(uniform(t, 0, 1<<30, "seed")), Rows: uniform(t, 1, 3000, "rows"), Cols: uniform(t, 1, 600, "cols"), Ops: intIn(t, 1, 6, "ops")}
	if chance(t, 4, "tall") {
		c.Rows, c.Cols = uniform(t, 30000, 140000, "tall rows"), intIn(t, 1, 3, "few cols")
		return c
	}
	if c.Rows*c.Cols > 200000 {
		if boolean(t, "flat") {
			c.Cols = max(1, 200000/c.Rows)
		} else {
			c.Rows = max(1, 200000/c.Cols)
		}
	}
	return c
}

func judgeC29Wide(x any, o *Obs) error {
	c := x.(*wideMatCase)
	rng := rand.New(rand.NewSource(c.Seed))
	m := &matCase{Rows: c.Rows, Cols: c.Cols}
	for i := 0; i < c.Ops; i++ {
		op := matOp{rng.Intn(c.Rows), rng.Intn(c.Cols), F(rng.Intn(2000) - 1000), rng.Intn(3) == 0, rng.Intn(2) == 0}
		switch rng.Intn(5) {
		case 0:
			op.Row = c.Rows - 1
		case 1:
			op.Col = c.Cols - 1
		}
		m.Ops = append(m.Ops, op)
	}
	return judgeC29(m, o)
}

type widePairCase struct {
	Seed int64
	N    int
}

func genC28Wide(t *rapid.T) any {
	return &widePairCase{Seed: int64(uniform(t, 0, 1<<30, "seed")), N: uniform(t, 1000, 30000, "n")}
}

func judgeC28Wide(x any, o *Obs) error {
	c := x.(*widePairCase)
	rng := rand.New(rand.NewSource(c.Seed))
	p := &pairCase{}
	id := func() uint64 {
		v := uint64(rng.Uint32())
		switch rng.Intn(4) {
		case 0:
			v >>= uint(rng.Intn(32))
		case 1:
			v = 1<<32 - 1 - v>>uint(rng.Intn(32))
		}
		return v
	}
	for i := 0; i < c.N; i++ {
		p.P = append(p.P, [2]uint64{id(), id()})
	}
	return judgeC28(p, o)
}

// ---- corpora --------------------------------------------------------------

// wideDoc describes a document of N tokens over Vocab words.
type wideDoc struct {
	Seed  int64
	N     int
	Vocab int
	Skew  int // 0 uniform, 1 skewed, 2 a few frequent words, 3 in order of first use
	Sep   int // 0 blanks, 1 lines of ten words, 2 anything
}

func genWideDoc(t *rapid.T, maxN, maxV int) wideDoc {
	return wideDoc{Seed: int64(uniform(t, 0, 1<<30, "seed")), N: uniform(t, 1, maxN, "n"), Vocab: sizeBiased(t, 1, maxV, "vocab"), Skew: intIn(t, 0, 3, "skew"), Sep: intIn(t, 0, 2, "sep")}
}

// genManyWords makes a document of more words than 16 bits count.
func genManyWords(t *rapid.T) wideDoc {
	d := genWideDoc(t, 1, 1)
	d.Vocab = uniform(t, 60000, 140000, "many")
	d.N, d.Skew = d.Vocab+uniform(t, 0, 20000, "more"), 3
	return d
}

func (d wideDoc) rng() *rand.Rand { return rand.New(rand.NewSource(d.Seed)) }

func (d wideDoc) text(rng *rand.Rand) B {
	var sb strings.Builder
	for i := 0; i < d.N; i++ {
		if i > 0 {
			switch {
			case d.Sep == 1 && i%10 == 0:
				sb.WriteByte('\n')
			case d.Sep == 2:
				sb.WriteString(seps[rng.Intn(len(seps))])
			default:
				sb.WriteByte(' ')
			}
		}
		k := rng.Intn(d.Vocab)
		switch d.Skew {
		case 1:
			k = k * rng.Intn(d.Vocab) / d.Vocab * rng.Intn(d.Vocab) / d.Vocab
		case 2:
			if rng.Intn(10) > 0 {
				k = rng.Intn(min(3, d.Vocab))
			}
		case 3:
			k = i % d.Vocab
		}
		if k%7 == 3 {
			fmt.Fprintf(&sb, "Word%d", k)
		} else {
			fmt.Fprintf(&sb, "w%d", k)
		}
	}
	if d.N%2 == 0 {
		sb.WriteByte('\n')
	}
	return B(sb.String())
}

type wideCoocCase struct {
	Doc    wideDoc
	Window int
	Count  string
	Lower  bool
	Sizes  []int

	Max, Min int
}

func genC09Wide(t *rapid.T) any {
	c := genCooc(t)
	c.Max = -1
	if boolean(t, "limits") {
		c.Max, c.Min = pick(t, "max", -1, 1, 5, 20, 100), pick(t, "min", 0, 0, 2, 10)
	}
	return c
}

func genCooc(t *rapid.T) *wideCoocCase {
	if chance(t, 20, "many words") {
		c := &wideCoocCase{Doc: genManyWords(t), Count: pick(t, "count", "inc", "prox"), Window: intIn(t, 1, 2, "win"), Lower: boolean(t, "lower")}
		return c
	}
	if chance(t, 30, "long windows") {
		c := &wideCoocCase{Doc: genWideDoc(t, 6000, 60), Count: pick(t, "count", "inc", "prox"), Window: uniform(t, 500, 7000, "win"), Lower: boolean(t, "lower")}
		return c
	}
	c := &wideCoocCase{Doc: genWideDoc(t, 4000, 400), Count: pick(t, "count", "inc", "prox"), Lower: boolean(t, "lower")}
	c.Window = uniform(t, 0, 200, "win")
	if boolean(t, "usual") {
		c.Window = pick(t, "win2", 1, 5, 10, 15, 16, 20, 31, 32, 63, 64, 65, 100)
	}
	c.Doc.N = min(c.Doc.N, 100000/(c.Window+1))
	if chance(t, 3, "chunks") {
		c.Sizes = []int{uniform(t, 100, 5000, "size")}
	}
	return c
}

func judgeC09Wide(x any, o *Obs) error {
	c := x.(*wideCoocCase)
	return judgeC09(&coocCase{Text: c.Doc.text(c.Doc.rng()), Chunk: chunking{Sizes: c.Sizes}, Window: c.Window, Count: c.Count, Lower: c.Lower, Max: c.Max, Min: c.Min}, o)
}

type wideDocCase struct {
	Doc      wideDoc
	Lower    bool
	Max, Min int
	Batches  []int
	Cooc     bool
	Sizes    []int
}

func genC10Wide(t *rapid.T) any {
	c := &wideDocCase{Doc: genWideDoc(t, 45000, 5000), Lower: boolean(t, "lower"), Max: pick(t, "max", -1, -1, 0, 2, 10, 100, 1000), Min: pick(t, "min", 0, 0, 1, 2, 5, 10, 100), Cooc: chance(t, 4, "cooc")}
	if chance(t, 16, "many words") {
		c.Doc = genManyWords(t)
		c.Min, c.Max = pick(t, "min2", 0, 1, 2), pick(t, "max2", -1, 1)
	} else if chance(t, 3, "round") {
		c.Doc.N = pick(t, "ntok", 10000, 20000, 9999, 10001, 16384, 32768, 4096)
	}
	for i, n := 0, intIn(t, 1, 4, "nbatch"); i < n; i++ {
		c.Batches = append(c.Batches, pick(t, "batch", 1, 100, 1000, 1024, 4096, 10000, 65536, c.Doc.N, c.Doc.N+1, max(1, c.Doc.N-1), max(1, c.Doc.N/2), uniform(t, 1, 20000, "anybatch")))
	}
	if chance(t, 3, "chunks") {
		c.Sizes = []int{uniform(t, 100, 5000, "size"), uniform(t, 1, 70000, "size2")}
	}
	return c
}

func judgeC10Wide(x any, o *Obs) error {
	c := x.(*wideDocCase)
	return judgeC10(&docCase{Text: c.Doc.text(c.Doc.rng()), Chunk: chunking{Sizes: c.Sizes}, Lower: c.Lower, Max: c.Max, Min: c.Min, Batches: c.Batches, Cooc: c.Cooc}, o)
}

// ---- training -------------------------------------------------------------

type wideTrainCase struct {
	Doc  wideDoc
	Cfg  modelCfg
	Seed int64
}

func (c *wideTrainCase) expand() *trainCase {
	x := &trainCase{Text: c.Doc.text(c.Doc.rng()), Cfg: c.Cfg, Seed: c.Seed}
	tame(&x.Cfg, x.Text)
	return x
}

func genC12Wide(t *rapid.T) any {
	c := &wideTrainCase{Doc: genWideDoc(t, 6000, 800), Cfg: genCfg(t), Seed: int64(intIn(t, 0, 1000, "seed"))}
	g := &c.Cfg
	g.Dim = pick(t, "dim2", 1, 10, 50, 100, 300)
	g.Iter = intIn(t, 0, 3, "iter2")
	g.Window = pick(t, "win2", 1, 5, 10, 25)
	g.Goroutines = pick(t, "gor2", 1, 2, 7, 16, 100, 500)
	g.Batch = pick(t, "batch2", 1, 7, 100, 1000, 10000, c.Doc.N, c.Doc.N+1)
	g.UpdateLR = pick(t, "updlr2", 1, 10, 1000, 100000)
	g.Min, g.Max = pick(t, "min2", 0, 0, 1, 5, 20), pick(t, "max2", -1, -1, 0, 100, 1000)
	g.Threshold = pick(t, "thr2", F(0), F(0), F(0.001), F(1), F(30))
	g.LR = pick(t, "lr2", F(0.025), F(0.001))
	if chance(t, 20, "many words") {
		c.Doc = genManyWords(t)
		g.Dim, g.Iter, g.Window, g.Neg = intIn(t, 1, 3, "dim many"), intIn(t, 0, 1, "iter many"), intIn(t, 1, 2, "win many"), min(g.Neg, 2)
		g.Batch = max(g.Batch, 1000)
		return c
	}
	// keep a case below a second or so
	for work := c.Doc.N * g.Dim * g.Window * max(1, g.Iter) * (g.Neg + 1); work > 20_000_000; work /= 2 {
		c.Doc.N = max(1, c.Doc.N/2)
	}
	return c
}

func judgeC12Wide(x any, o *Obs) error { return judgeC12(x.(*wideTrainCase).expand(), o) }

func genC13Wide(t *rapid.T) any {
	c := &wideTrainCase{Doc: genWideDoc(t, 9000, 900), Seed: int64(intIn(t, 1, 100000, "seed"))}
	c.Doc.Skew = pick(t, "skew2", 0, 1, 1, 2)
	x := genC13(t).(*trainCase)
	c.Cfg = x.Cfg
	c.Cfg.Min, c.Cfg.Max = pick(t, "min2", 0, 1, 2, 5, 10, 30), pick(t, "max2", -1, 0, 5, 10, 30, 100)
	c.Cfg.Dim = intIn(t, 4, 12, "dim2")
	c.Cfg.Window = pick(t, "win2", 1, 2, 5)
	c.Cfg.LR, c.Cfg.MinLR = 0.002, 0.001
	return c
}

func genC14Wide(t *rapid.T) any {
	c := genC14(t).(*aggCase)
	c.Cfg.Dim = pick(t, "dim2", 1, 3, 10, 50)
	c.Words = 4000/c.Cfg.Dim + 50
	d := genWideDoc(t, 3000, 2500)
	d.Skew = pick(t, "skew2", 0, 3)
	c.Doc, c.Train = &d, ""
	c.Cfg.Iter, c.Cfg.Window, c.Cfg.LR, c.Cfg.MinLR = 1, pick(t, "win2", 1, 3), 0.002, 0.001
	return c
}

func judgeC14Wide(x any, o *Obs) error {
	c := *x.(*aggCase)
	c.Train = c.Doc.text(c.Doc.rng())
	tame(&c.Cfg, c.Train)
	return judgeC14(&c, o)
}

func genC11Wide(t *rapid.T) any {
	c := genC11(t).(*faultCase)
	d := genWideDoc(t, 6000, 300)
	c.Doc, c.Text = &d, ""
	c.Sizes = []int{uniform(t, 20, 5000, "size")}
	if boolean(t, "full") {
		c.Sizes = nil
	}
	c.Bytes = pick(t, "bytes", 1, 100, 4096, 1<<20)
	c.Cfg.Batch = pick(t, "batch", 10, 1000, 10000)
	c.Calls = []int{0, 1000}
	for i := 0; i < 6; i++ {
		c.Calls = append(c.Calls, uniform(t, 0, 1000, "call"))
	}
	return c
}

func judgeC13Wide(x any, o *Obs) error { return judgeC13(x.(*wideTrainCase).expand(), o) }

// ---- saved texts ----------------------------------------------------------

type wideSaveCase struct {
	Seed  int64
	Words int
	Dim   int
	Sizes []int

	LongWord int // length of the last word
}

func genC03Wide(t *rapid.T) any {
	c := &wideSaveCase{Seed: int64(uniform(t, 0, 1<<30, "seed")), Words: uniform(t, 1, 12000, "words"), Dim: pick(t, "dim", 1, 3, 10, 50, 100, 300)}
	c.Words = min(c.Words, 60000/c.Dim)
	switch uniform(t, 0, 11, "shape") {
	case 0: // few rows of a great many components
		c.Words, c.Dim = uniform(t, 1, 4, "few words"), uniform(t, 20000, 180000, "giant dim")
		if c.Words > 1 {
			c.Dim /= c.Words
		}
	case 1: // more words than 16 bits count
		c.Words, c.Dim = uniform(t, 60000, 140000, "many words"), 1
	case 2:
		c.Words, c.Dim, c.LongWord = uniform(t, 1, 5, "few words"), 2, uniform(t, 1<<16, 3<<20, "long word")
		if chance(t, 6, "longer") {
			c.LongWord = uniform(t, 1<<20, 20<<20, "longer word")
		}
	}
	if chance(t, 3, "chunks") {
		c.Sizes = []int{uniform(t, 100, 5000, "size"), uniform(t, 1, 70000, "size2")}
	}
	return c
}

func (c *wideSaveCase) expand() *saveCase {
	rng := rand.New(rand.NewSource(c.Seed))
	x := &saveCase{Rows: c.Words, Chunk: chunking{Sizes: c.Sizes}}
	for i := 0; i < c.Words; i++ {
		w := fmt.Sprintf("w%s%d", strings.Repeat("x", rng.Intn(20)), i)
		if i == c.Words-1 && c.LongWord > 0 {
			w = strings.Repeat("abcdefghijklmnop", c.LongWord/16)
		}
		x.Words = append(x.Words, B(w))
		v := make([]F, c.Dim)
		for j := range v {
			v[j] = F(rng.NormFloat64())
			if rng.Intn(50) == 0 {
				v[j] *= F([]float64{1e-7, 1e3, 1e9, 1e18, 0}[rng.Intn(5)])
			}
		}
		x.Vecs = append(x.Vecs, v)
	}
	return x
}

func judgeC03Wide(x any, o *Obs) error { return judgeC03(x.(*wideSaveCase).expand(), o) }

type wideLoadCase struct {
	Seed  int64
	Lines int
	Dim   int
	Odd   int // out of 1000: lines of the odd line grammar
	Bad   int // a line that cannot be parsed, -1 none
	Sizes []int
	Fail  int // out of 1000: where the reader fails; -1 never

	LongWord, LongNumber int `json:",omitempty"` // lengths of those of one line
}

func genC04Wide(t *rapid.T) any {
	c := &wideLoadCase{Seed: int64(uniform(t, 0, 1<<30, "seed")), Lines: uniform(t, 1, 12000, "lines"), Dim: pick(t, "dim", 1, 3, 10, 50, 100, 300, 2000), Odd: pick(t, "odd", 0, 1, 100), Bad: -1, Fail: -1}
	c.Lines = min(c.Lines, max(1, 60000/c.Dim))
	switch uniform(t, 0, 11, "shape") {
	case 0:
		c.Lines = uniform(t, 1, 4, "few lines")
		c.Dim = uniform(t, 20000, 180000, "giant dim") / c.Lines
	case 1:
		c.Lines, c.Dim = uniform(t, 60000, 140000, "many lines"), 1
	case 2:
		c.Lines, c.Dim = uniform(t, 1, 5, "few lines"), 2
		c.LongWord, c.LongNumber = uniform(t, 1<<10, 1<<21, "long word"), uniform(t, 1, 1<<12, "long number")
		if chance(t, 6, "longer") {
			c.LongWord = uniform(t, 1<<20, 20<<20, "longer word")
		}
	}
	if chance(t, 3, "bad") {
		c.Bad = pick(t, "where", c.Lines-1, c.Lines/2, uniform(t, 0, c.Lines-1, "bad line"))
	}
	if chance(t, 4, "fail") {
		c.Fail = uniform(t, 1, 999, "fail at")
	}
	if chance(t, 3, "chunks") {
		c.Sizes = []int{uniform(t, 100, 5000, "size"), uniform(t, 1, 70000, "size2")}
	}
	return c
}

func judgeC04Wide(x any, o *Obs) error {
	c := x.(*wideLoadCase)
	rng := rand.New(rand.NewSource(c.Seed))
	var sb strings.Builder
	for i := 0; i < c.Lines; i++ {
		odd := rng.Intn(1000) < c.Odd
		if odd {
			sb.WriteString([]string{" leading blank 1 2\n", " \n", "w 1\t2\n", "w  1\r\n", "x\u00a01 2\n", "y 1e3 -.5 +7 NaN\n"}[rng.Intn(6)])
			continue
		}
		fmt.Fprintf(&sb, "w%d", i)
		if c.LongWord > 0 && i == c.Lines/2 {
			sb.WriteString(strings.Repeat("abcdefghijklmnop", c.LongWord/16))
		}
		if c.LongNumber > 0 && i == c.Lines/2 {
			sb.WriteString(" 0." + strings.Repeat("0123456789", c.LongNumber/10) + "1 1" + strings.Repeat("0", min(300, c.LongNumber)))
		}
		for j := 0; j < c.Dim; j++ {
			fmt.Fprintf(&sb, " %.*f", rng.Intn(7), rng.NormFloat64()*3)
			if i == c.Bad && j == c.Dim/2 {
				sb.WriteString("x")
			}
		}
		sb.WriteString([]string{"\n", " \n"}[rng.Intn(2)])
	}
	l := &loadCase{Text: B(sb.String()), Chunk: chunking{Sizes: c.Sizes}, Fail: -1}
	if c.Fail >= 0 {
		l.Fail = len(l.Text) * c.Fail / 1000
	}
	return judgeC04(l, o)
}

// Large texts, written to writers that fail anywhere, at block boundaries in
// particular.
func genC05Wide(t *rapid.T) any {
	c := genC05(t).(*saveFaultCase)
	c.Limit, c.Big = []int{0, -1}, 0
	total := 0
	if boolean(t, "rows") {
		c.Big = uniform(t, 3000, 60000, "nbig")
		total = c.Big * (c.Dim*10 + 10)
	} else {
		c.Dim, c.Words = uniform(t, 3000, 60000, "giant dim"), genVocab(t, 1, 4)
		total = c.Dim * len(c.Words) * 10
	}
	for _, b := range []int{4096, 1 << 16, 1 << 20} {
		c.Limit = append(c.Limit, b-1, b, b+1, b*uniform(t, 1, 1+total/b, "block"))
	}
	for i := 0; i < 4; i++ {
		c.Limit = append(c.Limit, uniform(t, 0, total, "lim"))
	}
	return c
}

type wideQuietCase struct {
	Doc wideDoc
	C   quietLoadCase
}

func genC30Wide(t *rapid.T) any {
	c := &wideQuietCase{Doc: genWideDoc(t, 25000, 3000)}
	if chance(t, 12, "many words") {
		c.Doc = genManyWords(t)
	}
	c.C = quietLoadCase{Mem: boolean(t, "mem"), Lower: boolean(t, "low"), Count: pick(t, "count", "inc", "prox"), Window: intIn(t, 0, 5, "win"), Log: pick(t, "log", 1, 10, 100, 1000, 9999, 10000, 10001), Min: intIn(t, 0, 3, "min"), Batch: pick(t, "batch", 7, 1000, 10000), Dim: intIn(t, 1, 3, "dim")}
	return c
}

func judgeC30Wide(x any, o *Obs) error {
	c := x.(*wideQuietCase)
	q := c.C
	q.Text = c.Doc.text(c.Doc.rng())
	return judgeC30Load(&q, o)
}

func addParts(id string, parts ...Part) {
	p := props[id]
	p.Parts = append(p.Parts, parts...)
	for _, part := range parts {
		switch {
		case strings.HasPrefix(part.Name, "wide"):
			p.Rule += "; part '" + part.Name + "': the same with thousands of words, rows or columns (up to hundreds of thousands, and to 20 MB for one word), expanded from a seed and sizes"
		case part.Name == "draws":
			p.Rule += "; part 'draws': rates of window sizes and of negative samples over windows to 181"
		case part.Name == "rate":
			p.Rule += "; part 'rate': the learning-rate law of C18 for quiet and verbose runs with different log batches"
		}
	}
}

func wide[T any](name string, quick, thorough int, gen func(t *rapid.T) any, judge func(any, *Obs) error) Part {
	return Part{Name: name, Quick: quick, Thorough: thorough, New: func() any { return any(new(T)) }, Gen: gen, Judge: judge}
}

func addWide() {
	for id, m := range map[string]string{"C15": "word2vec", "C17": "lexvec"} {
		p := wide[trainCase]("draws", 400, 12000, genDraws(m), judgeDraws)
		p.Isolated, p.Serial = true, true
		addParts(id, p)
	}
	addParts("C01", wide[wideSearchCase]("wide", 300, 15000, genWideSearch(5000), judgeC01Wide))
	addParts("C02", wide[wideSearchCase]("wide", 80, 10000, genWideSearch(3000), judgeC02Wide))
	addParts("C32", wide[wideValidCase]("wide", 300, 15000, genC32Wide, judgeC32Wide))
	race := wide[wideSeqCase]("wide-concurrent", 60, 2000, genC33Wide(true), judgeC33Wide)
	race.Race = true
	addParts("C33", wide[wideSeqCase]("wide", 160, 6000, genC33Wide(false), judgeC33Wide), race)
	addParts("C05", wide[saveFaultCase]("wide", 60, 2000, genC05Wide, judgeC05))
	addParts("C03", wide[wideSaveCase]("wide", 200, 8000, genC03Wide, judgeC03Wide))
	addParts("C04", wide[wideLoadCase]("wide", 300, 12000, genC04Wide, judgeC04Wide))
	addParts("C07", wide[wideTreeCase]("wide", 300, 12000, genWideTree(3000, false, false), judgeC07Wide))
	race = wide[wideTreeCase]("wide-concurrent", 80, 3000, genWideTree(300, true, true), judgeC08Wide)
	race.Race = true
	addParts("C08", wide[wideTreeCase]("wide", 300, 12000, genWideTree(1500, true, false), judgeC08Wide), race)
	addParts("C28", wide[widePairCase]("wide", 80, 4000, genC28Wide, judgeC28Wide))
	addParts("C29", wide[wideMatCase]("wide", 200, 8000, genC29Wide, judgeC29Wide))
	addParts("C09", wide[wideCoocCase]("wide", 200, 8000, genC09Wide, judgeC09Wide))
	addParts("C10", wide[wideDocCase]("wide", 240, 8000, genC10Wide, judgeC10Wide))
	p := wide[wideTrainCase]("wide", 240, 6000, genC12Wide, judgeC12Wide)
	p.Isolated = true
	addParts("C12", p)
	addParts("C30", Part{Name: "rate", Quick: 300, Thorough: 10000, New: func() any { return &lrCase{} }, Gen: genC18, Judge: judgeC30Rate})
	addParts("C30", wide[wideQuietCase]("wide-load", 100, 4000, genC30Wide, judgeC30Wide))
	addParts("C14", wide[aggCase]("wide", 100, 3000, genC14Wide, judgeC14Wide))
	p = wide[faultCase]("wide", 160, 4000, genC11Wide, judgeC11)
	p.Isolated = true
	addParts("C11", p)
	addParts("C13", wide[wideTrainCase]("wide", 200, 6000, genC13Wide, judgeC13Wide))
}
