package main

import (
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/embedding/embutil"
	"github.com/ynqa/wego/pkg/search"
	"github.com/ynqa/wego/pkg/search/searchutil"
)

// ---- embedding sets -----------------------------------------------------

type embSet struct {
	Words []B
	Vecs  [][]F
}

func (s embSet) embs() embedding.Embeddings {
	r := make(embedding.Embeddings, len(s.Words))
	for i := range r {
		v := floats(s.Vecs[i])
		r[i] = embedding.Embedding{Word: string(s.Words[i]), Dim: len(v), Vector: v, Norm: plainNorm(v)}
	}
	return r
}

func plainNorm(v []float64) float64 {
	var s float64
	for _, x := range v {
		s += x * x
	}
	return math.Sqrt(s)
}

var wordPool = []string{"a", "b", "c", "d", "e", "f", "g", "apple", "Apple", "banana", "日本", "x1", "_y", "\xff\xfe", "word-with-dash", "nan", "0"}

func genWord(t *rapid.T, label string) B {
	switch intIn(t, 0, 9, label+".k") {
	case 0:
		return B("w" + string(rune('a'+intIn(t, 0, 25, label+".c"))) + string(rune('a'+intIn(t, 0, 25, label+".d"))))
	default:
		return B(wordPool[intIn(t, 0, len(wordPool)-1, label)])
	}
}

// nearMiss is a word that differs from w in case, white space or length only.
func nearMiss(t *rapid.T, w B) B {
	s := string(w)
	switch intIn(t, 0, 9, "miss") {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		s = strings.ToLower(s)
	case 2:
		s = " " + s
	case 3:
		s += pick(t, "tail", " ", "\r", "\n", "\t", "\x00", "\u00a0")
	case 4:
		s += "a"
	case 5:
		s = s[:max(0, len(s)-1)]
	case 6:
		s = strings.TrimSpace(s)
	case 7:
		s = strings.ToValidUTF8(s, "\ufffd")
	case 8:
		s = strings.Title(s) //nolint
	case 9:
		s = pick(t, "lead", "\t", "\ufeff", "-", "_") + s
	}
	return B(s)
}

// genValue draws vector components: integers on a small grid (ties, zeros,
// opposites, exact arithmetic) or reals.
func genValue(t *rapid.T, grid bool, label string) F {
	if grid {
		return F(intIn(t, -3, 3, label))
	}
	v := realIn(t, -10, 10, label)
	if math.Abs(float64(v)) < 1e-3 {
		return 0
	}
	return v
}

func genVec(t *rapid.T, dim int, grid bool, label string) []F {
	v := make([]F, dim)
	for i := range v {
		v[i] = genValue(t, grid, label)
	}
	return v
}

func scaled(v []F, exp int) []F {
	r := make([]F, len(v))
	for i := range v {
		r[i] = F(math.Ldexp(float64(v[i]), exp))
	}
	return r
}

func genEmbSet(t *rapid.T, minN, maxN int) (embSet, bool) {
	n := sizeBiased(t, minN, maxN, "n")
	dim := intIn(t, 1, 6, "dim")
	if chance(t, 15, "bigdim") {
		dim = intIn(t, 7, 80, "dim2")
	}
	grid := intIn(t, 0, 2, "grid") > 0
	unique := boolean(t, "unique")
	scale := chance(t, 6, "scaled")
	var s embSet
	seen := map[B]bool{}
	for i := 0; i < n; i++ {
		w := genWord(t, "word")
		if unique && seen[w] {
			w = B(string(w) + "#" + string(rune('A'+i%26)) + string(rune('A'+i/26)))
		}
		seen[w] = true
		var v []F
		switch {
		case i > 0 && chance(t, 6, "copy"):
			src := s.Vecs[intIn(t, 0, i-1, "src")]
			f := F(pick(t, "factor", 1, -1, 2, -2, 4))
			for _, x := range src {
				v = append(v, x*f)
			}
		case i > 0 && chance(t, 8, "close"): // almost the direction of another one
			v = append(v, s.Vecs[intIn(t, 0, i-1, "src")]...)
			v[intIn(t, 0, dim-1, "at")] += F(math.Ldexp(float64(intIn(t, -3, 3, "by")), -intIn(t, 8, 34, "exp")))
		case chance(t, 10, "zero"):
			v = make([]F, dim)
		default:
			v = genVec(t, dim, grid, "v")
		}
		if scale {
			v = scaled(v, intIn(t, -90, 90, "scale"))
		}
		s.Words = append(s.Words, w)
		s.Vecs = append(s.Vecs, v)
	}
	return s, grid
}

func (s embSet) exact() bool {
	for _, v := range s.Vecs {
		if !intVec(v) {
			return false
		}
	}
	return true
}

func intVec(v []F) bool {
	for _, x := range v {
		if x != F(math.Trunc(float64(x))) || math.Abs(float64(x)) > 1e5 {
			return false
		}
	}
	return true
}

type scored struct {
	word string
	sim  float64
}

func refCosine(a, b []float64) float64 {
	na, nb := refNorm(a), refNorm(b)
	if na == 0 || nb == 0 {
		return 0
	}
	var d float64
	for i := range a {
		d += (a[i] / na) * (b[i] / nb)
	}
	return d
}

func dotSign(a, b []float64) float64 {
	var d float64
	for i := range a {
		d += a[i] * b[i]
	}
	return d
}

// simTol is above the rounding of a cosine of up to a thousand components
// (each term is at most 1 in sum by the Cauchy-Schwarz inequality).
const simTol = 1e-12

// checkRanking decides whether got is a correct answer for query q over the
// set, given k and the words to ignore.
func checkRanking(what string, s embSet, q []F, k int, ignore []string, got search.Neighbors, o *Obs) error {
	ign := map[string]bool{}
	for _, w := range ignore {
		ign[w] = true
	}
	exact := s.exact() && intVec(q)
	qv := floats(q)
	var all []scored // positive ones, certain or possible
	certain := 0
	byWord := map[string][]float64{}
	for i, w := range s.Words {
		if ign[string(w)] {
			continue
		}
		v := floats(s.Vecs[i])
		sim := refCosine(qv, v)
		positive, sure := sim > 0, true
		if exact {
			positive = dotSign(qv, v) > 0
		} else if math.Abs(sim) <= simTol {
			positive, sure = true, false
			if refNorm(qv) == 0 || refNorm(v) == 0 {
				positive = false
			}
		}
		if !positive {
			continue
		}
		if sure {
			certain++
		}
		all = append(all, scored{string(w), sim})
		byWord[string(w)] = append(byWord[string(w)], sim)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].sim > all[j].sim })
	kk := k
	if kk < 0 {
		kk = 0
	}
	lo, hi := min(kk, certain), min(kk, len(all))
	if o != nil {
		o.ClassIf(k <= 0, "k<=0")
		o.ClassIf(k > len(all), "k>available")
		o.ClassIf(k > len(all)+1, "k>available+1")
		o.ClassIf(k > 0 && k < len(all), "k<available")
		o.ClassIf(len(all) == 0, "none positive")
		tie := false
		for i := 1; i < len(all); i++ {
			tie = tie || all[i-1].sim-all[i].sim <= simTol
		}
		o.ClassIf(tie, "ties")
		o.Nontrivial = o.Nontrivial || (len(all) >= 2 && k >= 2) || (k > len(all))
	}
	if len(got) < lo || len(got) > hi {
		return bad("%s: %d neighbours returned, want %d (k=%d, %d words with positive similarity): %v", what, len(got), lo, k, len(all), got)
	}
	used := map[string]int{}
	for _, v := range byWord {
		sort.Sort(sort.Reverse(sort.Float64Slice(v)))
	}
	for i, n := range got {
		if n.Word == "" {
			return bad("%s: blank neighbour at %d: %v", what, i, got)
		}
		if ign[n.Word] {
			return bad("%s: ignored word %q returned: %v", what, n.Word, got)
		}
		if n.Rank != uint(i)+1 {
			return bad("%s: neighbour %d has rank %d: %v", what, i, n.Rank, got)
		}
		if i > 0 && n.Similarity > got[i-1].Similarity+simTol {
			return bad("%s: similarities not in non-increasing order at %d: %v", what, i, got)
		}
		sims := byWord[n.Word]
		if used[n.Word] >= len(sims) {
			return bad("%s: word %q returned more often than it may be: %v", what, n.Word, got)
		}
		if !near(sims[used[n.Word]], n.Similarity, simTol) {
			return bad("%s: word %q has similarity %v, want %v: %v", what, n.Word, n.Similarity, sims[used[n.Word]], got)
		}
		used[n.Word]++
		if !near(all[i].sim, n.Similarity, simTol) {
			return bad("%s: neighbour %d has similarity %v but a word with %v was omitted (%q): %v", what, i, n.Similarity, all[i].sim, all[i].word, got)
		}
	}
	return nil
}

func genK(t *rapid.T, n int) int {
	switch intIn(t, 0, 11, "kkind") {
	case 0:
		return pick(t, "k", 0, -1, -5, math.MinInt)
	case 1:
		return pick(t, "k", 100, 1000, 1<<20, 1<<40, math.MaxInt)
	case 2, 3:
		return n + intIn(t, -1, 5, "k")
	default:
		return intIn(t, 1, n+3, "k")
	}
}

type searchCase struct {
	Set    embSet
	Query  []F
	K      int
	Ignore []B
	QWord  B
}

func genQuery(t *rapid.T, s embSet, grid bool) []F {
	dim := intIn(t, 1, 4, "qdim")
	if len(s.Vecs) > 0 {
		dim = len(s.Vecs[0])
		if chance(t, 3, "qcopy") {
			return append([]F(nil), s.Vecs[intIn(t, 0, len(s.Vecs)-1, "qsrc")]...)
		}
	}
	if chance(t, 20, "qzero") {
		return make([]F, dim)
	}
	q := genVec(t, dim, grid, "q")
	if chance(t, 8, "qscaled") {
		q = scaled(q, intIn(t, -90, 90, "qscale"))
	}
	return q
}

func genSearchCase(maxN int) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		s, grid := genEmbSet(t, 0, maxN)
		c := &searchCase{Set: s}
		c.Query = genQuery(t, s, grid)
		c.K = genK(t, len(s.Words))
		for i, n := 0, intIn(t, 0, 3, "nign"); i < n; i++ {
			if len(s.Words) > 0 && intIn(t, 0, 3, "ignk") > 0 {
				w := s.Words[intIn(t, 0, len(s.Words)-1, "ign")]
				if chance(t, 8, "near") {
					w = nearMiss(t, w)
				}
				c.Ignore = append(c.Ignore, w)
			} else {
				c.Ignore = append(c.Ignore, genWord(t, "ignw"))
			}
		}
		return c
	}
}

func judgeC01(x any, o *Obs) error {
	c := x.(*searchCase)
	s, err := search.New(c.Set.embs()...)
	if err != nil {
		return bad("search.New refused equally-sized vectors: %v", err)
	}
	q := floats(c.Query)
	got, err := s.Search(embedding.Embedding{Vector: q, Dim: len(q), Norm: plainNorm(q)}, c.K, strs(c.Ignore)...)
	if err != nil && c.K > 0 {
		return bad("Search failed: %v", err)
	}
	return checkRanking("Search", c.Set, c.Query, c.K, strs(c.Ignore), got, o)
}

func genC02(t *rapid.T) any {
	c := genSearchCase(24)(t).(*searchCase)
	c.Ignore = nil
	if len(c.Set.Words) > 0 && intIn(t, 0, 4, "known") > 0 {
		c.QWord = c.Set.Words[intIn(t, 0, len(c.Set.Words)-1, "qword")]
		if chance(t, 6, "near") {
			c.QWord = nearMiss(t, c.QWord)
			if c.QWord != "" && boolean(t, "both") { // in the set as well
				c.Set.Words[intIn(t, 0, len(c.Set.Words)-1, "at")] = c.QWord
			}
		}
	} else {
		c.QWord = genWord(t, "qword")
	}
	return c
}

func judgeC02(x any, o *Obs) error {
	c := x.(*searchCase)
	s, err := search.New(c.Set.embs()...)
	if err != nil {
		return bad("search.New refused equally-sized vectors: %v", err)
	}
	first := -1
	count := 0
	for i, w := range c.Set.Words {
		if w == c.QWord {
			if first < 0 {
				first = i
			}
			count++
		}
	}
	got, err := s.SearchInternal(string(c.QWord), c.K)
	if first < 0 {
		o.Class("unknown word")
		if err == nil || len(got) != 0 {
			return bad("SearchInternal(%q): word is not in the set, but got %v, err %v", c.QWord, got, err)
		}
	} else {
		o.ClassIf(count > 1, "repeated word")
		if err != nil && c.K > 0 {
			return bad("SearchInternal(%q) failed: %v", c.QWord, err)
		}
		if err := checkRanking("SearchInternal", c.Set, c.Set.Vecs[first], c.K, []string{string(c.QWord)}, got, o); err != nil {
			return err
		}
	}
	got, err = s.SearchVector(floats(c.Query), c.K)
	if err != nil && c.K > 0 {
		return bad("SearchVector failed: %v", err)
	}
	return checkRanking("SearchVector", c.Set, c.Query, c.K, nil, got, o)
}

// ---- C33 ----------------------------------------------------------------

type searchOp struct {
	Kind   int // 0 Search, 1 SearchInternal, 2 SearchVector
	Query  []F
	Word   B
	K      int
	Ignore []B
}

type searchSeqCase struct {
	Set embSet
	Ops []searchOp
	Par int // goroutines
}

func genC33(par bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		s, grid := genEmbSet(t, 1, 30)
		c := &searchSeqCase{Set: s}
		n := intIn(t, 2, 12, "nops")
		for i := 0; i < n; i++ {
			op := searchOp{Kind: intIn(t, 0, 2, "kind"), K: intIn(t, 0, len(s.Words)+2, "k")}
			op.Query = genQuery(t, s, grid)
			op.Word = s.Words[intIn(t, 0, len(s.Words)-1, "w")]
			if chance(t, 8, "unknown") {
				op.Word = "no-such-word"
			}
			for j, m := 0, intIn(t, 0, 3, "nign"); j < m; j++ {
				op.Ignore = append(op.Ignore, s.Words[intIn(t, 0, len(s.Words)-1, "ign")])
			}
			c.Ops = append(c.Ops, op)
		}
		if par {
			c.Par = intIn(t, 2, 8, "par")
		}
		return c
	}
}

type searchAns struct {
	n   search.Neighbors
	err bool
}

// runOp runs one search; it reports a changed query or ignore list.
func runOp(s *search.Searcher, op searchOp) (searchAns, string) {
	switch op.Kind {
	case 0:
		q := embedding.Embedding{Word: "query", Vector: floats(op.Query), Dim: len(op.Query)}
		q.Norm = plainNorm(q.Vector)
		ign := strs(op.Ignore)
		n, err := s.Search(q, op.K, ign...)
		if !reflect.DeepEqual(q.Vector, floats(op.Query)) {
			return searchAns{}, "the query vector was changed"
		}
		if !reflect.DeepEqual(ign, strs(op.Ignore)) {
			return searchAns{}, "the ignore list was changed"
		}
		return searchAns{n, err != nil}, ""
	case 1:
		n, err := s.SearchInternal(string(op.Word), op.K)
		return searchAns{n, err != nil}, ""
	default:
		q := floats(op.Query)
		n, err := s.SearchVector(q, op.K)
		if !reflect.DeepEqual(q, floats(op.Query)) {
			return searchAns{}, "the query vector was changed"
		}
		return searchAns{n, err != nil}, ""
	}
}

// sameAnswer compares two answers; words with tied similarities may differ.
func sameAnswer(a, b searchAns, set embSet) bool {
	if a.err != b.err || len(a.n) != len(b.n) {
		return false
	}
	for i := range a.n {
		if !near(a.n[i].Similarity, b.n[i].Similarity, simTol) || a.n[i].Rank != b.n[i].Rank {
			return false
		}
	}
	// words: compare as multisets within each group of tied similarity,
	// except the last group, which may be cut differently
	for i := 0; i < len(a.n); {
		j := i + 1
		for j < len(a.n) && a.n[j-1].Similarity-a.n[j].Similarity <= simTol {
			j++
		}
		if j < len(a.n) {
			m := map[string]int{}
			for x := i; x < j; x++ {
				m[a.n[x].Word]++
				m[b.n[x].Word]--
			}
			for _, v := range m {
				if v != 0 {
					return false
				}
			}
		}
		i = j
	}
	return true
}

func judgeC33(x any, o *Obs) error {
	c := x.(*searchSeqCase)
	want := make([]searchAns, len(c.Ops))
	for i, op := range c.Ops {
		s, err := search.New(c.Set.embs()...)
		if err != nil {
			return bad("search.New: %v", err)
		}
		a, msg := runOp(s, op)
		if msg != "" {
			return bad("op %d alone: %s", i, msg)
		}
		want[i] = a
	}
	s, err := search.New(c.Set.embs()...)
	if err != nil {
		return bad("search.New: %v", err)
	}
	items := c.Set.embs()
	o.Nontrivial = len(c.Set.Words) >= 3 && len(c.Ops) >= 2
	if c.Par == 0 {
		held := make([]searchAns, len(c.Ops))
		copies := make([]search.Neighbors, len(c.Ops))
		for i, op := range c.Ops {
			a, msg := runOp(s, op)
			if msg != "" {
				return bad("op %d: %s", i, msg)
			}
			if !sameAnswer(a, want[i], c.Set) {
				return bad("op %d: answer %v differs from the answer of the same search alone %v", i, a, want[i])
			}
			held[i], copies[i] = a, append(search.Neighbors(nil), a.n...)
			if !reflect.DeepEqual([]embedding.Embedding(s.Items), []embedding.Embedding(items)) {
				return bad("op %d changed the items of the searcher", i)
			}
		}
		for i := range held {
			for j := range copies[i] {
				if held[i].n[j] != copies[i][j] {
					return bad("the answer of op %d was changed by a later search", i)
				}
			}
		}
		return nil
	}
	o.Class("goroutines=%d", c.Par)
	errs := make([]error, c.Par)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < c.Par; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for r := 0; r < 2; r++ {
				for i := range c.Ops {
					i := (i + g) % len(c.Ops)
					a, msg := runOp(s, c.Ops[i])
					if msg != "" {
						errs[g] = bad("concurrent op %d: %s", i, msg)
						return
					}
					if !sameAnswer(a, want[i], c.Set) {
						errs[g] = bad("concurrent op %d: answer %v, alone %v", i, a, want[i])
						return
					}
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	if !reflect.DeepEqual([]embedding.Embedding(s.Items), []embedding.Embedding(items)) {
		return bad("concurrent searches changed the items of the searcher")
	}
	return nil
}

// ---- C26 ----------------------------------------------------------------

type cosCase struct {
	A, B   []F
	Scale  F
	NegIdx int
}

func genC26(t *rapid.T) any {
	dim := sizeBiased(t, 1, 200, "dim")
	if chance(t, 60, "longer") {
		dim = uniform(t, 200, 2000, "dim2")
	}
	kind := intIn(t, 0, 3, "kind")
	gen := func(label string) []F {
		v := make([]F, dim)
		e := intIn(t, -100, 100, label+".e")
		for i := range v {
			switch kind {
			case 0:
				v[i] = F(intIn(t, -3, 3, label))
			case 1:
				v[i] = realIn(t, -1, 1, label)
			case 2:
				m := float64(realIn(t, -1, 1, label))
				if math.Abs(m) < 1e-6 {
					m = 0
				}
				v[i] = F(m * math.Pow(10, float64(e)))
			default:
				m := float64(realIn(t, 1, 9.99, label))
				v[i] = F(m * math.Pow(10, float64(intIn(t, -100, 100, label+".x"))))
				if boolean(t, label+".s") {
					v[i] = -v[i]
				}
			}
			if math.Abs(float64(v[i])) < 1e-110 {
				v[i] = 0
			}
		}
		return v
	}
	c := &cosCase{A: gen("a")}
	switch intIn(t, 0, 5, "rel") {
	case 0:
		c.B = make([]F, dim)
	case 1:
		for _, x := range c.A {
			c.B = append(c.B, x*3)
		}
	case 2:
		for _, x := range c.A {
			c.B = append(c.B, -x)
		}
	default:
		c.B = gen("b")
	}
	c.Scale = F(pick(t, "scale", 2.0, 0.5, 3.0, 1e10, 1e-10, 7.25, -2.0, -0.1, 0))
	return c
}

func bigDot(a, b []float64) *big.Float {
	s := new(big.Float).SetPrec(400)
	for i := range a {
		x := new(big.Float).SetPrec(400).SetFloat64(a[i])
		y := new(big.Float).SetPrec(400).SetFloat64(b[i])
		s.Add(s, x.Mul(x, y))
	}
	return s
}

func relNear(a, b, rel float64) bool {
	return math.Abs(a-b) <= rel*math.Max(math.Abs(a), math.Abs(b))
}

func judgeC26(x any, o *Obs) error {
	c := x.(*cosCase)
	a, b := floats(c.A), floats(c.B)
	tol := 1e-14 * float64(len(a)+10)
	norm := func(v []float64) (float64, error) {
		cp := append([]float64(nil), v...)
		n := embutil.Norm(v)
		for i := range v {
			if v[i] != cp[i] {
				return 0, bad("Norm changed its argument")
			}
		}
		sq, _ := new(big.Float).SetPrec(400).Sqrt(bigDot(v, v)).Float64()
		if !relNear(n, sq, tol) {
			return 0, bad("Norm(%v) = %v, Euclidean length is %v", v, n, sq)
		}
		if n < 0 || math.Signbit(n) && n != 0 {
			return 0, bad("Norm(%v) = %v is negative", v, n)
		}
		if (n == 0) != (sq == 0) {
			return 0, bad("Norm(%v) = %v: zero exactly for the zero vector", v, n)
		}
		return n, nil
	}
	na, err := norm(a)
	if err != nil {
		return err
	}
	nb, err := norm(b)
	if err != nil {
		return err
	}
	scaled := make([]float64, len(a))
	neg := make([]float64, len(a))
	for i := range a {
		scaled[i] = a[i] * float64(c.Scale)
		neg[i] = -a[i]
	}
	ns, err := norm(scaled)
	if err != nil {
		return err
	}
	if !relNear(ns, math.Abs(float64(c.Scale))*na, tol*4) {
		return bad("Norm(%v * v) = %v, want %v * %v", c.Scale, ns, math.Abs(float64(c.Scale)), na)
	}
	o.Nontrivial = na > 0 && nb > 0 && len(a) >= 2
	o.ClassIf(na == 0 || nb == 0, "zero vector")
	o.ClassIf(len(a) == 1, "one-dimensional")
	o.ClassIf(na > 1e50 || nb > 1e50, "huge")
	o.ClassIf(na > 0 && na < 1e-50, "tiny")
	cos := func(v, w []float64, nv, nw float64) (float64, error) {
		r := searchutil.Cosine(v, w, nv, nw)
		var want float64
		if nv != 0 && nw != 0 {
			q := bigDot(v, w)
			d := new(big.Float).SetPrec(400).Mul(bigDot(v, v), bigDot(w, w))
			d.Sqrt(d)
			q.Quo(q, d)
			want, _ = q.Float64()
		}
		if !near(r, want, tol*4) {
			return 0, bad("Cosine(%v, %v) = %v, want %v", v, w, r, want)
		}
		if math.Abs(r) > 1+tol*4 {
			return 0, bad("Cosine(%v, %v) = %v is outside [-1,1]", v, w, r)
		}
		if (nv == 0 || nw == 0) && r != 0 {
			return 0, bad("Cosine with a zero vector = %v", r)
		}
		return r, nil
	}
	ab, err := cos(a, b, na, nb)
	if err != nil {
		return err
	}
	ba, err := cos(b, a, nb, na)
	if err != nil {
		return err
	}
	if !near(ab, ba, tol*8) {
		return bad("Cosine not symmetric: %v %v", ab, ba)
	}
	aa, err := cos(a, a, na, na)
	if err != nil {
		return err
	}
	if na != 0 && !near(aa, 1, tol*8) {
		return bad("Cosine(v, v) = %v", aa)
	}
	nn, err := cos(neg, b, embutil.Norm(neg), nb)
	if err != nil {
		return err
	}
	if !near(nn, -ab, tol*8) {
		return bad("Cosine(-a, b) = %v, Cosine(a, b) = %v", nn, ab)
	}
	if c.Scale > 0 {
		sc, err := cos(scaled, b, ns, nb)
		if err != nil {
			return err
		}
		if !near(sc, ab, tol*16) {
			return bad("Cosine(%v*a, b) = %v, Cosine(a, b) = %v", c.Scale, sc, ab)
		}
	}
	// explicit zero norms give 0 even if the vectors are not zero
	if r := searchutil.Cosine(a, b, 0, nb); r != 0 {
		return bad("Cosine with first norm 0 = %v", r)
	}
	if r := searchutil.Cosine(a, b, na, 0); r != 0 {
		return bad("Cosine with second norm 0 = %v", r)
	}
	return nil
}

// ---- C32 ----------------------------------------------------------------

type rawItem struct {
	Word B
	Dim  int
	Vec  []F
}

type validCase struct {
	Items []rawItem // arbitrary single items
	Set   []rawItem // items with Dim == len(Vec), possibly of mixed dimension
	Find  []B
}

func genC32(t *rapid.T) any {
	c := &validCase{}
	for i, n := 0, intIn(t, 1, 6, "nitems"); i < n; i++ {
		it := rawItem{Word: genWord(t, "w"), Dim: intIn(t, -1, 4, "dim")}
		if chance(t, 4, "empty") {
			it.Word = ""
		}
		m := intIn(t, 0, 4, "len")
		if boolean(t, "match") && it.Dim >= 0 {
			m = it.Dim
		}
		it.Vec = genVec(t, m, true, "v")
		c.Items = append(c.Items, it)
	}
	base := intIn(t, 1, 5, "base")
	mixed := intIn(t, 0, 2, "mixed") == 0
	for i, n := 0, sizeBiased(t, 0, 30, "nset"); i < n; i++ {
		d := base
		if mixed && chance(t, 3, "odd") {
			d = intIn(t, 1, 6, "d")
		}
		c.Set = append(c.Set, rawItem{genWord(t, "w"), d, genVec(t, d, true, "v")})
	}
	for i, n := 0, intIn(t, 1, 5, "nfind"); i < n; i++ {
		if len(c.Set) > 0 && boolean(t, "present") {
			w := c.Set[intIn(t, 0, len(c.Set)-1, "fi")].Word
			if chance(t, 4, "near") {
				w = nearMiss(t, w)
				if boolean(t, "both") {
					c.Set[intIn(t, 0, len(c.Set)-1, "at")].Word = w
				}
			}
			c.Find = append(c.Find, w)
		} else {
			c.Find = append(c.Find, genWord(t, "fw"))
		}
	}
	return c
}

func judgeC32(x any, o *Obs) error {
	c := x.(*validCase)
	for _, it := range c.Items {
		e := embedding.Embedding{Word: string(it.Word), Dim: it.Dim, Vector: floats(it.Vec), Norm: plainNorm(floats(it.Vec))}
		valid := it.Word != "" && it.Dim != 0 && it.Dim == len(it.Vec)
		err := e.Validate()
		o.ClassIf(valid, "valid item")
		o.ClassIf(!valid, "invalid item")
		if (err == nil) != valid {
			return bad("Validate(%+v) = %v, want valid=%v", e, err, valid)
		}
	}
	var embs embedding.Embeddings
	same := true
	for i, it := range c.Set {
		v := floats(it.Vec)
		embs = append(embs, embedding.Embedding{Word: string(it.Word), Dim: it.Dim, Vector: v, Norm: float64(i)})
		same = same && it.Dim == c.Set[0].Dim
	}
	o.Nontrivial = len(c.Set) >= 2
	o.ClassIf(same, "one dimension")
	o.ClassIf(!same, "mixed dimensions")
	if embs.Empty() != (len(c.Set) == 0) {
		return bad("Empty() = %v for %d items", embs.Empty(), len(c.Set))
	}
	if err := embs.Validate(); (err == nil) != same {
		return bad("Embeddings.Validate = %v, all of one dimension: %v", err, same)
	}
	s, err := search.New(embs...)
	if (err == nil) != same {
		return bad("search.New error = %v, all of one dimension: %v", err, same)
	}
	if err == nil {
		if len(s.Items) != len(c.Set) {
			return bad("searcher has %d items, want %d", len(s.Items), len(c.Set))
		}
		for i := range embs {
			if !reflect.DeepEqual(s.Items[i], embs[i]) {
				return bad("searcher item %d is %v, want %v", i, s.Items[i], embs[i])
			}
		}
	} else if s != nil {
		return bad("search.New returned both a searcher and an error")
	}
	for _, w := range c.Find {
		want := -1
		for i, it := range c.Set {
			if it.Word == w {
				want = i
				break
			}
		}
		got, ok := embs.Find(string(w))
		if ok != (want >= 0) {
			return bad("Find(%q) found=%v, want %v", w, ok, want >= 0)
		}
		if ok && !reflect.DeepEqual(got, embs[want]) {
			return bad("Find(%q) = %v, want first item %d: %v", w, got, want, embs[want])
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C01",
		Rule: "random embedding sets (grid or real vectors, ties, zeros, copies, opposites, repeated words), query, k (incl. <=0 and huge) and ignore list; non-trivial: at least two words with positive similarity and k>=2, or k larger than the words available",
		Parts: []Part{{Name: "search", Quick: 30000, Thorough: 1500000,
			New: func() any { return &searchCase{} }, Gen: genSearchCase(40), Judge: judgeC01},
			{Name: "large", Quick: 400, Thorough: 20000,
				New: func() any { return &searchCase{} }, Gen: genSearchCase(400), Judge: judgeC01}}})
	register(&Prop{ID: "C02",
		Rule:  "random embedding sets with repeated words, known and unknown query words, raw query vectors; non-trivial as for C01",
		Parts: []Part{{Name: "entry", Quick: 24000, Thorough: 1000000, New: func() any { return &searchCase{} }, Gen: genC02, Judge: judgeC02}}})
	register(&Prop{ID: "C26",
		Rule:  "pairs of vectors of dimension 1..200 with grid, unit-range, scaled and mixed-magnitude components; non-trivial: both non-zero and dimension >= 2",
		Parts: []Part{{Name: "laws", Quick: 16000, Thorough: 400000, New: func() any { return &cosCase{} }, Gen: genC26, Judge: judgeC26}}})
	register(&Prop{ID: "C32",
		Rule:  "single items with arbitrary word/dim/values and collections of one or of mixed dimensions, with lookups; non-trivial: a collection of at least two items",
		Parts: []Part{{Name: "validate", Quick: 24000, Thorough: 800000, New: func() any { return &validCase{} }, Gen: genC32, Judge: judgeC32}}})
	register(&Prop{ID: "C33",
		Rule: "sequences of searches on one searcher, sequential or from 2-8 goroutines under the race detector, compared with each search alone on a fresh searcher; non-trivial: at least 3 items and 2 searches",
		Parts: []Part{
			{Name: "sequence", Quick: 8000, Thorough: 300000, New: func() any { return &searchSeqCase{} }, Gen: genC33(false), Judge: judgeC33},
			{Name: "concurrent", Race: true, Quick: 1600, Thorough: 40000, New: func() any { return &searchSeqCase{} }, Gen: genC33(true), Judge: judgeC33}}})
}
