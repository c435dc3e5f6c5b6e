package main

import (
	"container/heap"
	"fmt"
	"math"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/corpus/dictionary/node"
	"github.com/ynqa/wego/pkg/model/modelutil"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
)

// ---- C06 ----------------------------------------------------------------

type dictOp struct {
	Add   []B // one Add call with these words
	Check bool
	From  int `json:",omitempty"` // also the words f<From>, f<From+1>, ... Fill of them
	Fill  int `json:",omitempty"`
	Times int `json:",omitempty"` // how many times Add is called, if more than once
	Long  int `json:",omitempty"` // also two words of this length that differ at the end
}

type dictCase struct {
	Ops    []dictOp
	Absent []B
}

func genC06(t *rapid.T) any {
	c := &dictCase{}
	pool := genVocab(t, 1, 40)
	pool = append(pool, "")
	for i, n := 0, sizeBiased(t, 0, 40, "nops"); i < n; i++ {
		op := dictOp{Check: boolean(t, "check")}
		for j, m := 0, sizeBiased(t, 0, 12, "nadd"); j < m; j++ {
			op.Add = append(op.Add, pool[intIn(t, 0, len(pool)-1, "w")])
		}
		if chance(t, 12, "bulk") {
			op.From, op.Fill = uniform(t, 0, 50, "from"), uniform(t, 1, 400, "fill")
		}
		if chance(t, 40, "often") {
			op.Times = uniform(t, 2, 300, "times")
		}
		if chance(t, 100, "giant") {
			op.Long = sizeBiased(t, 1, 200000, "length")
		}
		c.Ops = append(c.Ops, op)
	}
	if chance(t, 500, "huge") {
		// Frequencies and sizes beyond 16 bits.
		op := dictOp{Check: true, Add: []B{pool[0]}, Times: uniform(t, 65530, 140000, "times")}
		if boolean(t, "wide") {
			op = dictOp{Check: true, Fill: uniform(t, 65530, 70000, "fill")}
		}
		c.Ops = append(c.Ops, op)
	}
	for i, n := 0, intIn(t, 1, 4, "nabs"); i < n; i++ {
		c.Absent = append(c.Absent, genToken(t, "abs"))
	}
	return c
}

func judgeC06(x any, o *Obs) error {
	c := x.(*dictCase)
	d := dictionary.New()
	var order []string
	freq := map[string]int{}
	check := func(when string) error {
		if d.Len() != len(order) {
			return bad("%s: Len() = %d, want %d", when, d.Len(), len(order))
		}
		for id, w := range order {
			if got, ok := d.ID(w); !ok || got != id {
				return bad("%s: ID(%q) = %d, %v, want %d", when, w, got, ok, id)
			}
			if got, ok := d.Word(id); !ok || got != w {
				return bad("%s: Word(%d) = %q, %v, want %q", when, id, got, ok, w)
			}
			if got := d.WordFreq(w); got != freq[w] {
				return bad("%s: WordFreq(%q) = %d, want %d", when, w, got, freq[w])
			}
			if got := d.IDFreq(id); got != freq[w] {
				return bad("%s: IDFreq(%d) = %d, want %d", when, id, got, freq[w])
			}
		}
		for _, off := range []int{0, 1, 2, 1000, math.MaxInt - len(order)} {
			id := len(order) + off
			if w, ok := d.Word(id); ok || w != "" {
				return bad("%s: Word(%d) = %q, %v for %d words", when, id, w, ok, len(order))
			}
			if f := d.IDFreq(id); f != 0 {
				return bad("%s: IDFreq(%d) = %d for %d words", when, id, f, len(order))
			}
		}
		for _, b := range append(c.Absent, "", "definitely absent") {
			w := string(b)
			if freq[w] > 0 {
				continue
			}
			if _, ok := d.ID(w); ok {
				return bad("%s: ID(%q) found, never added", when, w)
			}
			if f := d.WordFreq(w); f != 0 {
				return bad("%s: WordFreq(%q) = %d, never added", when, w, f)
			}
		}
		if d.Len() != len(order) {
			return bad("%s: lookups changed the size", when)
		}
		return nil
	}
	repeated := false
	if err := check("new"); err != nil {
		return err
	}
	for i, op := range c.Ops {
		for j := 0; j < op.Fill; j++ {
			op.Add = append(op.Add, B(fmt.Sprintf("f%d", op.From+j)))
		}
		if op.Long > 0 {
			w := strings.Repeat("g", op.Long)
			op.Add = append(op.Add, B(w+"1"), B(w+"2"))
			o.ClassIf(op.Long > 65535, "word over 16 bits long")
		}
		times := max(1, op.Times)
		for k := 0; k < times; k++ {
			d.Add(strs(op.Add)...)
		}
		for _, w := range op.Add {
			if freq[string(w)] == 0 {
				order = append(order, string(w))
			} else {
				repeated = true
			}
			freq[string(w)] += times
		}
		o.ClassIf(times > 65535 && len(op.Add) > 0, "frequency over 16 bits")
		if op.Check {
			if err := check(fmt.Sprintf("after op %d", i)); err != nil {
				return err
			}
		}
	}
	o.Nontrivial = repeated && len(order) >= 2
	o.ClassIf(len(order) > 20, "over 20 words")
	o.ClassIf(len(order) > 256, "over 256 words")
	o.ClassIf(len(order) > 65535, "over 65535 words")
	return check("at the end")
}

// ---- Huffman trees ------------------------------------------------------

type treeCase struct {
	Freqs []int
	Dim   int
	// C08
	Lookups [][2]int // leaf (or inner node), depth
	Par     int
	Made    []int // a tree built by hand: node i+1 hangs off node i-Made[i] (or 0)
	Inner   bool  // look up inner nodes as well
}

func genFreqs(t *rapid.T, maxN int) []int {
	n := sizeBiased(t, 0, maxN, "n")
	kind := intIn(t, 0, 4, "fkind")
	f := make([]int, n)
	a, b := 1, 1
	for i := range f {
		switch kind {
		case 0:
			f[i] = 1
		case 1:
			f[i] = intIn(t, 1, 3, "f")
		case 2:
			f[i] = intIn(t, 1, 60, "f")
		case 3: // Fibonacci: the deepest trees
			f[i] = a
			a, b = b, a+b
			if i >= 17 {
				a, b = 1, 1
			}
		default:
			f[i] = 1 + 400/(i+1)
		}
	}
	if kind >= 3 && n > 1 { // out of order
		for i := range f {
			j := intIn(t, i, n-1, "swap")
			f[i], f[j] = f[j], f[i]
		}
	}
	return f
}

func genTree(t *rapid.T) any {
	return &treeCase{Freqs: genFreqs(t, 60), Dim: intIn(t, 0, 6, "dim")}
}

func treeDic(freqs []int) *dictionary.Dictionary {
	d := dictionary.New()
	for i := range freqs {
		d.Add(fmt.Sprintf("w%d", i))
	}
	for i, f := range freqs {
		w := fmt.Sprintf("w%d", i)
		for j := 1; j < f; j++ {
			d.Add(w)
		}
	}
	return d
}

type intHeap []int

func (h intHeap) Len() int           { return len(h) }
func (h intHeap) Less(i, j int) bool { return h[i] < h[j] }
func (h intHeap) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *intHeap) Push(x any)        { *h = append(*h, x.(int)) }
func (h *intHeap) Pop() any {
	old := *h
	x := old[len(old)-1]
	*h = old[:len(old)-1]
	return x
}

// huffmanCost is the minimum frequency-weighted code length.
func huffmanCost(f []int) int {
	h := append(intHeap(nil), f...)
	heap.Init(&h)
	cost := 0
	for h.Len() > 1 {
		s := heap.Pop(&h).(int) + heap.Pop(&h).(int)
		cost += s
		heap.Push(&h, s)
	}
	return cost
}

func judgeC07(x any, o *Obs) error {
	c := x.(*treeCase)
	d := treeDic(c.Freqs)
	set := d.HuffnamTree(c.Dim)
	n := len(c.Freqs)
	if len(set) != n {
		return bad("%d leaves for %d words", len(set), n)
	}
	o.Nontrivial = n >= 3
	o.ClassIf(n == 0, "empty")
	o.ClassIf(n == 1, "single word")
	leaf := map[*node.Node]int{}
	for i, l := range set {
		if l == nil {
			return bad("leaf %d is nil", i)
		}
		if j, dup := leaf[l]; dup {
			return bad("words %d and %d share a leaf", i, j)
		}
		leaf[l] = i
		if l.Val != c.Freqs[i] {
			return bad("leaf %d carries %d, the word occurs %d times", i, l.Val, c.Freqs[i])
		}
	}
	if n == 0 {
		return nil
	}
	children := map[*node.Node][]*node.Node{}
	seen := map[*node.Node]bool{}
	var root *node.Node
	cost := 0
	codes := map[string]int{}
	maxDepth := 0
	for i, l := range set {
		depth := 0
		code := ""
		p := l
		for ; ; p = p.Parent {
			if !seen[p] {
				seen[p] = true
				if p.Parent != nil {
					children[p.Parent] = append(children[p.Parent], p)
				}
			}
			if p.Parent == nil {
				break
			}
			if p.Code != 0 && p.Code != 1 {
				return bad("code %d in the path of word %d", p.Code, i)
			}
			code = fmt.Sprint(p.Code) + code
			depth++
			if depth > 2*n+2 {
				return bad("the path of word %d does not end", i)
			}
		}
		if root == nil {
			root = p
		} else if root != p {
			return bad("words 0 and %d hang off different roots", i)
		}
		cost += depth * l.Val
		maxDepth = max(maxDepth, depth)
		if j, dup := codes[code]; dup {
			return bad("words %d and %d have the same code %s", i, j, code)
		}
		codes[code] = i
	}
	o.ClassIf(maxDepth >= 10, "depth>=10")
	for code, i := range codes {
		for k := 1; k < len(code); k++ {
			if j, ok := codes[code[:k]]; ok {
				return bad("the code of word %d (%s) is a prefix of that of word %d (%s)", j, code[:k], i, code)
			}
		}
	}
	var inner []*node.Node
	for p, ch := range children {
		if i, isLeaf := leaf[p]; isLeaf {
			return bad("leaf %d has children", i)
		}
		if len(ch) != 2 {
			return bad("an inner node has %d children", len(ch))
		}
		if ch[0].Code == ch[1].Code {
			return bad("both children of a node are coded %d", ch[0].Code)
		}
		if p.Val != ch[0].Val+ch[1].Val {
			return bad("inner node carries %d, its children %d and %d", p.Val, ch[0].Val, ch[1].Val)
		}
		inner = append(inner, p)
	}
	if len(inner) != n-1 {
		return bad("%d inner nodes for %d words", len(inner), n)
	}
	if want := huffmanCost(c.Freqs); cost != want {
		return bad("weighted code length %d, the minimum is %d (frequencies %v)", cost, want, c.Freqs)
	}
	for _, p := range inner {
		if len(p.Vector) != c.Dim {
			return bad("an inner node has a vector of dimension %d, want %d", len(p.Vector), c.Dim)
		}
		for _, v := range p.Vector {
			if v != 0 {
				return bad("an inner node starts with vector %v", p.Vector)
			}
		}
	}
	for i, p := range inner {
		for j := range p.Vector {
			p.Vector[j] = float64(i*c.Dim + j + 1)
		}
	}
	for i, p := range inner {
		for j := range p.Vector {
			if p.Vector[j] != float64(i*c.Dim+j+1) {
				return bad("inner nodes share vector storage")
			}
		}
	}
	return nil
}

func genC08(par bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		f := genFreqs(t, 24)
		if len(f) == 0 {
			f = []int{1}
		}
		c := &treeCase{Freqs: f, Dim: 1}
		n := intIn(t, 1, 30, "nlook")
		leaves := len(f)
		if chance(t, 3, "made") {
			// a chain, more or less: long paths
			c.Freqs, c.Made = nil, []int{}
			most := pick(t, "back", 0, 0, 1, 2, 8)
			for i, m := 0, sizeBiased(t, 0, 150, "nodes"); i < m; i++ {
				c.Made = append(c.Made, intIn(t, 0, most, "up"))
			}
			f = make([]int, len(c.Made)+1)
		} else if c.Inner = chance(t, 3, "inner"); c.Inner {
			f = make([]int, 2*leaves-1)
		}
		hot := intIn(t, 0, len(f)-1, "hot")
		for i := 0; i < n; i++ {
			l := intIn(t, 0, len(f)-1, "leaf")
			if boolean(t, "ishot") {
				l = hot
			}
			depth := intIn(t, -1, len(f)+2, "depth")
			if chance(t, 6, "big") {
				depth = pick(t, "bigdepth", 100, math.MaxInt, math.MinInt)
			}
			c.Lookups = append(c.Lookups, [2]int{l, depth})
		}
		if par {
			c.Par = intIn(t, 2, 8, "par")
		}
		return c
	}
}

func refPath(l *node.Node, depth int) []*node.Node {
	var p []*node.Node
	for x := l; x != nil; x = x.Parent {
		p = append([]*node.Node{x}, p...)
	}
	if depth > 0 && depth < len(p) {
		p = p[:depth]
	}
	return p
}

func samePath(got, want []*node.Node) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d nodes, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("wrong node at position %d of %d", i, len(want))
		}
	}
	return ""
}

func judgeC08(x any, o *Obs) error {
	c := x.(*treeCase)
	var set []*node.Node
	if c.Made != nil {
		set = append(set, &node.Node{})
		for i, back := range c.Made {
			set = append(set, &node.Node{Parent: set[max(0, i-back)], Code: i % 2})
		}
		o.Class("built by hand")
		o.Nontrivial = len(set) >= 3 && len(c.Lookups) >= 2
	} else {
		set = treeDic(c.Freqs).HuffnamTree(c.Dim)
		if len(set) != len(c.Freqs) {
			return bad("%d leaves for %d words", len(set), len(c.Freqs))
		}
		o.Nontrivial = len(c.Freqs) >= 3 && len(c.Lookups) >= 2
		if c.Inner { // in the order met, root paths first or last
			seen := map[*node.Node]bool{}
			for _, l := range set {
				for p := l.Parent; p != nil && !seen[p]; p = p.Parent {
					seen[p] = true
					set = append(set, p)
				}
			}
			o.Class("inner nodes as well")
		}
	}
	// lookups draw beyond the leaves when there are inner nodes
	look := func(i int) *node.Node { return set[i%len(set)] }
	want := make([][]*node.Node, len(c.Lookups))
	for i, q := range c.Lookups {
		want[i] = refPath(look(q[0]), q[1])
		o.ClassIf(len(want[i]) > 40, "path over 40 nodes")
		o.ClassIf(q[1] == 0, "depth 0")
		o.ClassIf(q[1] > 0 && len(want[i]) == q[1], "cut")
		o.ClassIf(q[1] > 0 && len(want[i]) < q[1], "deeper than the tree")
	}
	if c.Par == 0 {
		for i, q := range c.Lookups {
			if msg := samePath(look(q[0]).GetPath(q[1]), want[i]); msg != "" {
				return bad("lookup %d: GetPath(%d) of leaf %d: %s", i, q[1], q[0], msg)
			}
		}
		// what was answered earlier stays as it was; inner nodes have paths, too
		held := make([][]*node.Node, len(c.Lookups))
		for i, q := range c.Lookups {
			held[i] = look(q[0]).GetPath(q[1])
		}
		for i, q := range c.Lookups {
			if msg := samePath(held[i], want[i]); msg != "" {
				return bad("the path GetPath(%d) of leaf %d gave changed later: %s", q[1], q[0], msg)
			}
		}
		for _, l := range set {
			if p := l.Parent; p != nil {
				if msg := samePath(p.GetPath(0), refPath(p, 0)); msg != "" {
					return bad("GetPath(0) of an inner node: %s", msg)
				}
			}
		}
		return nil
	}
	o.Class("goroutines=%d", c.Par)
	errs := make([]error, c.Par)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < c.Par; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for k := range c.Lookups {
				i := k
				if g%2 == 1 {
					i = (k + g) % len(c.Lookups)
				}
				q := c.Lookups[i]
				if msg := samePath(look(q[0]).GetPath(q[1]), want[i]); msg != "" {
					errs[g] = bad("concurrent GetPath(%d) of leaf %d: %s", q[1], q[0], msg)
					return
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// ---- C28 ----------------------------------------------------------------

type pairCase struct{ P [][2]uint64 }

func genID(t *rapid.T, label string) uint64 {
	const top = 1<<32 - 1
	switch intIn(t, 0, 3, label+".k") {
	case 0:
		return uint64(intIn(t, 0, 5, label))
	case 1:
		return top - uint64(intIn(t, 0, 5, label))
	case 2:
		return min(uint64(1)<<uint(intIn(t, 0, 31, label))+uint64(intIn(t, 0, 2, label+".o")), top)
	}
	return rapid.Uint64Range(0, top).Draw(t, label)
}

func genC28(t *rapid.T) any {
	c := &pairCase{}
	for i, n := 0, intIn(t, 2, 20, "n"); i < n; i++ {
		a, b := genID(t, "a"), genID(t, "b")
		if len(c.P) > 0 {
			switch intIn(t, 0, 5, "rel") {
			case 0:
				a = c.P[len(c.P)-1][0]
			case 1:
				b = c.P[len(c.P)-1][0]
			case 2:
				a, b = c.P[len(c.P)-1][1], c.P[len(c.P)-1][0]
			case 3:
				b = a
			}
		}
		c.P = append(c.P, [2]uint64{a, b})
	}
	return c
}

func judgeC28(x any, o *Obs) error {
	c := x.(*pairCase)
	codes := map[uint64][2]uint64{}
	for _, p := range c.P {
		lo, hi := min(p[0], p[1]), max(p[0], p[1])
		e := encode.EncodeBigram(p[0], p[1])
		if r := encode.EncodeBigram(p[1], p[0]); r != e {
			return bad("EncodeBigram(%d,%d) = %d but EncodeBigram(%d,%d) = %d", p[0], p[1], e, p[1], p[0], r)
		}
		a, b := encode.DecodeBigram(e)
		if a != lo || b != hi {
			return bad("DecodeBigram(EncodeBigram(%d,%d)) = %d,%d", p[0], p[1], a, b)
		}
		if q, ok := codes[e]; ok && q != [2]uint64{lo, hi} {
			return bad("pairs %v and %v share the code %d", q, p, e)
		}
		codes[e] = [2]uint64{lo, hi}
		o.ClassIf(lo == hi, "equal ids")
		o.ClassIf(hi >= 1<<31, "id over 2^31")
	}
	o.Nontrivial = len(codes) >= 2
	return nil
}

// ---- C29 ----------------------------------------------------------------

type matOp struct {
	Row, Col int
	Val      F
	Whole    bool // write the whole row
	Held     bool // write through the slice taken first
}

type matCase struct {
	Rows, Cols int
	Ops        []matOp
}

func genC29(t *rapid.T) any {
	c := &matCase{Rows: sizeBiased(t, 0, 40, "rows"), Cols: sizeBiased(t, 0, 20, "cols")}
	if c.Rows > 0 && c.Cols > 0 {
		for i, n := 0, intIn(t, 0, 30, "nops"); i < n; i++ {
			c.Ops = append(c.Ops, matOp{intIn(t, 0, c.Rows-1, "r"), intIn(t, 0, c.Cols-1, "c"), F(intIn(t, -1000, 1000, "v")), chance(t, 4, "whole"), boolean(t, "held")})
		}
	}
	return c
}

func judgeC29(x any, o *Obs) error {
	c := x.(*matCase)
	calls := make([]int, c.Rows)
	model := make([][]float64, c.Rows)
	var cbErr error
	m := matrix.New(c.Rows, c.Cols, func(i int, v []float64) {
		if i < 0 || i >= c.Rows {
			cbErr = bad("initialiser called for row %d of %d", i, c.Rows)
			return
		}
		calls[i]++
		if len(v) != c.Cols {
			cbErr = bad("initialiser of row %d got a slice of length %d, want %d", i, len(v), c.Cols)
			return
		}
		model[i] = make([]float64, c.Cols)
		for j := range v {
			if v[j] != 0 {
				cbErr = bad("row %d is not zero before its initialisation (rows overlap)", i)
			}
			v[j] = float64(i*1000+j) + 0.5
			model[i][j] = v[j]
		}
	})
	if cbErr != nil {
		return cbErr
	}
	for i, n := range calls {
		if n != 1 {
			return bad("initialiser called %d times for row %d", n, i)
		}
	}
	if m.Row() != c.Rows || m.Col() != c.Cols {
		return bad("Row() = %d, Col() = %d, want %d, %d", m.Row(), m.Col(), c.Rows, c.Cols)
	}
	check := func(when string) error {
		for i := range model {
			s := m.Slice(i)
			if len(s) != c.Cols {
				return bad("%s: Slice(%d) has length %d, want %d", when, i, len(s), c.Cols)
			}
			for j := range s {
				if s[j] != model[i][j] {
					return bad("%s: row %d column %d is %v, want %v", when, i, j, s[j], model[i][j])
				}
			}
		}
		return nil
	}
	if err := check("initially"); err != nil {
		return err
	}
	held := make([][]float64, c.Rows)
	for i := range held {
		held[i] = m.Slice(i)
	}
	for n, op := range c.Ops {
		s := m.Slice(op.Row)
		if op.Held {
			s = held[op.Row]
		}
		if op.Whole {
			for j := range s {
				s[j] = float64(op.Val) + float64(j)
				model[op.Row][j] = s[j]
			}
		} else {
			s[op.Col] = float64(op.Val)
			model[op.Row][op.Col] = float64(op.Val)
		}
		if err := check(fmt.Sprintf("after write %d", n)); err != nil {
			return err
		}
	}
	o.Nontrivial = c.Rows >= 2 && c.Cols >= 1 && len(c.Ops) > 0
	o.ClassIf(c.Rows == 0 || c.Cols == 0, "empty shape")
	return nil
}

// ---- C31 ----------------------------------------------------------------

type drawCase struct {
	Before []int // bounds of earlier draws
	N      int   // bound of the consecutive draws
	Big    int   // a large bound, whose sixteenths are all to be reached; 0 none
	Wide   []int // bounds drawn afterwards, range only
}

func genBound(t *rapid.T, label string) int {
	switch intIn(t, 0, 4, label+".k") {
	case 0:
		return intIn(t, 1, 4, label)
	case 1:
		return math.MaxInt - intIn(t, 0, 2, label)
	case 2:
		return 1 << uint(intIn(t, 0, 62, label))
	case 3:
		return 1<<uint(intIn(t, 1, 62, label)) + pick(t, label+".o", -1, 1)
	}
	return intIn(t, 1, 100000, label)
}

func genC31(t *rapid.T) any {
	c := &drawCase{N: intIn(t, 1, 64, "n")}
	if chance(t, 3, "pow2") {
		c.N = 1 << uint(intIn(t, 0, 6, "e"))
	}
	if chance(t, 3, "big?") {
		c.Big = pick(t, "bigkind", uniform(t, 1000, 200000, "big"), uniform(t, 1<<16, 1<<24, "big2"), 1<<uint(intIn(t, 10, 40, "e2"))+intIn(t, 0, 3, "o2"))
	}
	for i, n := 0, sizeBiased(t, 0, 60, "nbefore"); i < n; i++ {
		c.Before = append(c.Before, genBound(t, "b"))
	}
	for i, n := 0, intIn(t, 1, 40, "nwide"); i < n; i++ {
		c.Wide = append(c.Wide, genBound(t, "w"))
	}
	return c
}

func judgeC31(x any, o *Obs) error {
	c := x.(*drawCase)
	draw := func(n int) (int, error) {
		v := modelutil.NextRandom(n)
		if v < 0 || v >= n {
			return 0, bad("NextRandom(%d) = %d", n, v)
		}
		return v, nil
	}
	for _, n := range c.Before {
		if _, err := draw(n); err != nil {
			return err
		}
	}
	hit := make([]int, c.N)
	total := 250 * c.N
	for i := 0; i < total; i++ {
		v, err := draw(c.N)
		if err != nil {
			return err
		}
		hit[v]++
	}
	for i, h := range hit {
		if h == 0 {
			return bad("index %d of %d never drawn in %d consecutive draws", i, c.N, total)
		}
		if !rateOK(h, total, 1/float64(c.N)) {
			return bad("index %d of %d drawn %d times in %d consecutive draws", i, c.N, h, total)
		}
	}
	if c.Big > 0 {
		var parts [16]int
		const draws = 4000
		for i := 0; i < draws; i++ {
			v, err := draw(c.Big)
			if err != nil {
				return err
			}
			parts[v/(c.Big/16+1)]++
		}
		for i, h := range parts {
			// all parts but the last have the same size
			if i < 15 && !rateOK(h, draws, float64(c.Big/16+1)/float64(c.Big)) {
				return bad("%d of %d draws below %d fall in sixteenth %d", h, draws, c.Big, i)
			}
		}
		o.Class("large bound")
	}
	for i := 0; i < 20; i++ {
		for _, n := range c.Wide {
			if _, err := draw(n); err != nil {
				return err
			}
		}
	}
	o.Nontrivial = c.N >= 2
	o.ClassIf(c.N&(c.N-1) == 0, "power of two")
	o.ClassIf(len(c.Before) > 0, "after other draws")
	return nil
}

// longCase is one long run of draws: rare states of the generator count too.
type longCase struct {
	Draws  int
	Bounds []int
}

func genLong(t *rapid.T) any {
	c := &longCase{Draws: pick(t, "draws", 300_000_000, 400_000_000)}
	for i, n := 0, intIn(t, 1, 8, "nb"); i < n; i++ {
		c.Bounds = append(c.Bounds, pick(t, "kind", intIn(t, 2, 12, "small"), 1<<uint(intIn(t, 1, 31, "e"))+intIn(t, 0, 1, "o"), intIn(t, 2, 1000000, "mid")))
	}
	return c
}

func judgeLong(x any, o *Obs) error {
	c := x.(*longCase)
	o.Nontrivial = true
	for i := 0; i < c.Draws; {
		for _, n := range c.Bounds {
			if v := modelutil.NextRandom(n); v < 0 || v >= n {
				return bad("draw %d: NextRandom(%d) = %d", i, n, v)
			}
			i++
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C06",
		Rule:  "sequences of Add calls (batches of 0..12 words from a pool with repeats, odd bytes, the empty word; a few add one word, or distinct words, over 65536 times) with full table checks in between; non-trivial: a repeated word and at least two distinct words",
		Parts: []Part{{Name: "history", Quick: 12000, Thorough: 500000, New: func() any { return &dictCase{} }, Gen: genC06, Judge: judgeC06}}})
	register(&Prop{ID: "C07",
		Rule:  "frequency lists of 0..60 words (equal, small, skewed, Fibonacci, Zipf), dimensions 0..6; non-trivial: at least three words",
		Parts: []Part{{Name: "tree", Quick: 12000, Thorough: 500000, New: func() any { return &treeCase{} }, Gen: genTree, Judge: judgeC07}}})
	register(&Prop{ID: "C08",
		Rule: "trees of 1..24 words with 1..30 lookups of hot and other leaves at depths from below 0 to beyond the tree; sequential, and from 2-8 goroutines on a fresh tree under the race detector; non-trivial: at least three words and two lookups",
		Parts: []Part{
			{Name: "sequence", Quick: 16000, Thorough: 600000, New: func() any { return &treeCase{} }, Gen: genC08(false), Judge: judgeC08},
			{Name: "concurrent", Race: true, Quick: 2400, Thorough: 80000, New: func() any { return &treeCase{} }, Gen: genC08(true), Judge: judgeC08}}})
	register(&Prop{ID: "C28",
		Rule:  "lists of id pairs below 2^32 (small, top of range, around powers of two, shared members, swapped, equal); non-trivial: at least two distinct codes",
		Parts: []Part{{Name: "pairs", Quick: 40000, Thorough: 2000000, New: func() any { return &pairCase{} }, Gen: genC28, Judge: judgeC28}}})
	register(&Prop{ID: "C29",
		Rule:  "matrix shapes up to 40x20 (empty ones included) with up to 30 writes through fresh or held row slices, all rows compared after each; non-trivial: at least two rows, one column and one write",
		Parts: []Part{{Name: "rows", Quick: 16000, Thorough: 600000, New: func() any { return &matCase{} }, Gen: genC29, Judge: judgeC29}}})
	register(&Prop{ID: "C31",
		Rule: "a fresh process draws 0..60 times with arbitrary bounds, then 250n times below n (n <= 64), then with arbitrary bounds up to MaxInt; or draws 3-4 hundred million times with mixed bounds (range only); non-trivial: n >= 2",
		Parts: []Part{{Name: "draws", Isolated: true, Quick: 1600, Thorough: 40000, New: func() any { return &drawCase{} }, Gen: genC31, Judge: judgeC31},
			{Name: "long", Isolated: true, Quick: 8, Thorough: 200, New: func() any { return &longCase{} }, Gen: genLong, Judge: judgeLong}}})
}
