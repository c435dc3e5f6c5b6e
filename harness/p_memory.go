package main

import (
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// ---- C42 ----------------------------------------------------------------
//
// A document that is not to be held in memory takes memory for some batches
// only, however long it is and however much faster it can be read than
// trained; one that is to be held is read once.

type memCase struct {
	Cfg   modelCfg
	Words int
	Vocab int
	Len   int // letters of a word
	Seed  int64
	Chunk int
}

func genMemory(t *rapid.T) any {
	c := &memCase{Seed: int64(uniform(t, 1, 1<<20, "seed"))}
	c.Cfg.Model = pick(t, "model", "word2vec", "word2vec", "lexvec", "lexvec", "glove")
	c.Cfg.Kind, c.Cfg.Opt = pick(t, "kind", "cbow", "skipgram"), pick(t, "opt", "ns", "hs")
	c.Cfg.Rel = pick(t, "rel", "ppmi", "pmi")
	c.Cfg.Solver, c.Cfg.Count = pick(t, "solver", "sgd", "adagrad"), pick(t, "count", "inc", "prox")
	c.Cfg.Dim, c.Cfg.Iter, c.Cfg.Window = uniform(t, 20, 40, "dim"), intIn(t, 1, 2, "iter"), uniform(t, 3, 5, "window")
	c.Cfg.Goroutines = intIn(t, 1, 4, "goroutines")
	c.Cfg.Neg, c.Cfg.MaxDepth, c.Cfg.Smooth, c.Cfg.Alpha = uniform(t, 2, 4, "neg"), 100, 0.75, 0.75
	c.Cfg.Max, c.Cfg.LR, c.Cfg.MinLR = -1, 0.01, 0.001
	c.Cfg.Xmax = 1 << 30
	c.Cfg.ToLower = boolean(t, "lower")
	c.Cfg.UpdateLR = pick(t, "upd", 100, 100000)
	c.Words = uniform(t, 700000, 900000, "words")
	c.Cfg.Batch = pick(t, "batch", 1, 3, 10, 100, 1000)
	if chance(t, 4, "long") {
		c.Words = uniform(t, 1000000, 1500000, "long")
		c.Cfg.Batch, c.Cfg.Iter = pick(t, "longbatch", 1000, 4000), 1
	}
	c.Vocab, c.Len = uniform(t, 2, 60, "vocab"), intIn(t, 1, 8, "len")
	c.Chunk = pick(t, "chunk", 1<<16, 1<<12, 1000)
	return c
}

// endlessDoc makes its text while it is read and measures on the way.
type endlessDoc struct {
	c       *memCase
	words   []string
	n       int // words handed out
	rest    string
	state   uint64
	read    int64
	measure func(pass int, end bool)
	pass    int
	next    int
	ended   bool
}

func (d *endlessDoc) Seek(off int64, whence int) (int64, error) {
	if off != 0 || whence != io.SeekStart {
		return 0, fmt.Errorf("harness: seek to %d, %d", off, whence)
	}
	d.n, d.rest, d.state, d.next, d.ended = 0, "", uint64(d.c.Seed), 0, false
	return 0, nil
}

func (d *endlessDoc) Read(p []byte) (int, error) {
	if len(p) > d.c.Chunk {
		p = p[:d.c.Chunk]
	}
	if d.n == 0 && d.rest == "" {
		d.pass++
	}
	if d.n >= d.next && d.n > 0 {
		d.measure(d.pass, false)
		d.next = d.n + d.c.Words/6
	}
	m := 0
	for m < len(p) {
		if d.rest == "" {
			if d.n == d.c.Words {
				break
			}
			d.state = d.state*6364136223846793005 + 1442695040888963407
			d.rest = d.words[int(d.state>>33)%len(d.words)]
			d.n++
		}
		k := copy(p[m:], d.rest)
		d.rest = d.rest[k:]
		m += k
	}
	d.read += int64(m)
	if m == 0 {
		if !d.ended {
			d.ended = true
			d.measure(d.pass, true)
		}
		return 0, io.EOF
	}
	return m, nil
}

func inUse() int64 {
	var s runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&s)
	return int64(s.HeapAlloc + s.StackInuse)
}

func judgeMemory(x any, o *Obs) error {
	c := x.(*memCase)
	d := &endlessDoc{c: c, state: uint64(c.Seed)}
	for i := 0; i < c.Vocab; i++ {
		w := fmt.Sprintf("%s%d ", strings.Repeat(string(rune('a'+i%26)), c.Len), i)
		d.words = append(d.words, w)
	}
	m, err := newModel(&c.Cfg)
	if err != nil {
		return bad("the model is refused: %v", err)
	}
	var mu sync.Mutex
	var most int64
	at := ""
	base := inUse()
	d.measure = func(pass int, end bool) {
		mu.Lock()
		defer mu.Unlock()
		if v := inUse() - base; v > most {
			most = v
			at = fmt.Sprintf("in pass %d over the document, %d words in", pass, d.n)
		}
	}
	if err := m.Train(d); err != nil {
		return bad("training fails: %v", err)
	}
	g := int64(c.Cfg.Goroutines)
	batches := (4*g + 8) * (int64(c.Cfg.Batch)*16 + 16384)
	vectors := int64(c.Vocab) * int64(c.Cfg.Dim+c.Vocab) * 200
	limit := 2<<20 + batches + vectors
	o.Nontrivial = int64(c.Words)*8 > limit
	o.Class("%s", c.Cfg.Model)
	o.Class("batch %d", c.Cfg.Batch)
	o.ClassIf(d.pass > 1, "several passes")
	o.Class("up to %d/8 of the limit", most*8/limit+1)
	if most > limit {
		return bad("%s, not held in memory, of %d words in batches of %d for %d goroutines takes %d kB %s; %d batches, vectors and counts need less than %d kB",
			c.Cfg.Model, c.Words, c.Cfg.Batch, g, most>>10, at, 4*g+8, limit>>10)
	}
	return nil
}

// -- held in memory: read once

type onceCase struct {
	Text  B
	Cfg   modelCfg
	Seed  int64
	Sizes []int
}

type countingDoc struct {
	io.ReadSeeker
	bytes int64
}

func (d *countingDoc) Read(p []byte) (int, error) {
	n, err := d.ReadSeeker.Read(p)
	d.bytes += int64(n)
	return n, err
}

func genOnce(t *rapid.T) any {
	c := &onceCase{Cfg: genCfg(t), Seed: int64(uniform(t, 1, 1<<20, "seed"))}
	c.Text = genText(t, 0, 60)
	if chance(t, 4, "more") {
		c.Text = B(strings.Repeat(string(c.Text)+" ", uniform(t, 2, 40, "times")))
	}
	tame(&c.Cfg, c.Text)
	c.Cfg.InMemory = true
	c.Cfg.Verbose = false
	c.Sizes = []int{pick(t, "size", 1<<16, 64, 16, 5)}
	return c
}

func judgeOnce(x any, o *Obs) error {
	c := x.(*onceCase)
	seedRand(c.Seed)
	m, err := newModel(&c.Cfg)
	if err != nil {
		return bad("the model is refused: %v", err)
	}
	d := &countingDoc{ReadSeeker: &chunkReader{data: []byte(c.Text), sizes: c.Sizes, failAt: -1}}
	if err := m.Train(d); err != nil {
		return bad("training fails: %v", err)
	}
	o.Nontrivial = c.Cfg.Iter > 1 && len(refFields(string(c.Text))) > 1
	o.Class("%s", c.Cfg.Model)
	if d.bytes != int64(len(c.Text)) {
		return bad("%s with the document held in memory reads %d bytes of a document of %d (%d passes)", c.Cfg.Model, d.bytes, len(c.Text), c.Cfg.Iter)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:    "C42",
		Rule:  "models are trained on documents of up to 1 500 000 words made while they are read; the memory in use (live heap and stacks after a collection) is measured at every sixth of each pass and at its end; non-trivial: the words as ids would exceed the limit, or several passes over two or more words held in memory",
		Assum: []string{"a few is four batches per goroutine and eight more", "2 MB for buffers and whatever else does not depend on the document"},
		Parts: []Part{
			{Name: "batches", Isolated: true, Quick: 10, Thorough: 300, New: func() any { return &memCase{} }, Gen: genMemory, Judge: judgeMemory},
			{Name: "once", Quick: 1500, Thorough: 50000, New: func() any { return &onceCase{} }, Gen: genOnce, Judge: judgeOnce},
		},
	})
}
