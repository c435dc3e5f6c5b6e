package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/corpus"
	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
	"github.com/ynqa/wego/pkg/corpus/cpsutil"
	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/corpus/fs"
	"github.com/ynqa/wego/pkg/corpus/memory"
	"github.com/ynqa/wego/pkg/util/verbose"
)

func newCorpus(inMemory bool, r io.ReadSeeker, lower bool, maxc, minc int) corpus.Corpus {
	if inMemory {
		return memory.New(r, lower, maxc, minc)
	}
	return fs.New(r, lower, maxc, minc)
}

var seps = []string{" ", " ", " ", "\n", "\n", "\t", "  ", "\r\n", "\u00a0", "\u2003", "\v", "\f", "\u0085", "\u3000", " \n\n "}

// genText draws a corpus text over a small pool of tokens.
func genText(t *rapid.T, lo, hi int) B {
	n := sizeBiased(t, lo, hi, "ntok")
	np := sizeBiased(t, 1, 12, "npool")
	pool := make([]B, np)
	for i := range pool {
		if i > 0 && chance(t, 4, "case") { // another case of an earlier word
			s := string(pool[i-1])
			pool[i] = noSpace(pick(t, "variant", strings.ToUpper(s), strings.ToLower(s), strings.ToTitle(s)))
			continue
		}
		pool[i] = genToken(t, "tok")
	}
	odd := boolean(t, "oddsep")
	sep := func() string {
		if odd {
			return pick(t, "sep", seps...)
		}
		return " "
	}
	var sb strings.Builder
	if chance(t, 5, "lead") {
		sb.WriteString(pick(t, "leadsep", seps...))
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteString(sep())
		}
		sb.WriteString(string(pool[intIn(t, 0, np-1, "w")]))
	}
	if chance(t, 3, "trail") {
		sb.WriteString(pick(t, "trailsep", seps...))
	}
	return B(sb.String())
}

func tokens(text string, lower bool) []string {
	ws := refFields(text)
	if lower {
		for i := range ws {
			ws[i] = strings.ToLower(ws[i])
		}
	}
	return ws
}

func firstAppearance(ws []string) ([]string, map[string]int) {
	var order []string
	freq := map[string]int{}
	for _, w := range ws {
		if freq[w] == 0 {
			order = append(order, w)
		}
		freq[w]++
	}
	return order, freq
}

func checkDic(d *dictionary.Dictionary, ws []string) error {
	order, freq := firstAppearance(ws)
	if d.Len() != len(order) {
		return bad("dictionary has %d words, the corpus %d", d.Len(), len(order))
	}
	for i, w := range order {
		if got, ok := d.Word(i); !ok || got != w {
			return bad("dictionary word %d is %q, want %q", i, got, w)
		}
		if got := d.WordFreq(w); got != freq[w] {
			return bad("dictionary frequency of %q is %d, want %d", w, got, freq[w])
		}
	}
	return nil
}

// ---- C09 ----------------------------------------------------------------

type coocCase struct {
	Text   B
	Chunk  chunking
	Window int
	Count  string
	Lower  bool

	// Frequency limits of the document; they do not touch the counts.
	Max, Min int
}

func genC09(t *rapid.T) any {
	c := &coocCase{Max: -1, Text: genText(t, 0, 60), Chunk: genChunking(t),
		Window: pick(t, "win", 0, 1, 2, 3, 4, 5, 7, 10, 30), Count: pick(t, "count", "inc", "prox"), Lower: boolean(t, "lower")}
	if chance(t, 3, "limits") {
		c.Max, c.Min = pick(t, "max", -1, 0, 1, 2, 5), intIn(t, 0, 4, "min")
	}
	return c
}

type pairKey struct{ a, b string }

func mkPair(a, b string) pairKey {
	if a > b {
		a, b = b, a
	}
	return pairKey{a, b}
}

func refCooc(ws []string, window int, count string) map[pairKey]float64 {
	m := map[pairKey]float64{}
	for i := range ws {
		for j := i + 1; j < len(ws) && j-i <= window; j++ {
			v := 1.
			if count == "prox" {
				v = 1 / float64(j-i)
			}
			m[mkPair(ws[i], ws[j])] += v
		}
	}
	return m
}

func judgeC09(x any, o *Obs) error {
	c := x.(*coocCase)
	ws := tokens(string(c.Text), c.Lower)
	want := refCooc(ws, c.Window, c.Count)
	o.Nontrivial = len(want) >= 2
	o.ClassIf(c.Window >= 3 && len(ws) > c.Window, "window>=3")
	o.ClassIf(c.Window == 0, "window 0")
	o.ClassIf(len(ws) <= c.Window, "document within one window")
	o.ClassIf(len(ws) == 0, "empty document")
	o.Class("%s", c.Count)
	equal := false
	for p := range want {
		equal = equal || p.a == p.b
	}
	o.ClassIf(equal, "word co-occurring with itself")
	for _, mem := range []bool{false, true} {
		cp := newCorpus(mem, c.Chunk.reader(string(c.Text)), c.Lower, c.Max, c.Min)
		mode := map[bool]string{false: "re-read document", true: "in-memory document"}[mem]
		if err := cp.Load(&corpus.WithCooccurrence{CountType: c.Count, Window: c.Window}, verbose.New(false), 100); err != nil {
			return bad("%s: loading failed: %v", mode, err)
		}
		d := cp.Dictionary()
		if err := checkDic(d, ws); err != nil {
			return bad("%s: %v", mode, err)
		}
		em := cp.Cooccurrence().EncodedMatrix()
		got := map[pairKey]float64{}
		for e, v := range em {
			a, b := encode.DecodeBigram(e)
			wa, oka := d.Word(int(a))
			wb, okb := d.Word(int(b))
			if !oka || !okb {
				return bad("%s: counted pair of unknown ids %d, %d", mode, a, b)
			}
			got[mkPair(wa, wb)] += v
		}
		if len(em) != len(got) {
			return bad("%s: some pair is counted under two codes", mode)
		}
		for p, v := range want {
			g, ok := got[p]
			if !ok {
				return bad("%s: pair %q is missing, want count %v", mode, p, v)
			}
			if !near(g, v, 1e-9*math.Max(1, v)) {
				return bad("%s: pair %q has count %v, want %v (%s, window %d)", mode, p, g, v, c.Count, c.Window)
			}
		}
		for p, v := range got {
			if _, ok := want[p]; !ok {
				return bad("%s: pair %q counted (%v) although it never occurs within the window", mode, p, v)
			}
		}
	}
	// the forward-context reader itself
	raw := refFields(string(c.Text))
	wantSeq := map[[2]string]int{}
	for i := range raw {
		for j := i + 1; j < len(raw) && j-i <= c.Window; j++ {
			wantSeq[[2]string{raw[i], raw[j]}]++
		}
	}
	gotSeq := map[[2]string]int{}
	if err := cpsutil.ReadWordWithForwardContext(c.Chunk.reader(string(c.Text)), c.Window, func(a, b string) error {
		gotSeq[[2]string{a, b}]++
		return nil
	}); err != nil {
		return bad("ReadWordWithForwardContext failed: %v", err)
	}
	if !reflect.DeepEqual(gotSeq, wantSeq) {
		return bad("ReadWordWithForwardContext with window %d gives the pairs %v, want %v", c.Window, gotSeq, wantSeq)
	}
	return nil
}

// ---- C10 ----------------------------------------------------------------

type docCase struct {
	Text     B
	Pad      int // extra copies of Text, to cross the scanner's buffers
	Chunk    chunking
	Lower    bool
	Max, Min int
	Batches  []int
	Cooc     bool
}

func genC10(t *rapid.T) any {
	c := &docCase{Text: genText(t, 0, 60), Chunk: genChunking(t), Lower: boolean(t, "lower"),
		Max: pick(t, "max", -1, -1, 0, 1, 2, 3, 5, 10), Min: pick(t, "min", 0, 0, 1, 2, 3, 5, -1), Cooc: chance(t, 4, "cooc")}
	if chance(t, 12, "pad") {
		c.Pad = uniform(t, 1, 400, "npad")
	}
	if chance(t, 60, "hugeword") {
		c.Text = B(string(c.Text) + strings.Repeat(string(rune('a'+intIn(t, 0, 25, "hc"))), uniform(t, 3000, 60000, "hn")))
		c.Pad = 0
		c.Chunk.Sizes = nil // tiny reads of a huge word take the scanner quadratic time
	}
	for i, n := 0, intIn(t, 1, 3, "nbatch"); i < n; i++ {
		c.Batches = append(c.Batches, pick(t, "batch", 1, 2, 3, 4, 7, 10, 50, 1000, 10000, 1<<40, math.MaxInt))
	}
	return c
}

// drain runs BatchWords and keeps every batch until the end.
func drain(cp corpus.Corpus, size, buffer int) ([][]int, error) {
	ch := make(chan []int, buffer)
	errc := make(chan error, 1)
	go func() { errc <- cp.BatchWords(ch, size) }()
	var got [][]int
	for b := range ch {
		got = append(got, b)
	}
	return got, <-errc
}

func judgeC10(x any, o *Obs) error {
	c := x.(*docCase)
	text := string(c.Text)
	if c.Pad > 0 {
		text = strings.Repeat(text+" ", c.Pad)
	}
	ws := tokens(text, c.Lower)
	order, freq := firstAppearance(ws)
	ids := map[string]int{}
	for i, w := range order {
		ids[w] = i
	}
	var want []int
	for _, w := range ws {
		if c.Max > 0 && freq[w] > c.Max || freq[w] < c.Min {
			continue
		}
		want = append(want, ids[w])
	}
	o.Nontrivial = len(order) >= 2 && len(ws) >= 3
	o.ClassIf(len(want) > 0 && len(want) < len(ws), "partly filtered")
	o.ClassIf(len(want) == 0 && len(ws) > 0, "all filtered")
	o.ClassIf(len(text) > 4096, "over 4 KiB")
	o.ClassIf(len(text) > 65536, "over 64 KiB")
	o.ClassIf(len(ws) == 0, "empty document")
	var with *corpus.WithCooccurrence
	if c.Cooc {
		with = &corpus.WithCooccurrence{CountType: "inc", Window: 2}
	}
	for _, mem := range []bool{true, false} {
		mode := map[bool]string{false: "re-read document", true: "in-memory document"}[mem]
		cp := newCorpus(mem, c.Chunk.reader(text), c.Lower, c.Max, c.Min)
		if err := cp.Load(with, verbose.New(false), 100); err != nil {
			return bad("%s: loading failed: %v", mode, err)
		}
		if err := checkDic(cp.Dictionary(), ws); err != nil {
			return bad("%s: %v", mode, err)
		}
		if cp.Len() != len(ws) {
			return bad("%s: Len() = %d, want %d", mode, cp.Len(), len(ws))
		}
		if mem {
			for r := 0; r < 2; r++ {
				if got := cp.IndexedDoc(); !sameInts(got, want) {
					return bad("%s: IndexedDoc() = %v, want %v", mode, clipInts(got), clipInts(want))
				}
			}
			continue
		}
		for n, size := range c.Batches {
			got, err := drain(cp, size, n)
			if err != nil {
				return bad("BatchWords(%d) failed: %v", size, err)
			}
			var all []int
			for i, b := range got {
				if len(b) != size && i < len(got)-1 {
					return bad("BatchWords(%d): batch %d of %d has %d words", size, i, len(got), len(b))
				}
				if len(b) > size {
					return bad("BatchWords(%d): batch %d has %d words", size, i, len(b))
				}
				all = append(all, b...)
			}
			if !sameInts(all, want) {
				return bad("BatchWords(%d), request %d: delivered %v, want %v", size, n, clipInts(all), clipInts(want))
			}
			for i, b := range got { // separate buffers
				for j := range b {
					b[j] = -1 - i
				}
			}
			for i, b := range got {
				for j := range b {
					if b[j] != -1-i {
						return bad("BatchWords(%d): batches share a buffer", size)
					}
				}
			}
		}
	}
	return nil
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func clipInts(v []int) string {
	if len(v) > 40 {
		return fmt.Sprintf("%v… (%d)", v[:40], len(v))
	}
	return fmt.Sprint(v)
}

// ---- C11 ----------------------------------------------------------------

// faultDoc counts the calls it serves and fails the chosen one.
type faultDoc struct {
	r       *chunkReader
	calls   int
	failAt  int // index of the call that fails, -1 none
	last    int // all calls up to this index fail as well
	partial bool
	bytes   int
	err     error
	failed  bool
	reads   int
	seeks   int
}

func (f *faultDoc) hit() bool {
	i := f.calls
	f.calls++
	if f.failAt >= 0 && i >= f.failAt && i <= f.last {
		f.failed = true
		return true
	}
	return false
}

func (f *faultDoc) Read(p []byte) (int, error) {
	f.reads++
	if f.hit() {
		if f.partial && len(p) > 0 {
			n, _ := f.r.Read(p[:min(len(p), max(1, f.bytes))])
			return n, f.err
		}
		return 0, f.err
	}
	return f.r.Read(p)
}

func (f *faultDoc) Seek(off int64, whence int) (int64, error) {
	f.seeks++
	if f.hit() {
		return 0, f.err
	}
	return f.r.Seek(off, whence)
}

type faultCase struct {
	Text    B
	Sizes   []int
	Partial bool
	Persist bool
	Err     int
	What    string // load, load+cooc, batch, train
	Cfg     modelCfg
	LongAt  int // for the over-long word part: number of words before it
	LongLen int
	Bytes   int // delivered with the failure, if Partial
	Doc     *wideDoc
	Calls   []int // out of 1000: the calls that fail; nil: each in turn
}

func genFaultCfg(t *rapid.T) modelCfg {
	c := modelCfg{Model: pick(t, "model", "word2vec", "glove", "lexvec"), Dim: 2, Iter: intIn(t, 1, 3, "iter"), Window: intIn(t, 1, 3, "window"),
		Goroutines: intIn(t, 1, 4, "gor"), Batch: pick(t, "batch", 1, 3, 10, 1000), InMemory: boolean(t, "mem"), ToLower: boolean(t, "low"), Neg: 1, Xmax: 10, Alpha: 0.75, Smooth: 0.75}
	c.Kind, c.Opt = pick(t, "kind", "cbow", "skipgram"), pick(t, "opt", "ns", "hs")
	c.Min = pick(t, "min", 0, 0, 2)
	if chance(t, 4, "thr") {
		c.Threshold = 100
	}
	return c
}

func genC11(t *rapid.T) any {
	c := &faultCase{Partial: boolean(t, "partial"), Persist: boolean(t, "persist"), Err: genErr(t)}
	c.What = pick(t, "what", "load", "load+cooc", "batch", "train", "train", "train")
	c.Cfg = genFaultCfg(t)
	n := intIn(t, 0, 25, "ntok")
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, pick(t, "w", "a", "b", "c", "Dd", "eee"))
	}
	c.Text = B(strings.Join(ws, " "))
	c.Sizes = []int{intIn(t, 4, 30, "size")}
	c.Bytes = pick(t, "bytes", 1, 1, 2, 5, 1000)
	if chance(t, 8, "cut") { // letters and white space of several bytes, cut anywhere
		ws = nil
		for i, n := 0, intIn(t, 1, 8, "ncut"); i < n; i++ {
			ws = append(ws, pick(t, "piece", "\u2003", "\u3000", "\u00a0", "\u0085", "é", "日"))
		}
		if boolean(t, "spaces only") {
			ws = strings.Split(strings.NewReplacer("é", "\u2003", "日", "\u3000").Replace(strings.Join(ws, " ")), " ")
		}
		c.Text, c.Sizes = B(strings.Join(ws, "")), []int{intIn(t, 1, 5, "cut size")}
	}
	return c
}

func genC11Long(t *rapid.T) any {
	c := &faultCase{}
	c.What = pick(t, "what", "load", "load+cooc", "train", "train")
	c.Cfg = genFaultCfg(t)
	c.LongAt = intIn(t, 0, 12, "at")
	c.LongLen = uniform(t, 55000, 140000, "len")
	if chance(t, 4, "huge") {
		c.LongLen = pick(t, "hugelen", 1<<18, 1<<20, 1<<22, 1<<24) + uniform(t, -2, 70000, "off")
	}
	n := c.LongAt + intIn(t, 0, 6, "after")
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, pick(t, "w", "a", "b", "c", "d"))
	}
	c.Text = B(strings.Join(ws, " "))
	return c
}

// runFault performs the operation; done tells whether it returned.
func runFault(c *faultCase, doc *faultDoc) (err error, cp corpus.Corpus) {
	switch c.What {
	case "load", "load+cooc":
		var with *corpus.WithCooccurrence
		if c.What == "load+cooc" {
			with = &corpus.WithCooccurrence{CountType: "inc", Window: c.Cfg.Window}
		}
		cp := newCorpus(c.Cfg.InMemory, doc, c.Cfg.ToLower, -1, 0)
		return cp.Load(with, verbose.New(false), 100), cp
	case "batch":
		cp := fs.New(doc, c.Cfg.ToLower, -1, c.Cfg.Min)
		if err := cp.Load(nil, verbose.New(false), 100); err != nil {
			return err, cp
		}
		// the consumer stops when the channel is closed or BatchWords is back
		ch := make(chan []int)
		errc := make(chan error, 1)
		go func() { errc <- cp.BatchWords(ch, c.Cfg.Batch) }()
		for ch != nil {
			select {
			case _, ok := <-ch:
				if !ok {
					ch = nil
				}
			case err := <-errc:
				return err, cp
			}
		}
		return <-errc, cp
	default:
		m, err := newModel(&c.Cfg)
		if err != nil {
			return err, nil
		}
		return m.Train(doc), nil
	}
}

func judgeC11(x any, o *Obs) error {
	c := x.(*faultCase)
	if c.Doc != nil {
		full := *c
		c, full.Text = &full, c.Doc.text(c.Doc.rng())
	}
	mk := func() *faultDoc {
		return &faultDoc{r: &chunkReader{data: []byte(c.Text), sizes: c.Sizes, failAt: -1}, failAt: -1, partial: c.Partial, bytes: c.Bytes, err: readErr(c.Err)}
	}
	dry := mk()
	if err, _ := runFault(c, dry); err != nil {
		return bad("%s without faults failed: %v", c.What, err)
	}
	if dry.calls == 0 {
		return bad("%s did not read the document", c.What)
	}
	o.Class("%s", c.What)
	if c.What == "train" {
		o.Class("train %s mem=%v", c.Cfg.Model, c.Cfg.InMemory)
	}
	o.Nontrivial = dry.calls >= 3
	which := make([]int, 0, dry.calls)
	for i := 0; i < dry.calls; i++ {
		which = append(which, i)
	}
	if c.Calls != nil {
		which = which[:0]
		for _, p := range c.Calls {
			which = append(which, (dry.calls-1)*p/1000)
		}
	}
	for _, i := range which {
		doc := mk()
		doc.failAt, doc.last = i, i
		if c.Persist {
			doc.last = math.MaxInt
		}
		err, _ := runFault(c, doc)
		if !doc.failed {
			continue // the operation made fewer calls this time
		}
		o.Class("fault points")
		if err == nil {
			return bad("%s: call %d of %d on the document failed (%v, persistent=%v), but no error was reported", c.What, i, dry.calls, doc.err, c.Persist)
		}
	}
	return nil
}

func judgeC11Long(x any, o *Obs) error {
	c := x.(*faultCase)
	ws := refFields(string(c.Text))
	ws = append(ws[:c.LongAt:c.LongAt], append([]string{strings.Repeat("L", c.LongLen)}, ws[c.LongAt:]...)...)
	doc := &faultDoc{r: &chunkReader{data: []byte(strings.Join(ws, " ")), failAt: -1}, failAt: -1}
	o.Nontrivial = true
	o.ClassIf(c.LongLen >= 65536, "over-long word")
	o.Class("%s", c.What)
	err, cp := runFault(c, doc)
	if err != nil {
		if c.LongLen < 60500 {
			return bad("%s: a corpus with a word of %d bytes is refused: %v", c.What, c.LongLen, err)
		}
		return nil // refused: reported, fine
	}
	// accepted: then it must have been read completely
	if cp != nil {
		low := ws
		if c.Cfg.ToLower {
			low = tokens(strings.Join(ws, " "), true)
		}
		if e := checkDic(cp.Dictionary(), low); e != nil {
			return bad("%s returned nil for a corpus with a word of %d bytes, but did not read all of it: %v", c.What, c.LongLen, e)
		}
		if cp.Len() != len(ws) {
			return bad("%s returned nil, but read %d of %d words", c.What, cp.Len(), len(ws))
		}
		return nil
	}
	return nil
}

// judgeC11Train: training on a corpus with an over-long word either fails or
// covers every word of it.
func judgeC11LongAll(x any, o *Obs) error {
	c := x.(*faultCase)
	if c.What != "train" {
		return judgeC11Long(x, o)
	}
	ws := refFields(string(c.Text))
	ws = append(ws[:c.LongAt:c.LongAt], append([]string{strings.Repeat("L", c.LongLen)}, ws[c.LongAt:]...)...)
	m, err := newModel(&c.Cfg)
	if err != nil {
		return trouble("%v", err)
	}
	o.Nontrivial = true
	o.ClassIf(c.LongLen >= 65536, "over-long word")
	o.Class("train %s mem=%v", c.Cfg.Model, c.Cfg.InMemory)
	if err := m.Train(strings.NewReader(strings.Join(ws, " "))); err != nil {
		return nil
	}
	low := ws
	if c.Cfg.ToLower {
		low = tokens(strings.Join(ws, " "), true)
	}
	order, _ := firstAppearance(low)
	if got := m.WordVector("single").Row(); got != len(order) {
		return bad("training returned nil for a corpus with a word of %d bytes, but covers %d of %d words", c.LongLen, got, len(order))
	}
	return nil
}

var _ = errors.New

func init() {
	register(&Prop{ID: "C09",
		Rule:  "texts of 0..60 tokens over pools of 1..12 (case variants, odd separators and bytes), windows 0..30, both count types, lower-casing, any chunking; both loaders and the context reader compared with a direct count; non-trivial: at least two distinct pairs",
		Parts: []Part{{Name: "count", Quick: 16000, Thorough: 500000, New: func() any { return &coocCase{} }, Gen: genC09, Judge: judgeC09}}})
	register(&Prop{ID: "C10",
		Rule:  "texts as for C09 (also repeated to cross the scanner's buffers, and with words up to 60 KB), frequency limits, lower-casing, chunking, 1..3 batch requests; non-trivial: at least two distinct words and three tokens",
		Parts: []Part{{Name: "doc", Quick: 16000, Thorough: 500000, New: func() any { return &docCase{} }, Gen: genC10, Judge: judgeC10}}})
	register(&Prop{ID: "C11", Level: "fault_enumeration",
		Rule: "for each generated corpus and operation (load, load with co-occurrence, batches, training of each model in each mode) every read and seek call in turn is made to fail, once or from then on, with or without a byte delivered; plus corpora with words of 60..200 KB; non-trivial: at least three calls",
		Parts: []Part{{Name: "faults", Isolated: true, Quick: 1200, Thorough: 30000, New: func() any { return &faultCase{} }, Gen: genC11, Judge: judgeC11},
			{Name: "longword", Isolated: true, Quick: 200, Thorough: 4000, New: func() any { return &faultCase{} }, Gen: genC11Long, Judge: judgeC11LongAll}}})
}
