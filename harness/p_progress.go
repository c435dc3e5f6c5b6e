package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/model/modelutil/vector"
)

// ---- C39 ----------------------------------------------------------------

// A training and two saves with progress messages, which are read from the
// standard output of the process.
type progressCase struct {
	Cfg  modelCfg
	Text B
	Seed int64
	Room int // bytes the destination of the first save takes; <0: all

	Doc *wideDoc `json:",omitempty"` // instead of Text
}

// Long documents.
func genC39Wide(t *rapid.T) any {
	c := genC39(t).(*progressCase)
	d := genWideDoc(t, 40000, 4000)
	if chance(t, 15, "many words") {
		d = genManyWords(t)
	}
	c.Text, c.Doc = "", &d
	g := &c.Cfg
	g.Dim, g.Iter, g.Window, g.Neg = intIn(t, 1, 4, "dim2"), intIn(t, 0, 3, "iter2"), intIn(t, 1, 4, "win2"), min(g.Neg, 2)
	g.LR, g.MinLR = min(g.LR, 0.01), 0
	if d.Vocab > 20000 {
		g.Iter, g.Window = min(g.Iter, 1), min(g.Window, 2)
	}
	g.Batch = pick(t, "batch2", 10, 1000, 10000, 100000)
	g.LogBatch = max(pick(t, "log2", 1, 10, 100, 1000, 10000, 100000, d.N, max(1, d.N-1), uniform(t, 1, d.N, "anylog")), d.N/1000)
	return c
}

func judgeC39Wide(x any, o *Obs) error {
	c := *x.(*progressCase)
	c.Text = c.Doc.text(c.Doc.rng())
	tame(&c.Cfg, c.Text)
	return judgeC39(&c, o)
}

func genC39(t *rapid.T) any {
	c := &progressCase{Cfg: genCfg(t), Seed: int64(uniform(t, 1, 1<<20, "seed")), Room: -1}
	c.Text = genText(t, 0, 60)
	tame(&c.Cfg, c.Text)
	c.Cfg.Verbose = !chance(t, 6, "quiet")
	c.Cfg.LogBatch = pick(t, "log", 1, 1, 2, 3, 5, 7, 10, 100, 100000, 1<<62)
	if chance(t, 5, "full") {
		c.Room = uniform(t, 0, 200, "room")
	}
	return c
}

// smallWriter takes some bytes and then fails.
type smallWriter struct {
	room int
	buf  bytes.Buffer
}

func (w *smallWriter) Write(p []byte) (int, error) {
	if w.room >= 0 && w.buf.Len()+len(p) > w.room {
		n := w.room - w.buf.Len()
		w.buf.Write(p[:n])
		return n, errInjected
	}
	return w.buf.Write(p)
}

// message is one progress message.
type message struct {
	stage string // "read words", ...
	n     int
	final bool
	took  time.Duration
}

var messageRE = regexp.MustCompile(`^(read|build|trained|saved) (\d+) (words|tuples|items) (\S+)(\r\n|\r)`)

func parseMessages(s string) ([]message, error) {
	var ms []message
	for rest := s; rest != ""; {
		f := messageRE.FindStringSubmatch(rest)
		if f == nil {
			return nil, bad("progress messages end in something else: %q", clip(rest))
		}
		n, err := strconv.Atoi(f[2])
		if err != nil {
			return nil, bad("progress message with the count %q", f[2])
		}
		d, err := time.ParseDuration(f[4])
		if err != nil || d < 0 {
			return nil, bad("progress message with the duration %q", f[4])
		}
		ms = append(ms, message{f[1] + " " + f[3], n, f[5] == "\r\n", d})
		rest = rest[len(f[0]):]
	}
	return ms, nil
}

// capture collects what is printed to the standard output.
type capture struct {
	mu  sync.Mutex
	buf bytes.Buffer
	w   *os.File
	old *os.File
	end chan struct{}
}

func newCapture() (*capture, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return nil, trouble("%v", err)
	}
	c := &capture{w: w, old: os.Stdout, end: make(chan struct{})}
	os.Stdout = w
	go func() {
		defer close(c.end)
		p := make([]byte, 1<<16)
		for {
			n, err := r.Read(p)
			c.mu.Lock()
			c.buf.Write(p[:n])
			c.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	return c, nil
}

func (c *capture) text() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.buf.String()
}

func (c *capture) stop() string {
	os.Stdout = c.old
	c.w.Close()
	<-c.end
	return c.text()
}

// stageCount is what the messages of a stage must say.
type stageCount struct {
	totals []int // of every time the stage runs
	loose  bool  // a message may say how many came before or are done
}

func judgeC39(x any, o *Obs) error {
	c := x.(*progressCase)
	g := &c.Cfg
	ws := tokens(string(c.Text), g.ToLower)
	order, freq := firstAppearance(ws)
	kept := 0
	within := func(w string) bool { return freq[w] >= g.Min && (g.Max <= 0 || freq[w] <= g.Max) }
	for _, w := range ws {
		if within(w) {
			kept++
		}
	}
	tuples, items := 0, 0
	for i := range ws {
		tuples += min(g.Window, len(ws)-1-i)
	}
	for p := range refCooc(ws, g.Window, "inc") {
		if g.Model != "glove" || within(p.a) && within(p.b) {
			items++
		}
	}
	want := map[string]*stageCount{"read words": {totals: []int{len(ws)}}, "saved words": {totals: []int{len(order), len(order)}, loose: true}}
	trained := "trained words"
	pass := kept
	if g.Model != "word2vec" {
		want["read tuples"] = &stageCount{totals: []int{tuples}}
		want["build items"] = &stageCount{totals: []int{items}}
	}
	if g.Model == "glove" {
		trained, pass = "trained items", items
	}
	want[trained] = &stageCount{}
	for i := 0; i < g.Iter; i++ {
		want[trained].totals = append(want[trained].totals, pass)
	}
	m, err := newModel(g)
	if err != nil {
		return bad("the model is refused: %v", err)
	}
	out, err := newCapture()
	if err != nil {
		return err
	}
	start := time.Now()
	seedRand(c.Seed)
	if err := m.Train(strings.NewReader(string(c.Text))); err != nil {
		out.stop()
		return bad("training failed: %v", err)
	}
	w := &smallWriter{room: c.Room}
	failed := m.Save(w, vector.Single) != nil
	if err := m.Save(io.Discard, vector.Agg); err != nil {
		out.stop()
		return bad("saving failed: %v", err)
	}
	if failed {
		want["saved words"].totals = want["saved words"].totals[1:]
	}
	finals := 0
	for _, s := range want {
		finals += len(s.totals)
	}
	if !g.Verbose {
		finals = 0
	}
	// The last message about the last pass is on its way when training ends.
	for i := 0; i < 600 && strings.Count(out.text(), "\r\n") < finals; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	all := time.Since(start)
	text := out.stop()
	if !g.Verbose {
		o.Class("quiet")
		if text != "" {
			return bad("%s without verbose mode prints %q", g.Model, clip(text))
		}
		return nil
	}
	o.Class("%s mem=%v", g.Model, g.InMemory)
	o.ClassIf(failed, "a save failed")
	o.Nontrivial = len(ws) > 1 && g.Iter > 0 && g.LogBatch <= len(ws)
	what := fmt.Sprintf("%s of %d words, %d distinct, log batch %d", g.Model, len(ws), len(order), g.LogBatch)
	ms, err := parseMessages(text)
	if err != nil {
		return bad("%s: %v", what, err)
	}
	by := map[string][]message{}
	for _, m := range ms {
		if m.took > all {
			return bad("%s: a message says %s took %v, all took %v", what, m.stage, m.took, all)
		}
		by[m.stage] = append(by[m.stage], m)
	}
	for stage := range by {
		if want[stage] == nil {
			return bad("%s: a message about %q", what, stage)
		}
	}
	for stage, s := range want {
		if err := s.judge(by[stage], g.LogBatch, stage == trained, failed && stage == "saved words"); err != nil {
			return bad("%s, %d passes: messages %q: %v", what, g.Iter, stage, err)
		}
	}
	return nil
}

// judge compares the messages of a stage with what was done. Those about the
// passes of a training come when they may; all others in order.
func (s *stageCount) judge(ms []message, batch int, mixed, failed bool) error {
	var finals []int
	count := map[int]int{} // of the messages on the way
	last, lastTook := -1, time.Duration(0)
	for _, m := range ms {
		if m.final {
			finals = append(finals, m.n)
		} else {
			if m.n%batch != 0 {
				return bad("one on the way says %d", m.n)
			}
			count[m.n]++
		}
		if !mixed {
			if !m.final && m.n <= last && !(failed && m.n == 0 || s.loose && m.n == 0 || failed) {
				return bad("one says %d after one that says %d", m.n, last)
			}
			if m.took < lastTook && last < m.n {
				return bad("one says %v after one that says %v", m.took, lastTook)
			}
			last, lastTook = m.n, m.took
			if m.final {
				last, lastTook = -1, 0
			}
		}
	}
	want := append([]int(nil), s.totals...)
	sort.Ints(want)
	sort.Ints(finals)
	if fmt.Sprint(finals) != fmt.Sprint(want) {
		return bad("the last ones say %v, there were %v", finals, want)
	}
	times := len(s.totals)
	if failed {
		return nil // how far an interrupted one got is not known
	}
	top := 0
	if times > 0 {
		top = want[times-1]
	}
	for n, k := range count {
		if n < 0 || n > top || n == 0 && !s.loose {
			return bad("one on the way says %d of %v", n, want)
		}
		if k > times {
			return bad("%d on the way say %d in %d runs", k, n, times)
		}
	}
	for n := batch; n > 0 && n <= top; n += batch {
		if n == top && s.loose {
			break
		}
		if count[n] != times {
			return bad("%d on the way say %d of %v", count[n], n, want)
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:    "C39",
		Rule:  "trainings and saves of any model in verbose mode (one in six without), with a log batch of 1 to 2^62 and destinations that run full; the messages on standard output are parsed and compared with counts of words, pairs, items and passes made from the document; non-trivial: a pass over two words with a log batch the document reaches",
		Assum: []string{"the messages about the passes of a training may come late and mixed"},
		Parts: []Part{
			{Name: "progress", Isolated: true, Quick: 2000, Thorough: 50000, New: func() any { return &progressCase{} }, Gen: genC39, Judge: judgeC39},
			{Name: "wide", Isolated: true, Quick: 120, Thorough: 4000, New: func() any { return &progressCase{} }, Gen: genC39Wide, Judge: judgeC39Wide}},
	})
}
