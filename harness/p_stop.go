package main

import (
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/model/modelutil/vector"
)

// ---- C36 ----------------------------------------------------------------

// A few trainings one after the other, some of which fail. When one returns,
// everything it started must come to an end.
type stopRun struct {
	Fail    int // out of 1000: the call on the document that fails; <0: none
	Persist bool
	Type    string // an unknown component, if not empty
}

type stopCase struct {
	Text  B
	Cfg   modelCfg
	Seed  int64
	Sizes []int
	Slow  int // microseconds a call on the document takes
	Runs  []stopRun
}

func genC36(t *rapid.T) any {
	c := &stopCase{Cfg: genCfg(t), Seed: int64(uniform(t, 1, 1<<20, "seed"))}
	c.Text = genText(t, 0, 60)
	if chance(t, 3, "more") { // several batches and reads
		c.Text = B(strings.Repeat(string(c.Text)+" ", uniform(t, 2, 30, "times")))
	}
	tame(&c.Cfg, c.Text)
	c.Cfg.Verbose = chance(t, 8, "verbose")
	c.Sizes = []int{pick(t, "size", 1<<16, 64, 16, 5)}
	c.Slow = pick(t, "slow", 0, 0, 50, 300)
	for i, n := 0, uniform(t, 1, 4, "runs"); i < n; i++ {
		r := stopRun{Fail: -1}
		switch uniform(t, 0, 4, "kind") {
		case 0, 1:
			r.Fail, r.Persist = uniform(t, 0, 999, "fail"), boolean(t, "persist")
		case 2:
			r.Type = pick(t, "type", "nosuch", "NS", "sg")
		}
		c.Runs = append(c.Runs, r)
	}
	return c
}

// slowDoc counts the calls made to a document.
type slowDoc struct {
	doc   *faultDoc
	calls atomic.Int64
	slow  time.Duration
}

func (d *slowDoc) pause() {
	if n := d.calls.Add(1); d.slow > 0 && n < 100 {
		time.Sleep(d.slow)
	}
}

func (d *slowDoc) Read(p []byte) (int, error) {
	d.pause()
	return d.doc.Read(p)
}

func (d *slowDoc) Seek(off int64, whence int) (int64, error) {
	d.pause()
	return d.doc.Seek(off, whence)
}

// settle waits until no more goroutines run than before, and reports how many
// are left if that does not happen. They need microseconds to end.
func settle(base int) int {
	for i := 0; i < 100; i++ {
		if runtime.NumGoroutine() <= base {
			return 0
		}
		runtime.Gosched()
	}
	for i := 0; i < 400; i++ {
		if runtime.NumGoroutine() <= base {
			return 0
		}
		time.Sleep(50 * time.Millisecond)
	}
	return runtime.NumGoroutine() - base
}

func judgeC36(x any, o *Obs) error {
	c := x.(*stopCase)
	base := runtime.NumGoroutine()
	mk := func(fail int, persist bool) *slowDoc {
		d := &faultDoc{r: &chunkReader{data: []byte(c.Text), sizes: c.Sizes, failAt: -1}, failAt: fail, last: fail, err: errInjected}
		if persist {
			d.last = 1 << 60
		}
		return &slowDoc{doc: d, slow: time.Duration(c.Slow) * time.Microsecond}
	}
	total := 0 // calls of a training without failures
	for _, r := range c.Runs {
		if r.Fail >= 0 && total == 0 {
			m, err := newModel(&c.Cfg)
			if err != nil {
				return trouble("%v", err)
			}
			d := mk(-1, false)
			if err := m.Train(d); err != nil {
				return bad("training failed: %v", err)
			}
			total = int(d.calls.Load())
		}
	}
	m, err := newModel(&c.Cfg)
	if err != nil {
		return trouble("%v", err)
	}
	for i, r := range c.Runs {
		cfg := c.Cfg
		model := m
		if r.Type != "" {
			switch cfg.Model {
			case "word2vec":
				if i%2 == 0 {
					cfg.Kind = r.Type
				} else {
					cfg.Opt = r.Type
				}
			case "glove":
				if i%2 == 0 {
					cfg.Solver = r.Type
				} else {
					cfg.Count = r.Type
				}
			case "lexvec":
				cfg.Rel = r.Type
			}
			if model, err = newModel(&cfg); err != nil {
				continue // refused earlier: nothing was started
			}
		}
		at := -1
		if r.Fail >= 0 {
			at = total * r.Fail / 1000
		}
		d := mk(at, r.Persist)
		seedRand(c.Seed)
		terr := model.Train(d)
		calls := d.calls.Load()
		var single, agg [][]float64
		if terr == nil {
			single, agg = rowsOf(model.WordVector(vector.Single)), rowsOf(model.WordVector(vector.Agg))
		}
		left := settle(base)
		o.Class("%s mem=%v: error %v", cfg.Model, cfg.InMemory, terr != nil)
		o.Nontrivial = o.Nontrivial || cfg.Iter > 0 && calls > 0 && (terr != nil || len(single) > 1)
		what := "training " + cfg.Model
		if left > 0 {
			buf := make([]byte, 1<<16)
			return bad("%s (run %d) returned %v, but %d goroutines it started are still there 20 s later:\n%s", what, i, terr, left, clip(string(buf[:runtime.Stack(buf, true)])))
		}
		if now := d.calls.Load(); now != calls {
			return bad("%s (run %d) returned %v, but made %d more calls on the document afterwards", what, i, terr, now-calls)
		}
		if terr == nil {
			if !sameRows(single, rowsOf(model.WordVector(vector.Single))) || !sameRows(agg, rowsOf(model.WordVector(vector.Agg))) {
				return bad("%s (run %d): the vectors changed after it had returned", what, i)
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:    "C36",
		Rule:  "one to four trainings of a model in one process, on documents that are read slowly, in small pieces, or fail at any call, with unknown components or not, 1..64 goroutines; goroutines, calls on the document and vectors are compared with those at the return; non-trivial: an iteration that fails or trains two words",
		Parts: []Part{{Name: "stop", Isolated: true, Quick: 2000, Thorough: 50000, New: func() any { return &stopCase{} }, Gen: genC36, Judge: judgeC36}},
	})
}
