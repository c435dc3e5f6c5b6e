package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
)

// ---- C34 ----------------------------------------------------------------

// A history over several model values in one process. What a model must
// answer is computed by a fresh model in a fresh process.
type histOp struct {
	M    int
	Kind string // train, fail (the corpus cannot be read), save
	Text B      `json:",omitempty"`
	Seed int64  `json:",omitempty"`
	Typ  string `json:",omitempty"`
	Same bool   `json:",omitempty"` // train on the reader of the previous training
}

type histCase struct {
	Cfgs []modelCfg
	Ops  []histOp
	Par  bool // train all models at the same time, once for every train
}

// genHistCfg draws a configuration whose result is determined by the seed:
// nothing is sampled, windows are not drawn, one goroutine.
func genHistCfg(t *rapid.T) modelCfg {
	g := genCfg(t)
	g.Goroutines, g.Batch, g.Neg, g.Window = 1, 10000, 0, 1
	g.Dim, g.Iter = intIn(t, 1, 8, "dim"), intIn(t, 0, 4, "iter")
	g.LR, g.MinLR = pick(t, "lr", F(0.3), F(0.1), F(0.05)), pick(t, "minlr", F(0), F(0.001))
	g.Threshold = pick(t, "thr", F(0), F(0), F(1))
	g.UpdateLR = pick(t, "updlr", 3, 5, 8, 13, 20, 100000)
	g.Verbose = false
	if chance(t, 4, "draws") { // judged by structure only
		g.Neg, g.Window, g.Goroutines = intIn(t, 0, 3, "neg"), intIn(t, 1, 5, "win"), pick(t, "gor", 1, 2, 4)
	}
	if g.Model == "lexvec" { // larger rates need not converge
		g.LR = pick(t, "lexlr", F(0.05), F(0.025))
	}
	if g.Model == "glove" {
		g.Min, g.Max, g.Window = 0, 4, 1
	}
	return g
}

// histText makes a document; for glove one whose pairs share no words, so
// that the order in which they are trained does not matter.
func histText(t *rapid.T, g *modelCfg) B {
	if g.Model != "glove" {
		var ws []string
		v := uniform(t, 1, 9, "v")
		p := pick(t, "prefix", "a", "b", "Q")
		for i, n := 0, uniform(t, 1, 40, "n"); i < n; i++ {
			ws = append(ws, fmt.Sprintf("%s%d", p, uniform(t, 0, v-1, "w")))
		}
		return joinWords(ws)
	}
	var ws []string
	p := pick(t, "prefix", "a", "b", "Q")
	for i, n := 0, intIn(t, 1, 6, "pairs"); i < n; i++ {
		for k := intIn(t, 1, 3, "times"); k > 0; k-- {
			ws = append(ws, fmt.Sprintf("%s%d", p, i), fmt.Sprintf("%sx%d", p, i))
			ws = append(ws, "z", "z", "z")
		}
	}
	return joinWords(append(ws, "z", "z")) // "z" is beyond the limit
}

func genC34(par bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		c := &histCase{Par: par}
		n := intIn(t, 1, 3, "models")
		if par {
			n = intIn(t, 2, 6, "models")
		}
		for i := 0; i < n; i++ {
			c.Cfgs = append(c.Cfgs, genHistCfg(t))
			if i > 0 && boolean(t, "same") {
				c.Cfgs[i] = c.Cfgs[i-1]
			}
		}
		for i, k := 0, uniform(t, 2, 9, "ops"); i < k; i++ {
			op := histOp{M: uniform(t, 0, n-1, "m"), Kind: pick(t, "op", "train", "train", "save", "fail")}
			g := &c.Cfgs[op.M]
			switch op.Kind {
			case "save":
				op.Typ = pick(t, "typ", vector.Single, vector.Agg)
			default:
				op.Text, op.Seed = histText(t, g), int64(uniform(t, 1, 1<<20, "seed"))
				op.Same = chance(t, 4, "samereader")
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}
}

type freshResult struct {
	Single, Agg []byte
	Err         string
}

func auxFresh(in []byte) any {
	c := &trainCase{}
	if err := json.Unmarshal(in, c); err != nil {
		return freshResult{Err: "harness: " + err.Error()}
	}
	m, err := trained(c.Cfg, string(c.Text), c.Seed)
	if err != nil {
		return freshResult{Err: err.Error()}
	}
	var r freshResult
	r.Single, r.Agg, err = savedBoth(m)
	if err != nil {
		r.Err = err.Error()
	}
	return r
}

func init() { auxFuncs["fresh"] = auxFresh }

func savedBoth(m model.Model) (single, agg []byte, err error) {
	var s, a bytes.Buffer
	if err = m.Save(&s, vector.Single); err == nil {
		err = m.Save(&a, vector.Agg)
	}
	return s.Bytes(), a.Bytes(), err
}

// determined says whether a fresh training's result follows from the seed,
// and whether the last update of the rate may still be under way when the
// training returns.
func determined(g *modelCfg, text string) (exact, late bool) {
	ws := tokens(text, g.ToLower)
	_, freq := firstAppearance(ws)
	n := 0
	for _, w := range ws {
		if freq[w] >= g.Min && (g.Max <= 0 || freq[w] <= g.Max) {
			n++
		}
	}
	if g.Neg > 0 && g.Opt != "hs" || g.Goroutines > 1 || g.Window > 1 {
		return false, false
	}
	if g.Model == "glove" {
		return true, false
	}
	u := g.UpdateLR
	return n < u || g.Iter == 0, g.Iter > 0 && n > 0 && n%u == 0
}

// judgeSaved checks the structure of a saved text: the words of the document
// in order, with vectors of the configured dimension.
func judgeSaved(g *modelCfg, text string, saved []byte) error {
	order, _ := firstAppearance(tokens(text, g.ToLower))
	embs, err := embedding.Load(bytes.NewReader(saved))
	if err != nil {
		return bad("the saved text does not load: %v", err)
	}
	if len(embs) != len(order) {
		return bad("%d vectors for the %d words of the last corpus", len(embs), len(order))
	}
	for i, e := range embs {
		if e.Word != order[i] || e.Dim != g.Dim {
			return bad("vector %d is for %q with dimension %d, want %q with %d", i, e.Word, e.Dim, order[i], g.Dim)
		}
	}
	return nil
}

func judgeC34(x any, o *Obs) error {
	c := x.(*histCase)
	n := len(c.Cfgs)
	ms := make([]model.Model, n)
	for i := range ms {
		m, err := newModel(&c.Cfgs[i])
		if err != nil {
			return trouble("%v", err)
		}
		ms[i] = m
	}
	type held struct {
		text        string
		single, agg []byte
		ok          bool
	}
	state := make([]held, n)
	trains := make([]int, n)
	late := make([]bool, n)
	take := func(i int, text string) error {
		s, a, err := savedBoth(ms[i])
		if err != nil {
			return bad("model %d (%s): saving failed: %v", i, c.Cfgs[i].Model, err)
		}
		state[i] = held{text, s, a, true}
		for _, saved := range [][]byte{s, a} {
			if err := judgeSaved(&c.Cfgs[i], text, saved); err != nil {
				return bad("model %d (%s), training %d: %v", i, c.Cfgs[i].Model, trains[i], err)
			}
		}
		return nil
	}
	check := func(when string) error {
		for i := range ms {
			if !state[i].ok {
				continue
			}
			s, a, err := savedBoth(ms[i])
			if err != nil {
				return bad("%s: model %d (%s): saving failed: %v", when, i, c.Cfgs[i].Model, err)
			}
			if !bytes.Equal(s, state[i].single) || !bytes.Equal(a, state[i].agg) {
				return bad("%s: the answers of model %d (%s), trained on %q, changed from %q to %q", when, i, c.Cfgs[i].Model, clip(state[i].text), clip(string(state[i].single)), clip(string(s)))
			}
		}
		return nil
	}
	cfgOf := func(i int, text B) modelCfg { // the step sizes stay stable
		g := c.Cfgs[i]
		tame(&g, text)
		return g
	}
	if c.Par {
		byModel := make([][]histOp, n)
		for _, op := range c.Ops {
			if op.Kind == "train" && len(byModel[op.M]) < 3 {
				byModel[op.M] = append(byModel[op.M], op)
			}
		}
		for round := 0; ; round++ {
			var wg sync.WaitGroup
			errs := make([]error, n)
			busy := 0
			for i := range ms {
				if round >= len(byModel[i]) || cfgOf(i, byModel[i][round].Text) != c.Cfgs[i] {
					continue
				}
				busy++
				state[i].ok = false
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					errs[i] = ms[i].Train(strings.NewReader(string(byModel[i][round].Text)))
				}(i)
			}
			if busy == 0 {
				return nil
			}
			wg.Wait()
			if busy > 1 {
				o.Nontrivial = true
			}
			for i := range ms {
				if errs[i] != nil {
					return bad("model %d (%s): training beside %d others failed: %v", i, c.Cfgs[i].Model, busy-1, errs[i])
				}
				if round < len(byModel[i]) && cfgOf(i, byModel[i][round].Text) == c.Cfgs[i] {
					trains[i]++
					if err := take(i, string(byModel[i][round].Text)); err != nil {
						return err
					}
				}
			}
			if err := check("after training at the same time"); err != nil {
				return err
			}
		}
	}
	var reader *strings.Reader
	var readerText B
	var readerFor string // a glove model is compared on documents made for one only
	for k, op := range c.Ops {
		i := op.M
		again := op.Kind == "train" && op.Same && reader != nil && (c.Cfgs[i].Model != "glove" || readerFor == "glove")
		if again {
			op.Text = readerText
		}
		g := &c.Cfgs[i]
		text := string(op.Text)
		switch op.Kind {
		case "save":
			if state[i].ok {
				var b bytes.Buffer
				if err := ms[i].Save(&b, op.Typ); err != nil {
					return bad("operation %d: saving failed: %v", k, err)
				}
			}
		case "fail":
			// what a model answers after a training that failed is left open
			state[i].ok = false
			r := &faultySeeker{text: text, fail: len(text) / 2}
			if err := ms[i].Train(r); err == nil {
				return bad("operation %d: training on a corpus that cannot be read succeeded", k)
			}
			o.Class("failed training")
		default:
			if cfgOf(i, op.Text) != *g {
				continue
			}
			if !again {
				readerFor, reader, readerText = g.Model, strings.NewReader(text), op.Text
			}
			seedRand(op.Seed)
			if err := ms[i].Train(reader); err != nil {
				return bad("operation %d: training %d of a %s model failed: %v", k, trains[i]+1, g.Model, err)
			}
			trains[i]++
			o.ClassIf(trains[i] > 1, "trained again: "+g.Model)
			if trains[i] > 1 || k > 0 {
				o.Nontrivial = true
			}
			if err := take(i, text); err != nil {
				return err
			}
			exact, l := determined(g, text)
			if exact && !late[i] {
				var f freshResult
				if err := runAux("fresh", &trainCase{Text: op.Text, Cfg: *g, Seed: op.Seed}, &f); err != nil {
					return err
				}
				if f.Err != "" {
					return bad("a fresh model fails on %q: %s", clip(text), f.Err)
				}
				o.Class("compared with a fresh model")
				if !bytes.Equal(f.Single, state[i].single) || !bytes.Equal(f.Agg, state[i].agg) {
					return bad("operation %d: training %d of model %d (%s%s%s) on %q gives %q, a fresh model %q", k, trains[i], i, g.Model, g.Kind, g.Opt, clip(text), clip(string(state[i].agg)), clip(string(f.Agg)))
				}
			}
			late[i] = late[i] || l
		}
		if err := check(fmt.Sprintf("after operation %d (%s)", k, op.Kind)); err != nil {
			return err
		}
	}
	return nil
}

// Several trainings under way at the same time, each of which would give a
// determined result alone. A training is started when the ones before it have
// been made to wait for their documents, after they have drawn their initial
// vectors from their own random state; then all continue together.
type besideCase struct {
	Runs  []besideRun
	End   bool // the last one ends before the others continue
	Procs int  // processors used when all continue
}

type besideRun struct {
	Cfg   modelCfg
	Text  B
	Seed  int64
	Piece int // bytes a read delivers
	Wait  int // calls on the document after the initial ones until it waits
}

func genBeside(t *rapid.T) any {
	c := &besideCase{End: boolean(t, "end"), Procs: pick(t, "procs", 1, 4, 8)}
	n := intIn(t, 2, 5, "models")
	long := chance(t, 2, "long")
	for i := 0; i < n; i++ {
		var r besideRun
		if i > 0 && boolean(t, "same") {
			r.Cfg = c.Runs[i-1].Cfg
		} else {
			r.Cfg = genHistCfg(t)
			r.Cfg.Neg, r.Cfg.Window, r.Cfg.Goroutines, r.Cfg.Threshold = 0, 1, 1, 0
			r.Cfg.MinLR = r.Cfg.LR // or it depends on when it is lowered
			r.Cfg.Iter = max(1, r.Cfg.Iter)
			r.Cfg.Batch = pick(t, "batch", 10000, 1, 2, 5, 20)
			if r.Cfg.Model == "word2vec" {
				r.Cfg.Opt = pick(t, "opt", "hs", "hs", "ns")
			}
		}
		last := i == n-1 && c.End
		if r.Cfg.Model == "glove" && !last {
			r.Cfg.Model, r.Cfg.Min, r.Cfg.Max = "word2vec", 0, 0
			r.Cfg.Kind, r.Cfg.Opt = pick(t, "kind", "cbow", "skipgram"), "hs"
		}
		r.Cfg.InMemory = last && boolean(t, "mem")
		r.Text, r.Seed = histText(t, &r.Cfg), int64(uniform(t, 1, 1<<20, "seed"))
		if r.Cfg.Model != "glove" && long { // time to meet
			r.Text = B(strings.Repeat(string(r.Text)+" ", uniform(t, 10, 100, "times")))
		}
		tame(&r.Cfg, r.Text)
		r.Cfg.MinLR = r.Cfg.LR
		r.Piece = pick(t, "piece", 1<<16, 3, 10, 40)
		r.Wait = uniform(t, 0, 40, "wait")
		c.Runs = append(c.Runs, r)
	}
	return c
}

// waitDoc stops at one of the calls until it is let go.
type waitDoc struct {
	r            *chunkReader
	calls, at    int
	waiting, go_ chan struct{}
}

func (d *waitDoc) call() {
	if d.calls == d.at {
		close(d.waiting)
		<-d.go_
	}
	d.calls++
}

func (d *waitDoc) Read(p []byte) (int, error) { d.call(); return d.r.Read(p) }

func (d *waitDoc) Seek(off int64, whence int) (int64, error) {
	d.call()
	return d.r.Seek(off, whence)
}

func judgeBeside(x any, o *Obs) error {
	c := x.(*besideCase)
	n := len(c.Runs)
	want := make([]freshResult, n)
	initial := make([]int, n)
	for i := range c.Runs {
		r := &c.Runs[i]
		if err := runAux("fresh", &trainCase{Text: r.Text, Cfg: r.Cfg, Seed: r.Seed}, &want[i]); err != nil {
			return err
		}
		if want[i].Err != "" {
			return bad("model %d (%s) alone on %q fails: %s", i, r.Cfg.Model, clip(string(r.Text)), want[i].Err)
		}
		g := r.Cfg
		g.Iter = 0
		m, err := newModel(&g)
		if err != nil {
			return trouble("%v", err)
		}
		d := &waitDoc{r: &chunkReader{data: []byte(r.Text), sizes: []int{r.Piece}, failAt: -1}, at: -1}
		if err := m.Train(d); err != nil {
			return bad("training failed: %v", err)
		}
		initial[i] = d.calls
	}
	ms := make([]model.Model, n)
	docs := make([]*waitDoc, n)
	done := make([]chan error, n)
	waited := 0
	for i := range c.Runs {
		r := &c.Runs[i]
		m, err := newModel(&r.Cfg)
		if err != nil {
			return trouble("%v", err)
		}
		d := &waitDoc{r: &chunkReader{data: []byte(r.Text), sizes: []int{r.Piece}, failAt: -1}, at: -1,
			waiting: make(chan struct{}), go_: make(chan struct{})}
		if i < n-1 || !c.End {
			d.at = initial[i] + 1 + r.Wait%((r.Cfg.Iter+1)*max(1, min(8, len(r.Text)/r.Piece)))
		}
		ms[i], docs[i], done[i] = m, d, make(chan error, 1)
		// the others train what they have read; on one processor, they all wait
		// when this goroutine has let them run often enough
		for k := 0; k < 2000; k++ {
			runtime.Gosched()
		}
		seedRand(r.Seed)
		go func() { done[i] <- m.Train(d) }()
		select {
		case <-d.waiting:
			waited++
		case err := <-done[i]: // it read less than expected
			done[i] <- err
		}
	}
	if c.Procs > 1 {
		runtime.GOMAXPROCS(c.Procs)
	}
	for _, d := range docs {
		close(d.go_)
	}
	for i := range c.Runs {
		r := &c.Runs[i]
		if err := <-done[i]; err != nil {
			return bad("model %d (%s): training beside %d others failed: %v", i, r.Cfg.Model, n-1, err)
		}
	}
	for i := range c.Runs {
		r := &c.Runs[i]
		s, a, err := savedBoth(ms[i])
		if err != nil {
			return bad("model %d (%s): saving failed: %v", i, r.Cfg.Model, err)
		}
		if !bytes.Equal(s, want[i].Single) || !bytes.Equal(a, want[i].Agg) {
			return bad("model %d of %d (%s%s%s), trained on %q beside the others, is %q, alone %q", i, n, r.Cfg.Model, r.Cfg.Kind, r.Cfg.Opt, clip(string(r.Text)), clip(string(a)), clip(string(want[i].Agg)))
		}
		o.Class(r.Cfg.Model + r.Cfg.Kind + r.Cfg.Opt)
	}
	o.ClassIf(waited > 1, "several waiting")
	o.Nontrivial = waited > 0
	return nil
}

// faultySeeker fails when it is read beyond a position.
type faultySeeker struct {
	text string
	at   int64
	fail int
}

func (r *faultySeeker) Read(p []byte) (int, error) {
	if int(r.at) >= r.fail {
		return 0, fmt.Errorf("injected failure")
	}
	n := copy(p, r.text[r.at:r.fail])
	r.at += int64(n)
	return n, nil
}

func (r *faultySeeker) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += r.at
	case 2:
		off += int64(len(r.text))
	}
	r.at = off
	return off, nil
}

func init() {
	register(&Prop{
		ID:    "C34",
		Rule:  "histories of 2-9 trainings (on different corpora, some unreadable) and saves over 1-3 model values of any kind; each result is compared with a fresh model in a fresh process where the configuration leaves nothing to chance, else with the words of its corpus, and every other model's answers with what they were before; part 'together': 2-6 models trained at the same time; part 'beside': 2-5 trainings that are made to wait for their documents in the middle while the next ones begin, then continue together, each compared byte by byte with the same training alone in a fresh process; non-trivial: a training that is not the process's first, or two at the same time",
		Assum: []string{"what a model answers after a failed training is left open"},
		Parts: []Part{
			{Name: "history", Isolated: true, Quick: 1500, Thorough: 40000, New: func() any { return &histCase{} }, Gen: genC34(false), Judge: judgeC34},
			{Name: "together", Isolated: true, Quick: 600, Thorough: 15000, New: func() any { return &histCase{} }, Gen: genC34(true), Judge: judgeC34},
			{Name: "beside", Isolated: true, Serial: true, Quick: 500, Thorough: 12000, New: func() any { return &besideCase{} }, Gen: genBeside, Judge: judgeBeside},
		},
	})
}
