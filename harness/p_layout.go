package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/embedding"
)

// ---- C35 ----------------------------------------------------------------

// One training, and the same training of a corpus that differs only in what
// must not matter.
type layoutCase struct {
	Cfg    modelCfg
	Toks   []B
	Seps   []B // separators of the plain form: before, between and after the words
	Seps2  []B // separators of the other form
	Names  []B // new name of the i-th distinct word; empty: not renamed
	Case   []int
	Chunk  chunking
	Chunk2 chunking
	Pos    int  // where the reader of the other form stands at first
	Mode   bool // the other form is held in the other document mode
	Gor    int  // goroutines of the other form (documents re-read as one batch need only one)
	Seed   int64
}

func genC35(t *rapid.T) any {
	c := &layoutCase{Cfg: genCfg(t), Seed: int64(uniform(t, 1, 1<<20, "seed"))}
	g := &c.Cfg
	g.Goroutines, g.UpdateLR, g.Verbose = 1, 100000, false
	g.Batch = 10000
	if g.Model == "glove" && boolean(t, "pairs") {
		g.Min, g.Max, g.Window = 0, 4, 1
		for _, w := range refFields(string(histText(t, g))) {
			c.Toks = append(c.Toks, B(w))
		}
	} else {
		for _, w := range refFields(string(genText(t, 0, 60))) {
			c.Toks = append(c.Toks, B(w))
		}
		if g.Model == "glove" {
			g.LR = 1e-5 // the pair order is random: keep its effect negligible
		}
	}
	tame(g, joinB(c.Toks))
	long := chance(t, 12, "long") // run over the scanner's buffer
	sep := func(edge bool) B {
		if edge && boolean(t, "none") {
			return ""
		}
		s := pick(t, "sep", seps...)
		if chance(t, 4, "more") {
			s += pick(t, "sep", seps...)
		}
		if long && chance(t, 8, "run") {
			s = strings.Repeat(s, 1+uniform(t, 1, 9000, "rep")/len(s))
		}
		return B(s)
	}
	for _, p := range []*[]B{&c.Seps, &c.Seps2} {
		for i := 0; i <= len(c.Toks); i++ {
			*p = append(*p, sep(i == 0 || i == len(c.Toks)))
		}
	}
	if boolean(t, "rename") {
		for i := uniform(t, 0, 12, "nnames"); i > 0; i-- {
			c.Names = append(c.Names, genToken(t, "name"))
		}
	}
	if g.ToLower {
		for i := uniform(t, 0, 6, "ncase"); i > 0; i-- {
			c.Case = append(c.Case, uniform(t, 0, 3, "case"))
		}
	}
	c.Chunk, c.Chunk2 = genChunking(t), genChunking(t)
	c.Mode = boolean(t, "mode")
	if chance(t, 4, "moved") {
		c.Pos = uniform(t, 0, 200, "pos")
	}
	c.Gor = 1
	if chance(t, 3, "gor") {
		c.Gor = uniform(t, 1, 8, "g")
	}
	return c
}

func joinB(ws []B) B {
	var sb strings.Builder
	for _, w := range ws {
		sb.WriteString(string(w))
		sb.WriteString(" ")
	}
	return B(sb.String())
}

type layoutRun struct {
	Cfg   modelCfg
	Text  B
	Chunk chunking
	Pos   int
	Seed  int64
}

func auxLayout(in []byte) any {
	c := &layoutRun{}
	if err := json.Unmarshal(in, c); err != nil {
		return freshResult{Err: "harness: " + err.Error()}
	}
	seedRand(c.Seed)
	m, err := newModel(&c.Cfg)
	if err == nil {
		r := c.Chunk.reader(string(c.Text))
		r.pos = min(c.Pos, len(c.Text))
		err = m.Train(r)
	}
	var r freshResult
	if err == nil {
		r.Single, r.Agg, err = savedBoth(m)
	}
	if err != nil {
		r.Err = err.Error()
	}
	return r
}

func init() { auxFuncs["layout"] = auxLayout }

func judgeC35(x any, o *Obs) error {
	c := x.(*layoutCase)
	build := func(ws []string, seps []B) string {
		var sb strings.Builder
		for i, s := range seps {
			if s == "" && i > 0 && i < len(ws) {
				s = " "
			}
			sb.WriteString(string(s))
			if i < len(ws) {
				sb.WriteString(ws[i])
			}
		}
		return sb.String()
	}
	plain := make([]string, len(c.Toks))
	for i, w := range c.Toks {
		plain[i] = string(w)
	}
	same := func(w string) string {
		if c.Cfg.ToLower {
			return strings.ToLower(w)
		}
		return w
	}
	// The words of the other form: renamed one to one, then written in
	// another case where case does not matter.
	other := make([]string, len(plain))
	name, used := map[string]string{}, map[string]bool{}
	k := 0
	distinct := tokens(strings.Join(plain, " "), c.Cfg.ToLower)
	for _, w := range distinct {
		if _, ok := name[w]; ok {
			continue
		}
		nw := w
		if k < len(c.Names) && c.Names[k] != "" {
			nw = same(string(c.Names[k]))
		}
		if same(nw) != nw {
			nw = w
		}
		if same(nw) != nw {
			return nil // lower-casing such a word is not idempotent
		}
		for used[nw] {
			nw += "_"
		}
		used[nw] = true
		name[w] = nw
		k++
	}
	for i, w := range plain {
		other[i] = name[same(w)]
		if !c.Cfg.ToLower || len(c.Case) == 0 {
			continue
		}
		v := other[i]
		switch c.Case[i%len(c.Case)] {
		case 1:
			v = strings.ToUpper(v)
		case 2:
			v = strings.ToTitle(v)
		case 3:
			v = w
			if name[same(w)] != same(w) {
				v = other[i]
			}
		}
		if strings.ToLower(v) == other[i] {
			other[i] = v
		}
	}
	text, text2 := build(plain, c.Seps), build(other, c.Seps2)
	if len(refFields(text)) != len(plain) || len(refFields(text2)) != len(plain) {
		return nil // a word is no word (not generated)
	}
	run1 := layoutRun{Cfg: c.Cfg, Text: B(text), Chunk: c.Chunk, Seed: c.Seed}
	run2 := layoutRun{Cfg: c.Cfg, Text: B(text2), Chunk: c.Chunk2, Pos: c.Pos, Seed: c.Seed}
	if c.Mode {
		run2.Cfg.InMemory = !run2.Cfg.InMemory
	}
	if !run2.Cfg.InMemory && c.Cfg.Model != "glove" {
		run2.Cfg.Goroutines = c.Gor // one batch: one goroutine has something to do
	}
	o.Class("%s mode=%v", c.Cfg.Model, c.Mode)
	o.ClassIf(len(c.Names) > 0, "renamed")
	o.ClassIf(run2.Cfg.Goroutines > 1, "idle goroutines")
	o.Nontrivial = len(name) >= 2 && c.Cfg.Iter > 0 && text != text2
	var a, b freshResult
	if err := runAux("layout", &run1, &a); err != nil {
		return err
	}
	if err := runAux("layout", &run2, &b); err != nil {
		return err
	}
	what := fmt.Sprintf("%s%s%s: %q (in memory %v) and %q (in memory %v) hold the same sequence of words", c.Cfg.Model, c.Cfg.Kind, c.Cfg.Opt, clip(text), run1.Cfg.InMemory, clip(text2), run2.Cfg.InMemory)
	if a.Err != "" || b.Err != "" {
		return bad("%s, errors: %q and %q", what, a.Err, b.Err)
	}
	order, _ := firstAppearance(distinct)
	for _, p := range [][2][]byte{{a.Single, b.Single}, {a.Agg, b.Agg}} {
		ea, err := embedding.Load(bytes.NewReader(p[0]))
		if err != nil {
			return bad("%s: loading failed: %v", what, err)
		}
		eb, err := embedding.Load(bytes.NewReader(p[1]))
		if err != nil {
			return bad("%s: loading failed: %v", what, err)
		}
		if len(ea) != len(order) || len(eb) != len(order) {
			return bad("%s (%d distinct), but %d and %d vectors are saved", what, len(order), len(ea), len(eb))
		}
		tol := 0.
		if c.Cfg.Model == "glove" && float64(c.Cfg.LR) <= 1e-5 {
			tol = 2e-6
		}
		for i := range ea {
			if ea[i].Word != order[i] || eb[i].Word != name[order[i]] {
				return bad("%s, but vector %d is for %q and %q, want %q and %q", what, i, ea[i].Word, eb[i].Word, order[i], name[order[i]])
			}
			if len(ea[i].Vector) != len(eb[i].Vector) {
				return bad("%s, but vector %d has %d and %d values", what, i, len(ea[i].Vector), len(eb[i].Vector))
			}
			for j := range ea[i].Vector {
				if u, v := ea[i].Vector[j], eb[i].Vector[j]; !near(u, v, tol) {
					return bad("%s, but the vectors of %q and %q are %v and %v", what, order[i], name[order[i]], ea[i].Vector, eb[i].Vector)
				}
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:    "C35",
		Rule:  "one corpus written in two ways (white space of any kind and length, read chunking, words renamed one to one, case where it does not matter, document mode, position of the reader, idle goroutines), trained in fresh processes from the same seed; saved vectors must be equal; non-trivial: two distinct words, one iteration, texts that differ",
		Assum: []string{"one goroutine or one batch, so that the result follows from the seed; GloVe's random pair order is made harmless by a small rate or by pairs that share no words"},
		Parts: []Part{{Name: "layout", Quick: 2400, Thorough: 40000, New: func() any { return &layoutCase{} }, Gen: genC35, Judge: judgeC35}},
	})
}
