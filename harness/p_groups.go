package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/search"
)

// ---- C27 ----------------------------------------------------------------

type groupCase struct {
	Cfg    modelCfg
	Sizes  []int // words per group
	Length int   // tokens per group
	Seed   int64
}

// groupConfig is a setting at which the separation is pronounced: the floor
// is far below what it measures on correct code (see DESIGN.md).
type groupConfig struct {
	cfg   modelCfg
	typ   string
	floor float64
	nn    bool // nearest neighbours are expected to be of the own group too
}

func groupConfigs() []groupConfig {
	w := func(kind, opt string) modelCfg {
		return modelCfg{Model: "word2vec", Kind: kind, Opt: opt, LR: 0.05, Iter: 15}
	}
	g := func(solver, cnt string, iter int) modelCfg {
		return modelCfg{Model: "glove", Solver: solver, Count: cnt, LR: 0.05, Iter: iter}
	}
	l := func(rel string) modelCfg {
		lr := F(0.05)
		if rel == "co" {
			lr = 0.05 / 1000
		}
		return modelCfg{Model: "lexvec", Rel: rel, LR: lr, Iter: 15}
	}
	cbowhs := w("cbow", "hs")
	cbowhs.LR = 0.025
	return []groupConfig{
		{w("cbow", "ns"), vector.Agg, 0.3, true},
		{w("skipgram", "ns"), vector.Agg, 0.5, true},
		{cbowhs, vector.Single, 0.1, false},
		{w("skipgram", "hs"), vector.Single, 0.4, true},
		{g("sgd", "inc", 50), vector.Single, 0.1, false},
		{g("sgd", "prox", 100), vector.Single, 0, false},
		{g("adagrad", "inc", 50), vector.Single, 0, false},
		{l("ppmi"), vector.Single, 0.4, true},
		{l("pmi"), vector.Single, 0.3, true},
		{l("co"), vector.Single, 0.4, true},
		{l("logco"), vector.Single, 0.4, true},
	}
}

func genC27(t *rapid.T) any {
	gs := groupConfigs()
	c := &groupCase{Cfg: gs[uniform(t, 0, len(gs)-1, "config")].cfg}
	for i, n := 0, intIn(t, 2, 4, "groups"); i < n; i++ {
		c.Sizes = append(c.Sizes, intIn(t, 4, 6, "size"))
	}
	c.Length = uniform(t, 800, 1400, "length")
	c.Seed = int64(uniform(t, 1, 1000000, "seed"))
	c.Cfg.Dim, c.Cfg.Window = intIn(t, 10, 20, "dim"), 5
	c.Cfg.Goroutines, c.Cfg.InMemory = pick(t, "gor", 1, 2, 4, 8), boolean(t, "mem")
	c.Cfg.Min, c.Cfg.Max, c.Cfg.Neg, c.Cfg.Threshold = pick(t, "min", 0, 5), -1, 5, 0.001
	c.Cfg.MinLR, c.Cfg.Alpha, c.Cfg.Smooth, c.Cfg.MaxDepth = 2.5e-6, 0.75, 0.75, pick(t, "depth", 0, 100)
	c.Cfg.Batch = pick(t, "batch", 200, 1000, 10000)
	return c
}

// corpus gives the tokens of a repetition and the group of each word.
func (c *groupCase) corpus(rep int) (ws []string, group map[string]int) {
	r := rand.New(rand.NewSource(c.Seed + int64(rep)))
	group = map[string]int{}
	for g, n := range c.Sizes {
		for i := 0; i < c.Length; i++ {
			w := fmt.Sprintf("g%dw%d", g, r.Intn(n))
			group[w] = g
			ws = append(ws, w)
		}
	}
	return ws, group
}

func (c *groupCase) config() *groupConfig {
	for _, g := range groupConfigs() {
		if g.cfg.Model == c.Cfg.Model && g.cfg.Kind == c.Cfg.Kind && g.cfg.Opt == c.Cfg.Opt && g.cfg.Solver == c.Cfg.Solver && g.cfg.Count == c.Cfg.Count && g.cfg.Rel == c.Cfg.Rel {
			return &g
		}
	}
	return nil
}

func (c *groupCase) name() string {
	return c.Cfg.Model + " " + c.Cfg.Kind + c.Cfg.Opt + c.Cfg.Solver + c.Cfg.Count + c.Cfg.Rel
}

func judgeC27(x any, o *Obs) error {
	c := x.(*groupCase)
	gc, name := c.config(), c.name()
	if gc == nil {
		return trouble("no such configuration")
	}
	o.Class("%s", name)
	o.Nontrivial = true
	const reps = 2
	margin, share := 0., 0.
	for rep := 0; rep < reps; rep++ {
		ws, group := c.corpus(rep)
		m, err := trained(c.Cfg, strings.Join(ws, " "), c.Seed+int64(rep))
		if err != nil {
			return bad("%s: %v", name, err)
		}
		var buf bytes.Buffer
		if err := m.Save(&buf, gc.typ); err != nil {
			return bad("%s: %v", name, err)
		}
		embs, err := embedding.Load(&buf)
		if err != nil {
			return bad("%s: saved vectors do not load: %v", name, err)
		}
		var in, out, ni, no, nn float64
		s, err := search.New(embs...)
		if err != nil {
			return bad("%s: %v", name, err)
		}
		for i, a := range embs {
			for j, b := range embs {
				if i == j {
					continue
				}
				if sim := refCosine(a.Vector, b.Vector); group[a.Word] == group[b.Word] {
					in, ni = in+sim, ni+1
				} else {
					out, no = out+sim, no+1
				}
			}
			near, err := s.SearchInternal(a.Word, 1)
			if err != nil {
				return bad("%s: %v", name, err)
			}
			if len(near) == 1 && group[near[0].Word] == group[a.Word] {
				nn++
			}
		}
		margin += (in/ni - out/no) / reps
		share += nn / float64(len(embs)) / reps
	}
	if !(margin > gc.floor) {
		return bad("%s (%s vectors): words of the same group are only %.3f more similar than words of different groups (at least %.2f expected)", name, gc.typ, margin, gc.floor)
	}
	if gc.nn && share <= 0.5 {
		return bad("%s (%s vectors): only %.0f%% of the nearest neighbours are of the same group", name, gc.typ, 100*share)
	}
	o.Class("%s margin >= %.1f", name, float64(int(margin*10))/10)
	return nil
}

// -- the same with the commands: train, then ask the console

func genC27CLI(t *rapid.T) any {
	for {
		c := genC27(t).(*groupCase)
		if c.config().nn {
			return c
		}
	}
}

func judgeC27CLI(x any, o *Obs) error {
	c := x.(*groupCase)
	gc, name := c.config(), c.name()
	if gc == nil {
		return trouble("no such configuration")
	}
	o.Class("%s", name)
	o.Nontrivial = true
	const reps = 2
	share := 0.
	for rep := 0; rep < reps; rep++ {
		ws, group := c.corpus(rep)
		dir, err := caseDir()
		if err != nil {
			return err
		}
		defer os.RemoveAll(dir)
		if err := writeFile(dir+"/corpus.txt", strings.Join(ws, " ")); err != nil {
			return err
		}
		args := []string{c.Cfg.Model, "-i", "corpus.txt", "-o", "vectors.txt", "--vec-type", gc.typ}
		add := func(flag string, v any) { args = append(args, fmt.Sprintf("--%s=%v", flag, v)) }
		add("dim", c.Cfg.Dim)
		add("window", c.Cfg.Window)
		add("iter", c.Cfg.Iter)
		add("goroutines", c.Cfg.Goroutines)
		add("in-memory", c.Cfg.InMemory)
		add("min-count", c.Cfg.Min)
		add("batch", c.Cfg.Batch)
		add("initlr", float64(c.Cfg.LR))
		switch c.Cfg.Model {
		case "word2vec":
			add("model", c.Cfg.Kind)
			add("optimizer", c.Cfg.Opt)
			add("max-depth", c.Cfg.MaxDepth)
		case "lexvec":
			add("rel", c.Cfg.Rel)
		}
		res, err := runCLI(dir, "", nil, args...)
		if err != nil {
			return err
		}
		if res.code != 0 {
			return bad("wego %q exits %d: %s", args, res.code, clip(res.err))
		}
		var words []string
		for w := range group {
			words = append(words, w)
		}
		sort.Strings(words)
		nn := 0
		// One word for query, all of them for the console.
		res, err = runCLI(dir, "", nil, "query", "-i", "vectors.txt", "-r", "1", words[0])
		if err != nil {
			return err
		}
		if res.code != 0 {
			return bad("%s: wego query %s exits %d: %s", name, words[0], res.code, clip(res.err))
		}
		res, err = runCLI(dir, strings.Join(words, "\n")+"\n", nil, "console", "-i", "vectors.txt", "-r", "1")
		if err != nil {
			return err
		}
		bs, _ := parseOutput(res.out)
		i := 0
		for _, b := range bs {
			if !b.table {
				continue
			}
			if i < len(words) && len(b.rows) == 1 && group[b.rows[0].word] == group[words[i]] {
				nn++
			}
			i++
		}
		if i > len(words) {
			return bad("%s: %d tables for %d words", name, i, len(words))
		}
		share += float64(nn) / float64(len(words)) / reps
	}
	if share <= 0.5 {
		return bad("%s (%s vectors), trained and asked by command: only %.0f%% of the nearest neighbours are of the same group", name, gc.typ, 100*share)
	}
	o.Class("%s share >= %.1f", name, float64(int(share*10))/10)
	return nil
}

func init() {
	register(&Prop{
		ID:    "C27",
		Rule:  "random corpora of 2-4 groups of 4-6 words, trained at ordinary settings; the mean similarity within groups must exceed the mean across groups (averaged over two trainings); every case is non-trivial",
		Assum: []string{"statistical: the floors leave several standard deviations to what correct code shows", "word2vec with negative sampling is judged on its agg vectors, the others on their own vectors"},
		Parts: []Part{
			{Name: "groups", Quick: 160, Thorough: 4000, New: func() any { return &groupCase{} }, Gen: genC27, Judge: judgeC27},
			{Name: "commands", Quick: 24, Thorough: 800, New: func() any { return &groupCase{} }, Gen: genC27CLI, Judge: judgeC27CLI}},
	})
}
