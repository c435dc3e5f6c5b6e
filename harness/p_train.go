package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/corpus"
	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/pkg/model/modelutil/subsample"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/model/word2vec"
	"github.com/ynqa/wego/pkg/util/verbose"
)

type trainCase struct {
	Text B
	Cfg  modelCfg
	Seed int64
}

// genCfg draws any valid configuration.
func genCfg(t *rapid.T) modelCfg {
	c := modelCfg{Model: pick(t, "model", "word2vec", "word2vec", "glove", "lexvec")}
	c.Kind, c.Opt = pick(t, "kind", "cbow", "skipgram"), pick(t, "opt", "ns", "hs")
	c.Solver, c.Count = pick(t, "solver", "sgd", "adagrad"), pick(t, "count", "inc", "prox")
	c.Rel = pick(t, "rel", "ppmi", "pmi", "co", "logco")
	if c.Model != "word2vec" {
		c.Kind, c.Opt = "", ""
	}
	if c.Model != "glove" {
		c.Solver, c.Count = "", ""
	}
	if c.Model != "lexvec" {
		c.Rel = ""
	}
	c.Dim = pick(t, "dim", 1, 2, 3, 5, 10, 50)
	c.Iter = intIn(t, 0, 4, "iter")
	c.Window = pick(t, "win", 1, 2, 3, 5, 10)
	c.Goroutines = pick(t, "gor", 1, 2, 3, 4, 8, 16, 64)
	c.Batch = pick(t, "batch", 1, 2, 3, 5, 10, 100, 10000)
	c.InMemory, c.ToLower = boolean(t, "mem"), boolean(t, "low")
	c.Min, c.Max = pick(t, "min", 0, 0, 1, 2, 3, 5, -1), pick(t, "max", -1, -1, 0, 1, 3, 10)
	c.Neg = pick(t, "neg", 0, 1, 2, 5)
	c.MaxDepth = pick(t, "maxdepth", 0, 1, 2, 3, 100)
	c.Threshold = pick(t, "thr", F(0), F(0.001), F(1), F(3), F(1000))
	c.LR = pick(t, "lr", F(0.025), F(0.001), F(0.05))
	c.MinLR = pick(t, "minlr", F(0.0000025), F(0.001), F(0))
	c.UpdateLR = pick(t, "updlr", 1, 2, 7, 100000)
	c.Xmax, c.Alpha, c.Smooth = pick(t, "xmax", 1, 2, 10, 100), pick(t, "alpha", F(0.75), F(0), F(1), F(2)), pick(t, "smooth", F(0.75), F(1), F(0), F(0.5))
	if chance(t, 10, "far") { // one setting far beyond the usual
		switch intIn(t, 0, 6, "which") {
		case 0:
			c.Dim = uniform(t, 51, 700, "fardim")
		case 1:
			c.Iter, c.Dim = uniform(t, 5, 60, "fariter"), min(c.Dim, 10)
			c.LR = min(c.LR, 0.01)
		case 2:
			c.Window = uniform(t, 11, 300, "farwin")
		case 3:
			c.Goroutines = uniform(t, 65, 500, "fargor")
		case 4:
			c.Neg = uniform(t, 6, 120, "farneg")
			c.LR = min(c.LR, 0.01)
		case 5:
			c.Xmax, c.MaxDepth = uniform(t, 101, 1<<30, "farxmax"), uniform(t, 101, 1<<30, "fardepth")
		default:
			c.Batch, c.UpdateLR = uniform(t, 1, 1<<30, "farbatch"), uniform(t, 8, 1<<30, "farupdlr")
		}
	}
	return c
}

// tameLexvec keeps the step size of the factorisation stable: with relation
// 'co' the targets are raw counts.
func tame(c *modelCfg, text B) {
	if c.Model == "lexvec" && c.Rel == "co" {
		m := 1.
		for _, v := range refCooc(tokens(string(text), c.ToLower), c.Window, "inc") {
			m = math.Max(m, v)
		}
		if lr := F(0.1 / m); c.LR > lr {
			c.LR = lr
		}
		c.MinLR = min(c.MinLR, c.LR)
	}
}

func genC12(t *rapid.T) any {
	c := &trainCase{Text: genText(t, 0, 60), Cfg: genCfg(t), Seed: int64(intIn(t, 0, 1000, "seed"))}
	if chance(t, 6, "allequal") {
		c.Text = B(strings.TrimSpace(strings.Repeat("aa ", uniform(t, 0, 40, "neq"))))
	}
	tame(&c.Cfg, c.Text)
	return c
}

func judgeC12(x any, o *Obs) error {
	c := x.(*trainCase)
	seedRand(c.Seed)
	ws := tokens(string(c.Text), c.Cfg.ToLower)
	order, _ := firstAppearance(ws)
	o.Class("%s%s%s%s mem=%v", c.Cfg.Model, c.Cfg.Kind, c.Cfg.Opt, c.Cfg.Solver, c.Cfg.InMemory)
	o.ClassIf(len(order) == 0, "empty corpus")
	o.ClassIf(len(order) == 1, "one distinct word")
	o.ClassIf(c.Cfg.Goroutines > len(ws), "more goroutines than words")
	o.Nontrivial = len(order) >= 2 && c.Cfg.Iter >= 1
	m, err := newModel(&c.Cfg)
	if err != nil {
		return bad("new model: %v", err)
	}
	if err := m.Train(strings.NewReader(string(c.Text))); err != nil {
		return bad("training failed: %v", err)
	}
	for _, typ := range []string{vector.Single, vector.Agg} {
		mat := m.WordVector(typ)
		if mat.Row() != len(order) || mat.Col() != c.Cfg.Dim {
			return bad("%s matrix is %dx%d, want %dx%d", typ, mat.Row(), mat.Col(), len(order), c.Cfg.Dim)
		}
		for i := 0; i < mat.Row(); i++ {
			for _, v := range mat.Slice(i) {
				if math.IsNaN(v) || math.IsInf(v, 0) {
					return bad("%s vector of %q is %v", typ, order[i], mat.Slice(i))
				}
			}
		}
		var buf bytes.Buffer
		if err := m.Save(&buf, typ); err != nil {
			return bad("saving %s failed: %v", typ, err)
		}
		lines := strings.Split(buf.String(), "\n")
		if len(lines) != len(order)+1 || lines[len(order)] != "" {
			return bad("saved %d lines for %d words", len(lines)-1, len(order))
		}
		for i, w := range order {
			f := strings.Split(strings.TrimSuffix(lines[i], " "), " ")
			if f[0] != w || len(f) != c.Cfg.Dim+1 {
				return bad("saved line %d is %q, want word %q and %d values", i, clip(lines[i]), w, c.Cfg.Dim)
			}
			for j, s := range f[1:] {
				v, err := strconv.ParseFloat(s, 64)
				if err != nil || !near(v, mat.Slice(i)[j], 5.1e-7+1e-12*math.Abs(v)) {
					return bad("saved value %d of %q is %q, the %s matrix has %v", j, w, s, typ, mat.Slice(i)[j])
				}
			}
		}
	}
	return nil
}

// ---- C13 ----------------------------------------------------------------

func genC13(t *rapid.T) any {
	c := &trainCase{Seed: int64(intIn(t, 1, 100000, "seed"))}
	n := uniform(t, 2, 40, "n")
	np := intIn(t, 2, 10, "np")
	var ws []string
	for i := 0; i < n; i++ {
		k := intIn(t, 0, np-1, "w")
		if boolean(t, "sq") { // skewed frequencies
			k = k * k / np
		}
		ws = append(ws, string(rune('a'+k)))
	}
	c.Text = B(strings.Join(ws, " "))
	g := genCfg(t)
	g.Dim, g.Iter, g.Goroutines, g.Batch = intIn(t, 1, 5, "dim"), intIn(t, 2, 3, "iter"), 1, 10000
	g.Threshold, g.UpdateLR, g.LR = 0, 100000, 0.025
	g.Xmax = min(g.Xmax, 100) // or nothing moves enough to be seen
	g.Neg = pick(t, "neg", 0, 0, 2)
	g.MaxDepth = pick(t, "maxdepth", 0, 100, 2)
	g.Min, g.Max = pick(t, "min", 0, 1, 2, 3, 4, 5, 6), pick(t, "max", -1, 0, 1, 2, 3, 4, 6, 8)
	c.Cfg = g
	tame(&c.Cfg, c.Text)
	return c
}

func trained(cfg modelCfg, text string, seed int64) (model.Model, error) {
	seedRand(seed)
	m, err := newModel(&cfg)
	if err != nil {
		return nil, trouble("new model: %v", err)
	}
	if err := m.Train(strings.NewReader(text)); err != nil {
		return nil, bad("training failed: %v", err)
	}
	return m, nil
}

func rowsOf(m *matrix.Matrix) [][]float64 {
	r := make([][]float64, m.Row())
	for i := range r {
		r[i] = append([]float64(nil), m.Slice(i)...)
	}
	return r
}

func sameRow(a, b []float64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func judgeC13(x any, o *Obs) error {
	c := x.(*trainCase)
	cfg0 := c.Cfg
	cfg0.Iter = 0
	m0, err := trained(cfg0, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	m1, err := trained(c.Cfg, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	ws := tokens(string(c.Text), c.Cfg.ToLower)
	order, freq := firstAppearance(ws)
	out := func(w string) bool {
		return freq[w] < c.Cfg.Min || c.Cfg.Max > 0 && freq[w] > c.Cfg.Max
	}
	var kept []string
	for _, w := range ws {
		if !out(w) {
			kept = append(kept, w)
		}
	}
	nOut := 0
	for _, w := range order {
		if out(w) {
			nOut++
		}
	}
	o.Class("%s mem=%v", c.Cfg.Model, c.Cfg.InMemory)
	o.ClassIf(nOut > 0 && nOut < len(order), "some words outside")
	o.Nontrivial = nOut > 0 && nOut < len(order)
	s0, s1 := rowsOf(m0.WordVector(vector.Single)), rowsOf(m1.WordVector(vector.Single))
	a0, a1 := rowsOf(m0.WordVector(vector.Agg)), rowsOf(m1.WordVector(vector.Agg))
	if len(s0) != len(order) || len(s1) != len(order) || len(a1) != len(order) || len(a0) != len(order) {
		return bad("matrix has %d rows for %d words", len(s1), len(order))
	}
	// which words must be trained: those with a neighbour in the filtered
	// document (window >= 1; consecutive words are always in each other's
	// window, whatever shrinking is drawn)
	must := map[string]bool{}
	if c.Cfg.Model == "glove" { // pairs are counted over the whole document
		for i, w := range ws {
			for j := i + 1; j < len(ws) && j <= i+c.Cfg.Window; j++ {
				if !out(w) && !out(ws[j]) {
					must[w], must[ws[j]] = true, true
				}
			}
		}
	} else {
		for i := 0; i+1 < len(kept); i++ {
			must[kept[i]], must[kept[i+1]] = true, true
		}
	}
	hs := c.Cfg.Opt == "hs"
	for i, w := range order {
		moved := !sameRow(s0[i], s1[i])
		if out(w) {
			if moved {
				return bad("%s: %q occurs %d times (limits %d..%d) but its vector was trained", c.Cfg.Model, w, freq[w], c.Cfg.Min, c.Cfg.Max)
			}
			// with no negative samples the context vectors stay, too
			if (c.Cfg.Model == "glove" || c.Cfg.Neg == 0 || hs) && !sameRow(a0[i], a1[i]) {
				return bad("%s: %q occurs %d times (limits %d..%d) but its context vector was trained", c.Cfg.Model, w, freq[w], c.Cfg.Min, c.Cfg.Max)
			}
			continue
		}
		if !must[w] || moved {
			continue
		}
		if hs && (len(order) < 2 || c.Cfg.MaxDepth == 1) {
			continue // the tree has no inner node to train
		}
		return bad("%s: %q occurs %d times (limits %d..%d) next to other trained words but its vector was not trained", c.Cfg.Model, w, freq[w], c.Cfg.Min, c.Cfg.Max)
	}
	return nil
}

// ---- C14 ----------------------------------------------------------------

type aggCase struct {
	Cfg   modelCfg
	Words int
	Seed  int64
	Train B
	Doc   *wideDoc
}

func genC14(t *rapid.T) any {
	c := &aggCase{Cfg: genCfg(t), Seed: int64(intIn(t, 1, 100000, "seed"))}
	c.Cfg.Goroutines, c.Cfg.Min, c.Cfg.Max, c.Cfg.Threshold = 1, 0, -1, 0
	c.Cfg.Iter = intIn(t, 1, 2, "iter")
	c.Cfg.Dim = pick(t, "dim", 1, 2, 4, 10, 30)
	if chance(t, 8, "fardim") {
		c.Cfg.Dim = uniform(t, 31, 700, "dim3")
	}
	c.Words = 2000/c.Cfg.Dim + intIn(t, 1, 50, "words")
	c.Train = genText(t, 2, 30)
	tame(&c.Cfg, c.Train)
	return c
}

func variance(m [][]float64) float64 {
	n, s, q := 0., 0., 0.
	for _, r := range m {
		for _, v := range r {
			n++
			s += v
		}
	}
	for _, r := range m {
		for _, v := range r {
			q += (v - s/n) * (v - s/n)
		}
	}
	return q / n
}

func sameRows(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameRow(a[i], b[i]) {
			return false
		}
	}
	return true
}

func judgeC14(x any, o *Obs) error {
	c := x.(*aggCase)
	var sb strings.Builder
	for i := 0; i < c.Words; i++ {
		fmt.Fprintf(&sb, "w%d ", i)
	}
	o.Class("%s %s", c.Cfg.Model, c.Cfg.Opt)
	o.Nontrivial = true
	cfg := c.Cfg
	cfg.Iter = 0
	m, err := trained(cfg, sb.String(), c.Seed)
	if err != nil {
		return err
	}
	single, agg := rowsOf(m.WordVector(vector.Single)), rowsOf(m.WordVector(vector.Agg))
	if c.Cfg.Opt == "hs" {
		if !sameRows(single, agg) {
			return bad("hierarchical softmax has no context vectors, but single and agg differ")
		}
	} else {
		// own and context vectors are initialised independently with equal
		// spread: their sum has twice the variance of either
		r := variance(agg) / variance(single)
		if !(r > 1.5 && r < 2.6) {
			return bad("%s: the agg vectors have %.3f times the variance of the single vectors right after initialisation; sums of two independent vectors have twice the variance (agg must be own + context, single own)", c.Cfg.Model, r)
		}
	}
	m, err = trained(c.Cfg, string(c.Train), c.Seed)
	if err != nil {
		return err
	}
	if c.Cfg.Opt == "hs" && !sameRows(rowsOf(m.WordVector(vector.Single)), rowsOf(m.WordVector(vector.Agg))) {
		return bad("hierarchical softmax: single and agg differ after training")
	}
	// snapshots are independent copies, and asking changes nothing
	first := map[string][][]float64{}
	saved := map[string]string{}
	for round := 0; round < 3; round++ {
		for _, typ := range []string{vector.Single, vector.Agg, vector.Single} {
			mat := m.WordVector(typ)
			rows := rowsOf(mat)
			if first[typ] == nil {
				first[typ] = rows
			} else if !sameRows(first[typ], rows) {
				return bad("%s: repeated WordVector(%s) differs", c.Cfg.Model, typ)
			}
			for i := 0; i < mat.Row(); i++ {
				s := mat.Slice(i)
				for j := range s {
					s[j] = 1e6 + float64(i)
				}
			}
			var buf bytes.Buffer
			if err := m.Save(&buf, typ); err != nil {
				return bad("save: %v", err)
			}
			if s, ok := saved[typ]; !ok {
				saved[typ] = buf.String()
			} else if s != buf.String() {
				return bad("%s: saving %s twice gives different bytes", c.Cfg.Model, typ)
			}
		}
	}
	// what is saved as a type is that type
	for typ, rows := range first {
		i := 0
		for _, l := range strings.Split(strings.TrimSuffix(saved[typ], "\n"), "\n") {
			f := strings.Split(strings.TrimSuffix(l, " "), " ")
			if i >= len(rows) || len(f) != c.Cfg.Dim+1 {
				break
			}
			for j, s := range f[1:] {
				v, err := strconv.ParseFloat(s, 64)
				if err != nil || !near(v, rows[i][j], 6e-7+1e-12*math.Abs(v)) {
					return bad("%s: Save(%s) wrote %q where WordVector(%s) has %v", c.Cfg.Model, typ, s, typ, rows[i][j])
				}
			}
			i++
		}
	}
	return nil
}

// ---- C24 ----------------------------------------------------------------

type typeCase struct {
	Text B
	Name B
	Mem  bool
	Iter int
	Gor  int
}

var validNames = map[string][]string{
	"model": {"cbow", "skipgram"}, "optimizer": {"ns", "hs"}, "solver": {"sgd", "adagrad"},
	"count": {"inc", "prox"}, "relation": {"ppmi", "pmi", "co", "logco"}, "vector": {"single", "agg"},
}

func genC24(t *rapid.T) any {
	c := &typeCase{Mem: boolean(t, "mem"), Iter: intIn(t, 0, 2, "iter"), Gor: intIn(t, 1, 3, "gor")}
	var ws []string
	for i, n := 0, intIn(t, 2, 12, "n"); i < n; i++ {
		ws = append(ws, pick(t, "w", "a", "b", "c"))
	}
	c.Text = B(strings.Join(ws, " "))
	all := []string{"cbow", "skipgram", "ns", "hs", "sgd", "adagrad", "inc", "prox", "ppmi", "pmi", "co", "logco", "single", "agg"}
	base := pick(t, "base", all...)
	switch intIn(t, 0, 8, "mut") {
	case 0:
		c.Name = ""
	case 1:
		c.Name = B(strings.ToUpper(base))
	case 2:
		c.Name = B(base + " ")
	case 3:
		if k := intIn(t, 1, len(base)-1, "cut"); boolean(t, "front") {
			c.Name = B(base[:k])
		} else {
			c.Name = B(base[k:])
		}
	case 4:
		c.Name = B(base + base)
	case 5:
		c.Name = B(strings.ToUpper(base[:1]) + base[1:])
	case 6:
		c.Name = genToken(t, "tok")
	case 7:
		c.Name = B(pick(t, "other", "skip-gram", "negative", "hierarchical", "sgdm", "default", "0", "none", "increment", "proximity", "both", "all", "adam", "stochastic", "collocation", "logcollocation", "hierarchicalsoftmax", "negativesampling", "aggregate", "bow", "sg", "gram"))
	default:
		c.Name = B(base) // valid for one selection, mostly invalid for the others
	}
	return c
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func judgeC24(x any, o *Obs) error {
	c := x.(*typeCase)
	name := string(c.Name)
	mk := map[string]func() (model.Model, error){
		"model": func() (model.Model, error) {
			op := word2vec.DefaultOptions()
			op.ModelType, op.MinCount, op.DocInMemory, op.Iter, op.Goroutines, op.SubsampleThreshold = name, 0, c.Mem, c.Iter, c.Gor, 0
			return word2vec.NewForOptions(op)
		},
		"optimizer": func() (model.Model, error) {
			op := word2vec.DefaultOptions()
			op.OptimizerType, op.MinCount, op.DocInMemory, op.Iter, op.Goroutines, op.SubsampleThreshold = name, 0, c.Mem, c.Iter, c.Gor, 0
			return word2vec.NewForOptions(op)
		},
		"solver": func() (model.Model, error) {
			op := glove.DefaultOptions()
			op.SolverType, op.MinCount, op.DocInMemory, op.Iter, op.Goroutines = name, 0, c.Mem, c.Iter, c.Gor
			return glove.NewForOptions(op)
		},
		"count": func() (model.Model, error) {
			op := glove.DefaultOptions()
			op.CountType, op.MinCount, op.DocInMemory, op.Iter, op.Goroutines = name, 0, c.Mem, c.Iter, c.Gor
			return glove.NewForOptions(op)
		},
		"relation": func() (model.Model, error) {
			op := lexvec.DefaultOptions()
			op.RelationType, op.MinCount, op.DocInMemory, op.Iter, op.Goroutines, op.SubsampleThreshold = name, 0, c.Mem, c.Iter, c.Gor, 0
			return lexvec.NewForOptions(op)
		},
	}
	o.Nontrivial = name != ""
	for _, sel := range []string{"model", "optimizer", "solver", "count", "relation"} {
		valid := contains(validNames[sel], name)
		o.ClassIf(valid, "valid name")
		// an error of the constructor is as good as one of Train
		m, err := mk[sel]()
		if err == nil {
			err = m.Train(strings.NewReader(string(c.Text)))
		}
		if valid && err != nil {
			return bad("%s %q is documented but refused: %v", sel, name, err)
		}
		if !valid && err == nil {
			return bad("%s %q is not a documented name but training accepted it", sel, name)
		}
	}
	for _, mod := range []string{"word2vec", "glove", "lexvec"} {
		m, err := newModel(&modelCfg{Model: mod, Dim: 2, Iter: c.Iter, Window: 2, Goroutines: c.Gor, InMemory: c.Mem, Neg: 1, Alpha: 0.75, Smooth: 0.75})
		if err == nil {
			err = m.Train(strings.NewReader(string(c.Text)))
		}
		if err != nil {
			return bad("training %s failed: %v", mod, err)
		}
		var buf bytes.Buffer
		w := &countingWriter{w: &buf}
		err = m.Save(w, name)
		valid := contains(validNames["vector"], name)
		if valid && err != nil {
			return bad("%s: vector type %q is documented but refused: %v", mod, name, err)
		}
		if !valid {
			if err == nil {
				return bad("%s: vector type %q is not a documented name but was saved", mod, name)
			}
			if buf.Len() > 0 {
				return bad("%s: vector type %q was refused after writing %d bytes", mod, name, buf.Len())
			}
		}
	}
	if _, err := co.New(name); (err == nil) != contains(validNames["count"], name) {
		return bad("co.New(%q): error %v", name, err)
	}
	return nil
}

// ---- C25 ----------------------------------------------------------------

type subCase struct {
	Freqs []int
	Thr   F
	Seed  int64
	N     int
}

func genThr(t *rapid.T) F {
	switch intIn(t, 0, 6, "thrk") {
	case 0:
		return 0
	case 1:
		return F(intIn(t, 1, 60, "thr"))
	case 2:
		return pick(t, "thr", F(1e-3), F(1e-4), F(1e-5), F(1e9), F(0.5))
	default:
		return realIn(t, 0, 40, "thr")
	}
}

func genC25(t *rapid.T) any {
	c := &subCase{Freqs: genFreqs(t, 12), Thr: genThr(t), Seed: int64(uniform(t, 1, 1<<30, "seed")), N: 3000}
	if len(c.Freqs) == 0 {
		c.Freqs = []int{3}
	}
	if chance(t, 30, "frequent") {
		for i, n := 0, intIn(t, 1, 3, "nfreq"); i < n; i++ {
			c.Freqs[intIn(t, 0, len(c.Freqs)-1, "at")] = uniform(t, 1000, 300000, "freq")
		}
		c.Thr = pick(t, "thrf", F(1e-3), F(1e-5), F(1), F(100), F(5000), F(70000))
	}
	return c
}

func kl(q, p float64) float64 {
	d := 0.
	if q > 0 {
		d += q * math.Log(q/p)
	}
	if q < 1 {
		d += (1 - q) * math.Log((1-q)/(1-p))
	}
	return d
}

// rateOK is a Chernoff test: a fair process fails it with probability below
// 2*exp(-30).
func rateOK(hits, n int, p float64) bool {
	if p <= 0 {
		return hits == 0
	}
	if p >= 1 {
		return hits == n
	}
	return float64(n)*kl(float64(hits)/float64(n), p) <= 30
}

func subLaw(thr float64, c int) float64 {
	return math.Max(0, 1-math.Sqrt(thr/float64(c)))
}

func judgeC25(x any, o *Obs) error {
	c := x.(*subCase)
	seedRand(c.Seed)
	d := treeDic(c.Freqs)
	s := subsample.New(d, float64(c.Thr))
	n := len(c.Freqs)
	hits, both, cross := make([]int, n), make([]int, n), make([]int, n)
	prev := make([]bool, n)
	pairs := 0
	for i := 0; i < c.N; i++ {
		for id := 0; id < n; id++ {
			ok := s.Trial(id)
			if ok {
				hits[id]++
				if i%2 == 1 && prev[id] {
					both[id]++
				}
				if id%2 == 1 && prev[id-1] {
					cross[id]++ // prev[id-1] is of this round already
				}
			}
			prev[id] = ok
		}
		if i%2 == 1 {
			pairs++
		}
	}
	between := false
	for id, f := range c.Freqs {
		p := subLaw(float64(c.Thr), f)
		if float64(f) <= float64(c.Thr) {
			p = 0
		}
		between = between || (p > 0 && p < 1)
		o.ClassIf(p == 0, "never")
		o.ClassIf(p == 1, "always")
		o.ClassIf(p > 0 && p < 1, "sometimes")
		if !rateOK(hits[id], c.N, p) {
			return bad("a word occurring %d times passed %d of %d trials at threshold %v, the law says probability %.4f", f, hits[id], c.N, c.Thr, p)
		}
		if q := 0.; id%2 == 1 {
			if before := c.Freqs[id-1]; float64(before) > float64(c.Thr) {
				q = p * subLaw(float64(c.Thr), before)
			}
			if !rateOK(cross[id], c.N, q) {
				return bad("words occurring %d and %d times passed %d of %d consecutive trials together at threshold %v, independent trials would at rate %.4f", c.Freqs[id-1], f, cross[id], c.N, c.Thr, q)
			}
		}
		if !rateOK(both[id], pairs, p*p) {
			return bad("a word occurring %d times passed two trials in a row %d of %d times at threshold %v, independent trials would at rate %.4f", f, both[id], pairs, c.Thr, p*p)
		}
	}
	o.Nontrivial = between
	return nil
}

// Model level: the document "x y x y ..." trained with a tiny learning rate
// and window 1 moves the vectors by a known amount per trained occurrence, so
// the number of trained occurrences can be read off.
type subModelCase struct {
	Model string // skipgram, cbow, lexvec
	Mem   bool
	Count int // occurrences of each word
	Iter  int
	Thr   F
	Seed  int64
	Dim   int
}

func genC25Model(t *rapid.T) any {
	c := &subModelCase{Model: pick(t, "model", "skipgram", "cbow", "lexvec"), Mem: boolean(t, "mem"), Count: uniform(t, 2, 150, "count"), Iter: intIn(t, 1, 6, "iter"), Seed: int64(uniform(t, 1, 1<<30, "seed")), Dim: intIn(t, 3, 8, "dim")}
	switch intIn(t, 0, 3, "tk") {
	case 0:
		c.Thr = 0
	case 1:
		c.Thr = F(float64(c.Count) * 1.01)
	default:
		c.Thr = F(float64(c.Count) * float64(realIn(t, 0.01, 0.9, "frac")))
	}
	return c
}

func dot(a, b []float64) float64 {
	s := 0.
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

func subv(a, b []float64) []float64 {
	r := make([]float64, len(a))
	for i := range a {
		r[i] = a[i] - b[i]
	}
	return r
}

func judgeC25Model(x any, o *Obs) error {
	c := x.(*subModelCase)
	const lr = 1e-7
	cfg := modelCfg{Model: "word2vec", Kind: c.Model, Opt: "ns", Dim: c.Dim, Iter: c.Iter, Window: 1, Goroutines: 1, InMemory: c.Mem, LR: lr, MinLR: lr, Threshold: c.Thr}
	if c.Model == "lexvec" {
		cfg.Model, cfg.Kind, cfg.Opt, cfg.Rel = "lexvec", "", "", "co"
		cfg.LR, cfg.MinLR = lr/1000, lr/1000
	}
	text := strings.Repeat("x y ", c.Count)
	cfg0 := cfg
	cfg0.Iter = 0
	m0, err := trained(cfg0, text, c.Seed)
	if err != nil {
		return err
	}
	m1, err := trained(cfg, text, c.Seed)
	if err != nil {
		return err
	}
	s0, a0 := rowsOf(m0.WordVector("single")), rowsOf(m0.WordVector("agg"))
	s1, a1 := rowsOf(m1.WordVector("single")), rowsOf(m1.WordVector("agg"))
	if len(s0) != 2 || len(s1) != 2 {
		return bad("%d rows for 2 words", len(s1))
	}
	p := subLaw(float64(c.Thr), c.Count)
	if float64(c.Thr) >= float64(c.Count) {
		p = 0
	}
	n := c.Count * c.Iter
	o.Class("%s", c.Model)
	o.ClassIf(p == 0, "never")
	o.ClassIf(p == 1, "always")
	o.Nontrivial = p > 0
	// steps = trained (occurrence, context) steps, in units of one step
	check := func(what string, steps float64, slots, n int) error {
		// every interior occurrence has 2 contexts, the first and last word one
		lo, hi := int(math.Floor((steps-float64(c.Iter)*2-0.02*steps)/float64(slots))), int(math.Ceil((steps+float64(c.Iter)*2+0.02*steps)/float64(slots)))
		if steps < 0.01 {
			lo, hi = 0, 0
		}
		if p == 0 && steps > 0.01 {
			return bad("%s: %s was trained (about %.1f steps) although no trial can succeed (%d occurrences, threshold %v)", c.Model, what, steps, c.Count, c.Thr)
		}
		lo, hi = max(lo, 0), min(max(hi, 0), n)
		if lo > n {
			return bad("%s: %s was trained %.1f steps, more than its %d occurrences allow", c.Model, what, steps, n)
		}
		for h := lo; h <= hi; h++ {
			if rateOK(h, n, p) {
				return nil
			}
		}
		return bad("%s: %s was trained about %.1f steps (%d..%d of %d occurrences), the law says rate %.4f (%d occurrences, threshold %v)", c.Model, what, steps, lo, hi, n, p, c.Count, c.Thr)
	}
	for w := 0; w < 2; w++ {
		v := 1 - w
		if c.Model == "lexvec" {
			continue
		}
		// C[w] moves by lr*(1-sigmoid(C[w].W[v]))*W[v] per step (cbow: of the
		// sum of both contexts, which are the same word)
		dc := subv(subv(a1[w], s1[w]), subv(a0[w], s0[w]))
		inner := dot(subv(a0[w], s0[w]), s0[v])
		nrm := dot(s0[v], s0[v])
		if nrm < 1e-4 {
			continue
		}
		if c.Model == "cbow" {
			inner *= 2
		}
		steps := dot(dc, s0[v]) / (lr * (1 - 1/(1+math.Exp(-inner))) * nrm)
		if err := check(fmt.Sprintf("word %d", w), steps, 2, n); err != nil {
			return err
		}
	}
	if c.Model == "lexvec" {
		// each step of either word moves W[x] by lr*(count - inner)*W[y]
		cnt := float64(2*c.Count - 1)
		nrm := dot(s0[1], s0[1])
		if nrm >= 1e-4 {
			dw := subv(s1[0], s0[0])
			steps := dot(dw, s0[1]) / (lr / 1000 * (cnt - dot(s0[0], s0[1])) * nrm)
			if err := check("the document", steps, 2, 2*n); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---- C30 ----------------------------------------------------------------

type quietCase struct {
	Text B
	Cfg  modelCfg
	Seed int64
	Log  int
	Typ  string
}

func genC30(t *rapid.T) any {
	c := &quietCase{Text: genText(t, 0, 40), Cfg: genCfg(t), Seed: int64(intIn(t, 1, 1000, "seed")), Log: pick(t, "log", 1, 2, 3, 7, 1000), Typ: pick(t, "typ", "single", "agg")}
	c.Cfg.Goroutines, c.Cfg.Batch, c.Cfg.UpdateLR = 1, 10000, 100000
	if c.Cfg.Model == "glove" {
		c.Cfg.LR = 1e-5 // the pair order is random: keep its effect negligible
	}
	tame(&c.Cfg, c.Text)
	return c
}

type quietResult struct {
	Rows  [][]F
	Saved []byte
	Err   string
}

func auxTrain(in []byte) any {
	c := &quietCase{}
	if err := json.Unmarshal(in, c); err != nil {
		return quietResult{Err: "harness: " + err.Error()}
	}
	m, err := trained(c.Cfg, string(c.Text), c.Seed)
	if err != nil {
		return quietResult{Err: err.Error()}
	}
	var r quietResult
	for _, row := range rowsOf(m.WordVector(c.Typ)) {
		var f []F
		for _, v := range row {
			f = append(f, F(v))
		}
		r.Rows = append(r.Rows, f)
	}
	var buf bytes.Buffer
	if err := m.Save(&buf, c.Typ); err != nil {
		r.Err = err.Error()
	}
	r.Saved = buf.Bytes()
	return r
}

// runAux runs a named computation in a fresh process.
func runAux(name string, in any, out any) error {
	b, err := json.Marshal(in)
	if err != nil {
		return trouble("%v", err)
	}
	cmd := exec.Command(selfBinary(false), "aux", name)
	cmd.Stdin = bytes.NewReader(b)
	se := &limitedBuffer{max: 1 << 20}
	cmd.Stderr = se
	pr, pw, err := os.Pipe()
	if err != nil {
		return trouble("pipe: %v", err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	if err := cmd.Start(); err != nil {
		return trouble("aux: %v", err)
	}
	pw.Close()
	var buf bytes.Buffer
	buf.ReadFrom(pr)
	pr.Close()
	if err := cmd.Wait(); err != nil {
		return classifyDeath(cmd.ProcessState, se.buf.String())
	}
	if err := json.Unmarshal(buf.Bytes(), out); err != nil {
		return trouble("aux output: %v", err)
	}
	return nil
}

var auxFuncs = map[string]func([]byte) any{"train": auxTrain}

func judgeC30Train(x any, o *Obs) error {
	c := x.(*quietCase)
	o.Class("%s %s mem=%v", c.Cfg.Model, c.Cfg.Opt, c.Cfg.InMemory)
	o.Nontrivial = len(refFields(string(c.Text))) >= 3 && c.Cfg.Iter >= 1
	variants := []quietCase{*c, *c, *c}
	variants[1].Cfg.Verbose, variants[1].Cfg.LogBatch = true, c.Log
	variants[2].Cfg.LogBatch = c.Log
	var res [3]quietResult
	for i := range variants {
		if err := runAux("train", &variants[i], &res[i]); err != nil {
			return err
		}
	}
	for i := 1; i < 3; i++ {
		what := fmt.Sprintf("verbose=%v log batch=%d", variants[i].Cfg.Verbose, variants[i].Cfg.LogBatch)
		if res[i].Err != res[0].Err {
			return bad("%s: error %q, quietly %q", what, res[i].Err, res[0].Err)
		}
		if len(res[i].Rows) != len(res[0].Rows) {
			return bad("%s: %d vectors, quietly %d", what, len(res[i].Rows), len(res[0].Rows))
		}
		tol := 0.
		if c.Cfg.Model == "glove" {
			tol = 1e-7
		}
		for r := range res[0].Rows {
			for j := range res[0].Rows[r] {
				a, b := float64(res[0].Rows[r][j]), float64(res[i].Rows[r][j])
				if !near(a, b, tol) {
					return bad("%s: vector %d is %v, quietly %v", what, r, res[i].Rows[r], res[0].Rows[r])
				}
			}
		}
		if tol == 0 && !bytes.Equal(res[i].Saved, res[0].Saved) {
			return bad("%s: saved bytes differ: %q, quietly %q", what, clip(string(res[i].Saved)), clip(string(res[0].Saved)))
		}
	}
	return nil
}

type quietLoadCase struct {
	Text   B
	Mem    bool
	Lower  bool
	Count  string
	Window int
	Log    int
	Min    int
	Batch  int
	Dim    int
}

func genC30Load(t *rapid.T) any {
	return &quietLoadCase{Text: genText(t, 0, 50), Mem: boolean(t, "mem"), Lower: boolean(t, "low"), Count: pick(t, "count", "inc", "prox"), Window: intIn(t, 0, 6, "win"), Log: pick(t, "log", 1, 2, 3, 5, 10, 100000), Min: intIn(t, 0, 3, "min"), Batch: pick(t, "batch", 1, 3, 100), Dim: intIn(t, 1, 3, "dim")}
}

func judgeC30Load(x any, o *Obs) error {
	c := x.(*quietLoadCase)
	type snap struct {
		words []string
		freqs []int
		len   int
		em    map[uint64]float64
		doc   []int
		saved string
	}
	take := func(verb bool, log int) (s snap, err error) {
		cp := newCorpus(c.Mem, strings.NewReader(string(c.Text)), c.Lower, -1, c.Min)
		v := verbose.New(verb)
		if err := cp.Load(&corpus.WithCooccurrence{CountType: c.Count, Window: c.Window}, v, log); err != nil {
			return s, bad("verbose=%v: loading failed: %v", verb, err)
		}
		d := cp.Dictionary()
		for i := 0; i < d.Len(); i++ {
			w, _ := d.Word(i)
			s.words = append(s.words, w)
			s.freqs = append(s.freqs, d.IDFreq(i))
		}
		s.len = cp.Len()
		s.em = cp.Cooccurrence().EncodedMatrix()
		if c.Mem {
			s.doc = cp.IndexedDoc()
		} else {
			bs, err := drain(cp, c.Batch, 1)
			if err != nil {
				return s, bad("BatchWords: %v", err)
			}
			for _, b := range bs {
				s.doc = append(s.doc, b...)
			}
		}
		var buf bytes.Buffer
		mat := matrix.New(d.Len(), c.Dim, func(i int, r []float64) {
			for j := range r {
				r[j] = float64(i) + float64(j)/8
			}
		})
		if err := vector.Save(&buf, d, mat, v, log); err != nil {
			return s, bad("Save: %v", err)
		}
		s.saved = buf.String()
		return s, nil
	}
	want, err := take(false, 100000)
	if err != nil {
		return err
	}
	o.Nontrivial = len(want.words) >= 2
	for _, verb := range []bool{true, false} {
		got, err := take(verb, c.Log)
		if err != nil {
			return err
		}
		what := fmt.Sprintf("verbose=%v, log batch %d", verb, c.Log)
		if fmt.Sprintf("%q", got.words) != fmt.Sprintf("%q", want.words) || !sameInts(got.freqs, want.freqs) || got.len != want.len {
			return bad("%s changes the dictionary", what)
		}
		if !sameInts(got.doc, want.doc) {
			return bad("%s changes the document: %v, quietly %v", what, clipInts(got.doc), clipInts(want.doc))
		}
		if len(got.em) != len(want.em) {
			return bad("%s changes the co-occurrence counts", what)
		}
		for k, v := range want.em {
			if g, ok := got.em[k]; !ok || !near(g, v, 1e-9*v) {
				a, b := encode.DecodeBigram(k)
				return bad("%s changes the count of pair %d,%d: %v, quietly %v", what, a, b, g, v)
			}
		}
		if got.saved != want.saved {
			return bad("%s changes the saved bytes", what)
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C12",
		Rule:  "corpora of 0..60 tokens (empty, one word, all equal, odd bytes) x every model/optimiser/solver/count/relation, document mode, 1..64 goroutines, batch sizes, limits, thresholds, rates within the stable range; each in a fresh process so that a crash or deadlock is a verdict; non-trivial: at least two distinct words and one iteration",
		Parts: []Part{{Name: "train", Isolated: true, Quick: 3000, Thorough: 80000, New: func() any { return &trainCase{} }, Gen: genC12, Judge: judgeC12}}})
	register(&Prop{ID: "C13",
		Rule:  "corpora of 2..40 tokens with skewed frequencies and limits around them, all models and document modes, same seed with 0 and with 2-3 iterations; non-trivial: some but not all words are outside the limits",
		Parts: []Part{{Name: "limits", Quick: 8000, Thorough: 300000, New: func() any { return &trainCase{} }, Gen: genC13, Judge: judgeC13}}})
	register(&Prop{ID: "C14",
		Rule: "all models with 2000+ freshly initialised components (variance of agg against single), then small trained models queried and saved repeatedly with the answers overwritten in between; part 'concurrent': 2-8 goroutines asking and saving under the race detector; non-trivial: all",
		Parts: []Part{{Name: "types", Quick: 800, Thorough: 20000, New: func() any { return &aggCase{} }, Gen: genC14, Judge: judgeC14},
			{Name: "concurrent", Race: true, Quick: 800, Thorough: 20000, New: func() any { return &askCase{} }, Gen: genC14Ask, Judge: judgeC14Ask}}})
	register(&Prop{ID: "C24",
		Rule:  "strings near the documented names (case, white space, prefixes, doubled, names of other selections, the empty string) tried for every selection of every model and as vector type; non-trivial: non-empty string",
		Parts: []Part{{Name: "names", Quick: 3000, Thorough: 100000, New: func() any { return &typeCase{} }, Gen: genC24, Judge: judgeC24}}})
	register(&Prop{ID: "C25",
		Rule: "frequency lists and thresholds (0, around the frequencies, far above): success rate and rate of two successes in a row over 3000 trials per word against the law (Chernoff test, false-alarm probability below 1e-12 per test); part 'model': number of trained occurrences read off the vectors of two-word documents; non-trivial: a rate strictly between 0 and 1 (model: above 0)",
		Parts: []Part{{Name: "trials", Quick: 1600, Thorough: 40000, New: func() any { return &subCase{} }, Gen: genC25, Judge: judgeC25},
			{Name: "model", Quick: 1600, Thorough: 40000, New: func() any { return &subModelCase{} }, Gen: genC25Model, Judge: judgeC25Model}}})
	register(&Prop{ID: "C30",
		Rule: "corpora and configurations as for C12 with one goroutine: vectors and saved bytes of quiet, verbose and differently batched runs, each in a fresh process with the same seed; part 'load': dictionary, counts, document and saved bytes of the loaders; non-trivial: three tokens and one iteration (load: two words)",
		Parts: []Part{{Name: "train", Quick: 800, Thorough: 20000, New: func() any { return &quietCase{} }, Gen: genC30, Judge: judgeC30Train},
			{Name: "load", Quick: 6000, Thorough: 200000, New: func() any { return &quietLoadCase{} }, Gen: genC30Load, Judge: judgeC30Load}}})
}

// ---- C14 concurrent -----------------------------------------------------

type askOp struct {
	Save bool
	Typ  string
}

type askCase struct {
	Cfg  modelCfg
	Seed int64
	Text B
	Ops  [][]askOp
}

func genC14Ask(t *rapid.T) any {
	c := &askCase{Cfg: genCfg(t), Seed: int64(intIn(t, 1, 100000, "seed"))}
	c.Cfg.Goroutines, c.Cfg.UpdateLR, c.Cfg.Verbose, c.Cfg.Batch = 1, 100000, false, 10000
	c.Text = genText(t, 2, 30)
	tame(&c.Cfg, c.Text)
	for i, n := 0, uniform(t, 2, 8, "askers"); i < n; i++ {
		var ops []askOp
		for k := uniform(t, 1, 4, "nops"); k > 0; k-- {
			ops = append(ops, askOp{boolean(t, "save"), pick(t, "typ", vector.Single, vector.Agg)})
		}
		c.Ops = append(c.Ops, ops)
	}
	return c
}

func judgeC14Ask(x any, o *Obs) error {
	c := x.(*askCase)
	m, err := trained(c.Cfg, string(c.Text), c.Seed)
	if err != nil {
		return err
	}
	o.Class("%s %s", c.Cfg.Model, c.Cfg.Opt)
	o.Nontrivial = len(c.Ops) >= 2
	type answer struct {
		rows  [][]float64
		saved []byte
		err   error
	}
	ask := func(op askOp) (a answer) {
		if op.Save {
			var b bytes.Buffer
			a.err = m.Save(&b, op.Typ)
			a.saved = b.Bytes()
			return a
		}
		mat := m.WordVector(op.Typ)
		a.rows = rowsOf(mat)
		for i := 0; i < mat.Row(); i++ { // the answer belongs to the asker
			s := mat.Slice(i)
			for j := range s {
				s[j] = -1e6
			}
		}
		return a
	}
	got := make([][]answer, len(c.Ops))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range c.Ops {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for _, op := range c.Ops[i] {
				got[i] = append(got[i], ask(op))
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for i := range c.Ops {
		for k, op := range c.Ops[i] {
			g, want := got[i][k], ask(op)
			if g.err != nil || want.err != nil {
				return bad("%s: Save(%s) fails: %v, %v", c.Cfg.Model, op.Typ, g.err, want.err)
			}
			if !bytes.Equal(g.saved, want.saved) {
				return bad("%s: Save(%s) beside others writes %q, alone %q", c.Cfg.Model, op.Typ, clip(string(g.saved)), clip(string(want.saved)))
			}
			if len(g.rows) != len(want.rows) || !sameRows(g.rows, want.rows) {
				return bad("%s: WordVector(%s) beside others gives %v, alone %v", c.Cfg.Model, op.Typ, g.rows, want.rows)
			}
		}
	}
	return nil
}
