package main

import (
	"bytes"
	"strings"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
)

// ---- C37 ----------------------------------------------------------------

// A history of trainings, some of which fail, and saves of one model value.
// Nothing but the vectors of a completed training may be written.
type savedOp struct {
	Kind    string // train, fault (a call on the document fails), long (a word no reader takes), save
	Text    B      `json:",omitempty"`
	Seed    int64  `json:",omitempty"`
	Fail    int    `json:",omitempty"` // out of 1000 of the calls a training makes
	Persist bool   `json:",omitempty"`
	Typ     B      `json:",omitempty"`
}

type savedCase struct {
	Cfg  modelCfg
	Type string // an unknown component, if not empty
	Ops  []savedOp
}

func genC37(t *rapid.T) any {
	c := &savedCase{Cfg: genHistCfg(t)}
	if chance(t, 5, "unknown") {
		c.Type = pick(t, "type", "nosuch", "NS", "sg", " ")
	}
	c.Cfg.InMemory = boolean(t, "mem")
	for i, n := 0, uniform(t, 1, 8, "ops"); i < n; i++ {
		op := savedOp{Kind: pick(t, "op", "save", "save", "train", "fault", "fault", "long")}
		switch op.Kind {
		case "save":
			op.Typ = B(pick(t, "typ", vector.Single, vector.Agg, vector.Single, vector.Agg, "", "SINGLE", "both"))
		default:
			op.Text, op.Seed = histText(t, &c.Cfg), int64(uniform(t, 1, 1<<20, "seed"))
			op.Fail, op.Persist = uniform(t, 0, 999, "fail"), boolean(t, "persist")
			if op.Kind == "train" && chance(t, 8, "empty") {
				op.Text = pick(t, "blank", B(""), B(" \n"))
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// unknownComponent replaces one component of a configuration by a name no
// component has.
func unknownComponent(g modelCfg, typ string, second bool) modelCfg {
	switch {
	case g.Model == "lexvec":
		g.Rel = typ
	case g.Model == "glove" && second:
		g.Count = typ
	case g.Model == "glove":
		g.Solver = typ
	case second:
		g.Opt = typ
	default:
		g.Kind = typ
	}
	return g
}

func judgeC37(x any, o *Obs) error {
	c := x.(*savedCase)
	cfg := c.Cfg
	if c.Type != "" {
		cfg = unknownComponent(cfg, c.Type, len(c.Ops)%2 == 0)
	}
	m, err := newModel(&cfg)
	if err != nil {
		if c.Type != "" {
			return nil // refused at once
		}
		return bad("the model is refused: %v", err)
	}
	mk := func(text B, at int, persist bool) *slowDoc {
		d := &faultDoc{r: &chunkReader{data: []byte(text), failAt: -1}, failAt: at, last: at, err: errInjected}
		if persist {
			d.last = 1 << 60
		}
		return &slowDoc{doc: d}
	}
	var (
		done  bool              // the latest training succeeded
		text  string            // its document
		prev  map[string][]byte // what the latest successful training gives
		ran   = "nothing"
		saves int
	)
	for k, op := range c.Ops {
		switch op.Kind {
		case "save":
			saves++
			typ := string(op.Typ)
			var b bytes.Buffer
			err := m.Save(&b, typ)
			what := cfg.Model + " after " + ran + ", operation"
			if typ != vector.Single && typ != vector.Agg {
				if err == nil || b.Len() > 0 {
					return bad("%s %d: saving the unknown kind of vectors %q gives error %v and %d bytes", what, k, typ, err, b.Len())
				}
				continue
			}
			if done {
				if err != nil {
					return bad("%s %d: saving fails: %v", what, k, err)
				}
				if err := judgeSaved(&cfg, text, b.Bytes()); err != nil {
					return bad("%s %d: %v", what, k, err)
				}
				continue
			}
			o.Class("save after %s", ran)
			o.Nontrivial = true
			old, had := prev[typ]
			switch {
			case err != nil && b.Len() == 0:
			case err == nil && had && bytes.Equal(b.Bytes(), old):
			case err != nil:
				return bad("%s %d: saving fails with %v, but writes %q", what, k, err, clip(b.String()))
			default:
				return bad("%s %d: there is no completed training to save, but saving succeeds and writes %q", what, k, clip(b.String()))
			}
		default:
			doc := op.Text
			at := -1
			switch op.Kind {
			case "long":
				doc += B(" " + strings.Repeat("w", 70000) + " end")
			case "fault":
				at = 1 << 60
				if c.Type == "" { // count the calls of an undisturbed training
					n, err := callsOf(&cfg, mk(doc, -1, false), op.Seed)
					if err != nil {
						return err
					}
					at = n * op.Fail / 1000
				}
			}
			if tamed := cfg; c.Type == "" {
				if tame(&tamed, doc); tamed != cfg {
					continue // a step size too large for this document
				}
			}
			d := mk(doc, at, op.Persist)
			seedRand(op.Seed)
			err := m.Train(d)
			done = err == nil
			switch {
			case c.Type != "" && done && (cfg.Model != "lexvec" || cfg.Iter > 0 && len(tokens(string(doc), false)) > 1):
				return bad("%s: training with the unknown component %q succeeds", cfg.Model, c.Type)
			case c.Type == "" && op.Kind == "train" && !done:
				return bad("%s: training fails: %v", cfg.Model, err)
			case op.Kind == "fault" && done && at >= 0 && at < int(d.calls.Load()):
				return bad("%s: training succeeds, although call %d on the document failed", cfg.Model, at)
			}
			if done {
				ran = "a training"
				text = string(doc)
				s, a, err := savedBoth(m)
				if err != nil {
					return bad("%s: saving after a training fails: %v", cfg.Model, err)
				}
				prev = map[string][]byte{vector.Single: s, vector.Agg: a}
			} else {
				ran = "a failed training (" + op.Kind + ")"
				if c.Type != "" {
					ran = "a failed training (unknown component)"
				}
				if prev != nil {
					ran += " after a completed one"
				}
			}
		}
	}
	return nil
}

// callsOf counts the calls a training makes on its document.
func callsOf(g *modelCfg, d *slowDoc, seed int64) (int, error) {
	m, err := newModel(g)
	if err != nil {
		return 0, trouble("%v", err)
	}
	seedRand(seed)
	if err := m.Train(d); err != nil {
		return 0, bad("training %s fails: %v", g.Model, err)
	}
	return int(d.calls.Load()), nil
}

var _ model.Model

func init() {
	register(&Prop{
		ID:    "C37",
		Rule:  "histories of one to eight operations on one model value: trainings on readable documents, on documents a call on which fails (at any call, once or for good), on documents with a word longer than any reader takes, with unknown components, and saves of either kind of vectors or an unknown one; non-trivial: a save of a known kind when the latest training failed or there was none",
		Assum: []string{"after a failed training the vectors of the last completed one may still be saved, unchanged"},
		Parts: []Part{{Name: "saved", Isolated: true, Quick: 2000, Thorough: 50000, New: func() any { return &savedCase{} }, Gen: genC37, Judge: judgeC37}},
	})
}
