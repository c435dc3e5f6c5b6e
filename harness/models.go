package main

import (
	"fmt"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/word2vec"
)

// modelCfg is one configuration of any of the three models. Zero values are
// passed on as they are, except where noted.
type modelCfg struct {
	Model      string // word2vec, glove, lexvec
	Kind       string `json:",omitempty"` // word2vec model type (default cbow)
	Opt        string `json:",omitempty"` // word2vec optimizer (default ns)
	Solver     string `json:",omitempty"` // glove (default sgd)
	Count      string `json:",omitempty"` // glove (default inc)
	Rel        string `json:",omitempty"` // lexvec (default ppmi)
	Dim        int
	Iter       int
	Window     int
	Goroutines int
	Batch      int  `json:",omitempty"` // default 10000
	InMemory   bool `json:",omitempty"`
	ToLower    bool `json:",omitempty"`
	Min, Max   int  `json:",omitempty"`
	Neg        int  `json:",omitempty"`
	MaxDepth   int  `json:",omitempty"`
	Threshold  F    `json:",omitempty"`
	LR         F    `json:",omitempty"` // default 0.025
	MinLR      F    `json:",omitempty"`
	UpdateLR   int  `json:",omitempty"` // default 100000
	Xmax       int  `json:",omitempty"` // default 100
	Alpha      F    `json:",omitempty"`
	Smooth     F    `json:",omitempty"`
	Verbose    bool `json:",omitempty"`
	LogBatch   int  `json:",omitempty"` // default 100000
}

func def[T comparable](v, d T) T {
	var z T
	if v == z {
		return d
	}
	return v
}

func newModel(c *modelCfg) (model.Model, error) { return newModelWith(c, false, nil) }

// newModelWith changes the options before the model is made; set gets a
// pointer to the model's Options.
func newModelWith(c *modelCfg, viaNew bool, set func(opts any)) (model.Model, error) {
	if set == nil {
		set = func(any) {}
	}
	switch c.Model {
	case "word2vec":
		o := word2vec.DefaultOptions()
		o.ModelType, o.OptimizerType = def(c.Kind, word2vec.Cbow), def(c.Opt, word2vec.NegativeSampling)
		o.Dim, o.Iter, o.Window, o.Goroutines = c.Dim, c.Iter, c.Window, c.Goroutines
		o.BatchSize, o.DocInMemory, o.ToLower = def(c.Batch, 10000), c.InMemory, c.ToLower
		o.MinCount, o.MaxCount = c.Min, c.Max
		o.NegativeSampleSize, o.MaxDepth = c.Neg, c.MaxDepth
		o.SubsampleThreshold = float64(c.Threshold)
		o.Initlr, o.MinLR, o.UpdateLRBatch = float64(def(c.LR, 0.025)), float64(c.MinLR), def(c.UpdateLR, 100000)
		o.Verbose, o.LogBatch = c.Verbose, def(c.LogBatch, 100000)
		set(&o)
		if viaNew {
			return word2vec.New(func(p *word2vec.Options) { *p = o })
		}
		return word2vec.NewForOptions(o)
	case "glove":
		o := glove.DefaultOptions()
		o.SolverType, o.CountType = def(c.Solver, glove.Stochastic), def(c.Count, "inc")
		o.Dim, o.Iter, o.Window, o.Goroutines = c.Dim, c.Iter, c.Window, c.Goroutines
		o.BatchSize, o.DocInMemory, o.ToLower = def(c.Batch, 10000), c.InMemory, c.ToLower
		o.MinCount, o.MaxCount = c.Min, c.Max
		o.Initlr, o.Xmax, o.Alpha = float64(def(c.LR, 0.025)), def(c.Xmax, 100), float64(c.Alpha)
		o.SubsampleThreshold = float64(c.Threshold)
		o.Verbose, o.LogBatch = c.Verbose, def(c.LogBatch, 100000)
		set(&o)
		if viaNew {
			return glove.New(func(p *glove.Options) { *p = o })
		}
		return glove.NewForOptions(o)
	case "lexvec":
		o := lexvec.DefaultOptions()
		o.RelationType = def(c.Rel, lexvec.PPMI)
		o.Dim, o.Iter, o.Window, o.Goroutines = c.Dim, c.Iter, c.Window, c.Goroutines
		o.BatchSize, o.DocInMemory, o.ToLower = def(c.Batch, 10000), c.InMemory, c.ToLower
		o.MinCount, o.MaxCount = c.Min, c.Max
		o.NegativeSampleSize, o.Smooth = c.Neg, float64(c.Smooth)
		o.SubsampleThreshold = float64(c.Threshold)
		o.Initlr, o.MinLR, o.UpdateLRBatch = float64(def(c.LR, 0.025)), float64(c.MinLR), def(c.UpdateLR, 100000)
		o.Verbose, o.LogBatch = c.Verbose, def(c.LogBatch, 100000)
		set(&o)
		if viaNew {
			return lexvec.New(func(p *lexvec.Options) { *p = o })
		}
		return lexvec.NewForOptions(o)
	}
	return nil, fmt.Errorf("harness: no model %q", c.Model)
}

var _ = rapid.Int
