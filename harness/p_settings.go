package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
)

// ---- C38 ----------------------------------------------------------------

// optValue gives one numeric option a value, wherever it is given one: by the
// name of its field or of its flag.
type optValue struct {
	Field string
	Int   int64 `json:",omitempty"`
	Real  F     `json:",omitempty"`
}

type settingsCase struct {
	Cfg    modelCfg
	Text   B
	Seed   int64
	Set    []optValue
	ViaNew bool
}

// flagOf gives the command's flag of every numeric option and whether it is
// a real number.
var flagOf = map[string]struct {
	flag string
	real bool
	of   string // the models that have it
}{
	"Dim":                {"dim", false, "word2vec glove lexvec"},
	"Iter":               {"iter", false, "word2vec glove lexvec"},
	"Window":             {"window", false, "word2vec glove lexvec"},
	"Goroutines":         {"goroutines", false, "word2vec glove lexvec"},
	"BatchSize":          {"batch", false, "word2vec glove lexvec"},
	"LogBatch":           {"log-batch", false, "word2vec glove lexvec"},
	"MaxCount":           {"max-count", false, "word2vec glove lexvec"},
	"MinCount":           {"min-count", false, "word2vec glove lexvec"},
	"UpdateLRBatch":      {"update-lr-batch", false, "word2vec lexvec"},
	"NegativeSampleSize": {"sample", false, "word2vec lexvec"},
	"MaxDepth":           {"max-depth", false, "word2vec"},
	"Xmax":               {"xmax", false, "glove"},
	"Initlr":             {"initlr", true, "word2vec glove lexvec"},
	"MinLR":              {"min-lr", true, "word2vec lexvec"},
	"SubsampleThreshold": {"threshold", true, "word2vec glove lexvec"},
	"Alpha":              {"alpha", true, "glove"},
	"Smooth":             {"smooth", true, "lexvec"},
}

func optValuesOf(m string) []string {
	var r []string
	for _, f := range []string{"Dim", "Iter", "Window", "Goroutines", "BatchSize", "LogBatch", "MaxCount", "MinCount", "UpdateLRBatch", "NegativeSampleSize", "MaxDepth", "Xmax", "Initlr", "MinLR", "SubsampleThreshold", "Alpha", "Smooth"} {
		if strings.Contains(flagOf[f].of, m) {
			r = append(r, f)
		}
	}
	return r
}

func genOptValue(t *rapid.T, m string) optValue {
	fs := optValuesOf(m)
	s := optValue{Field: fs[uniform(t, 0, len(fs)-1, "field")]}
	if flagOf[s.Field].real {
		s.Real = pick(t, "real", F(math.NaN()), F(math.Inf(1)), F(math.Inf(-1)), 0, -1, -0.025, F(math.Copysign(0, -1)), 1e308, -1e308, 1e10, 5e-324, 1, 1e-300, 700)
		return s
	}
	switch s.Field {
	case "LogBatch", "UpdateLRBatch", "BatchSize", "MaxCount", "MinCount", "MaxDepth", "Xmax":
		// nothing of this size is made
		s.Int = pick[int64](t, "int", 0, -1, -2, -1000, math.MinInt64, math.MinInt64+1, math.MaxInt64, math.MaxInt64-1, 1<<40, 1<<31, 1<<32, 1)
	case "Goroutines":
		s.Int = pick[int64](t, "gor", 0, -1, -2, -1000, math.MinInt64, 1, 1000, 5000)
	case "Dim":
		s.Int = pick[int64](t, "dim", 0, -1, -2, -1000, math.MinInt64, 1, 1000)
	default:
		s.Int = pick[int64](t, "int", 0, -1, -2, -1000, math.MinInt64, 1, 50)
	}
	return s
}

func genC38(t *rapid.T) any {
	c := &settingsCase{Cfg: genCfg(t), Seed: int64(uniform(t, 1, 1<<20, "seed")), ViaNew: boolean(t, "new")}
	c.Text = genText(t, 0, 40)
	tame(&c.Cfg, c.Text)
	c.Cfg.Verbose = chance(t, 3, "verbose")
	for i, n := 0, pick(t, "settings", 1, 1, 1, 2, 3); i < n; i++ {
		c.Set = append(c.Set, genOptValue(t, c.Cfg.Model))
	}
	return c
}

// effective is the configuration with the settings made.
func effective(c *settingsCase) (g modelCfg, must []string) {
	g = c.Cfg
	m := g.Model
	final := map[string]optValue{}
	for _, s := range c.Set {
		final[s.Field] = s
	}
	refuse := func(f string, b bool) {
		if _, ok := final[f]; ok && b {
			must = append(must, f)
		}
	}
	i := func(f string) int64 { return final[f].Int }
	notFinite := func(f string) bool {
		v := float64(final[f].Real)
		return math.IsNaN(v) || math.IsInf(v, 0)
	}
	refuse("Dim", i("Dim") < 1)
	refuse("Goroutines", i("Goroutines") < 1)
	refuse("LogBatch", g.Verbose && i("LogBatch") < 1)
	refuse("Initlr", notFinite("Initlr"))
	if m != "glove" {
		refuse("Window", i("Window") < 1)
		refuse("BatchSize", !g.InMemory && i("BatchSize") < 1)
		refuse("UpdateLRBatch", i("UpdateLRBatch") < 1)
		refuse("MinLR", notFinite("MinLR"))
	}
	if s, ok := final["Dim"]; ok {
		g.Dim = int(s.Int)
	}
	return g, must
}

func (s optValue) String() string {
	if flagOf[s.Field].real {
		return fmt.Sprintf("%s=%v", s.Field, float64(s.Real))
	}
	return fmt.Sprintf("%s=%d", s.Field, s.Int)
}

func (s optValue) apply(opts any) error {
	f := reflect.ValueOf(opts).Elem().FieldByName(s.Field)
	switch {
	case !f.IsValid():
		return trouble("no option %s in %T", s.Field, opts)
	case flagOf[s.Field].real:
		f.SetFloat(float64(s.Real))
	default:
		f.SetInt(s.Int)
	}
	return nil
}

func classC38(c *settingsCase, must []string, o *Obs) {
	for _, f := range must {
		o.Class("%s: must refuse %s", c.Cfg.Model, f)
	}
	o.Nontrivial = len(tokens(string(c.Text), false)) > 1 && c.Cfg.Iter > 0
}

func judgeC38(x any, o *Obs) error {
	c := x.(*settingsCase)
	g, must := effective(c)
	classC38(c, must, o)
	var serr error
	m, err := newModelWith(&c.Cfg, c.ViaNew, func(opts any) {
		for _, s := range c.Set {
			if e := s.apply(opts); e != nil {
				serr = e
			}
		}
	})
	if serr != nil {
		return serr
	}
	what := fmt.Sprintf("%s with %v", c.Cfg.Model, c.Set)
	if err == nil {
		seedRand(c.Seed)
		err = m.Train(strings.NewReader(string(c.Text)))
	}
	if err != nil {
		o.Class("refused")
		if m != nil {
			var b bytes.Buffer
			if e := m.Save(&b, vector.Single); e == nil || b.Len() > 0 {
				return bad("%s: refused with %v, but saving gives error %v and writes %q", what, err, e, clip(b.String()))
			}
		}
		return nil
	}
	if len(must) > 0 {
		return bad("%s: nothing can be trained with this %v, but training succeeds", what, must)
	}
	o.Class("trained")
	s, a, err := savedBoth(m)
	if err != nil {
		return bad("%s: saving fails: %v", what, err)
	}
	for _, saved := range [][]byte{s, a} {
		if err := judgeSaved(&g, string(c.Text), saved); err != nil {
			return bad("%s: %v", what, err)
		}
	}
	return nil
}

// args are the arguments that give the command a configuration.
func (g *modelCfg) args() []string {
	var r []string
	add := func(flag string, v any) { r = append(r, fmt.Sprintf("--%s=%v", flag, v)) }
	add("dim", g.Dim)
	add("iter", g.Iter)
	add("window", g.Window)
	add("goroutines", g.Goroutines)
	add("batch", def(g.Batch, 10000))
	add("in-memory", g.InMemory)
	add("to-lower", g.ToLower)
	add("min-count", g.Min)
	add("max-count", g.Max)
	add("threshold", float64(g.Threshold))
	add("initlr", float64(def(g.LR, 0.025)))
	add("verbose", g.Verbose)
	add("log-batch", def(g.LogBatch, 100000))
	switch g.Model {
	case "word2vec":
		add("model", def(g.Kind, "cbow"))
		add("optimizer", def(g.Opt, "ns"))
		add("max-depth", g.MaxDepth)
	case "glove":
		add("solver", def(g.Solver, "sgd"))
		add("cnt", def(g.Count, "inc"))
		add("xmax", def(g.Xmax, 100))
		// alpha has no default of its own here
		add("alpha", float64(g.Alpha))
	case "lexvec":
		add("rel", def(g.Rel, "ppmi"))
		add("smooth", float64(g.Smooth))
	}
	if g.Model != "glove" {
		add("sample", g.Neg)
		add("min-lr", float64(g.MinLR))
		add("update-lr-batch", def(g.UpdateLR, 100000))
	}
	return r
}

func judgeC38CLI(x any, o *Obs) error {
	c := x.(*settingsCase)
	g, must := effective(c)
	classC38(c, must, o)
	dir, err := caseDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	in, out := filepath.Join(dir, "in.txt"), filepath.Join(dir, "out.txt")
	if err := writeFile(in, string(c.Text)); err != nil {
		return err
	}
	args := append([]string{c.Cfg.Model, "-i", in, "-o", out}, c.Cfg.args()...)
	if c.ViaNew {
		args = append(args, "--vec-type=agg")
	}
	for _, s := range c.Set {
		v := strconv.FormatInt(s.Int, 10)
		if flagOf[s.Field].real {
			v = strconv.FormatFloat(float64(s.Real), 'g', -1, 64)
		}
		args = append(args, "--"+flagOf[s.Field].flag+"="+v)
	}
	res, err := runCLI(dir, "", nil, args...)
	if err != nil {
		return err
	}
	what := "wego " + strings.Join(append([]string{c.Cfg.Model}, args[5:]...), " ")
	saved, rerr := os.ReadFile(out)
	if res.code != 0 {
		o.Class("refused")
		if len(saved) > 0 {
			return bad("%s: exit status %d, but it wrote %q", what, res.code, clip(string(saved)))
		}
		return nil
	}
	if len(must) > 0 {
		return bad("%s: nothing can be trained with this %v, but exit status 0", what, must)
	}
	o.Class("trained")
	if rerr != nil {
		return bad("%s: exit status 0, but no vectors: %v", what, rerr)
	}
	if err := judgeSaved(&g, string(c.Text), saved); err != nil {
		return bad("%s: %v", what, err)
	}
	return nil
}

var _ = embedding.Load

func init() {
	register(&Prop{
		ID:    "C38",
		Rule:  "a configuration of any model with one to three of its numeric settings replaced by zero, a negative or an extreme value or a value that is no number, in the library and on the command line; non-trivial: an iteration over a document of two words",
		Assum: []string{"settings that ask for more memory or time than there is (a dimension or a number of goroutines or of samples of 2^63-1) are outside the property"},
		Parts: []Part{
			{Name: "library", Isolated: true, Quick: 3000, Thorough: 80000, New: func() any { return &settingsCase{} }, Gen: genC38, Judge: judgeC38},
			{Name: "command", Quick: 1000, Thorough: 25000, New: func() any { return &settingsCase{} }, Gen: genC38, Judge: judgeC38CLI},
		},
	})
}
