package main

import (
	"bytes"
	"encoding/json"
	"io"
	"math"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/spf13/cobra"
	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/word2vec"
)

// ---- C20 ----------------------------------------------------------------

// setting is one documented training setting.
type setting struct {
	flag, short, field string
	kind               byte // i, f, b, s
	def                any
	names              []string // accepted names, for kind s
}

func settingsOf(m string) []setting {
	s := []setting{
		{"batch", "", "BatchSize", 'i', 10000, nil},
		{"dim", "d", "Dim", 'i', 10, nil},
		{"goroutines", "", "Goroutines", 'i', runtime.NumCPU(), nil},
		{"in-memory", "", "DocInMemory", 'b', false, nil},
		{"initlr", "", "Initlr", 'f', 0.025, nil},
		{"iter", "", "Iter", 'i', 15, nil},
		{"log-batch", "", "LogBatch", 'i', 100000, nil},
		{"max-count", "", "MaxCount", 'i', -1, nil},
		{"min-count", "", "MinCount", 'i', 5, nil},
		{"threshold", "", "SubsampleThreshold", 'f', 0.001, nil},
		{"to-lower", "", "ToLower", 'b', false, nil},
		{"verbose", "", "Verbose", 'b', false, nil},
		{"window", "w", "Window", 'i', 5, nil},
	}
	switch m {
	case "word2vec":
		s = append(s,
			setting{"max-depth", "", "MaxDepth", 'i', 100, nil},
			setting{"min-lr", "", "MinLR", 'f', 2.5e-6, nil},
			setting{"model", "", "ModelType", 's', "cbow", []string{"cbow", "skipgram"}},
			setting{"sample", "", "NegativeSampleSize", 'i', 5, nil},
			setting{"optimizer", "", "OptimizerType", 's', "ns", []string{"ns", "hs"}},
			setting{"update-lr-batch", "", "UpdateLRBatch", 'i', 100000, nil})
	case "glove":
		s = append(s,
			setting{"alpha", "", "Alpha", 'f', 0.75, nil},
			setting{"cnt", "", "CountType", 's', "inc", []string{"inc", "prox"}},
			setting{"solver", "", "SolverType", 's', "sgd", []string{"sgd", "adagrad"}},
			setting{"xmax", "", "Xmax", 'i', 100, nil})
	case "lexvec":
		s = append(s,
			setting{"min-lr", "", "MinLR", 'f', 2.5e-6, nil},
			setting{"sample", "", "NegativeSampleSize", 'i', 5, nil},
			setting{"rel", "", "RelationType", 's', "ppmi", []string{"ppmi", "pmi", "co", "logco"}},
			setting{"smooth", "", "Smooth", 'f', 0.75, nil},
			setting{"update-lr-batch", "", "UpdateLRBatch", 'i', 100000, nil})
	}
	return s
}

// option functions by field; the booleans take no argument.
var optionFuncs = map[string]map[string]any{
	"word2vec": {"BatchSize": word2vec.BatchSize, "Dim": word2vec.Dim, "Goroutines": word2vec.Goroutines, "DocInMemory": word2vec.DocInMemory,
		"Initlr": word2vec.Initlr, "Iter": word2vec.Iter, "LogBatch": word2vec.LogBatch, "MaxCount": word2vec.MaxCount, "MinCount": word2vec.MinCount,
		"SubsampleThreshold": word2vec.SubsampleThreshold, "ToLower": word2vec.ToLower, "Verbose": word2vec.Verbose, "Window": word2vec.Window,
		"MaxDepth": word2vec.MaxDepth, "MinLR": word2vec.MinLR, "ModelType": word2vec.Model, "NegativeSampleSize": word2vec.NegativeSampleSize,
		"OptimizerType": word2vec.Optimizer, "UpdateLRBatch": word2vec.UpdateLRBatch},
	"glove": {"BatchSize": glove.BatchSize, "Dim": glove.Dim, "Goroutines": glove.Goroutines, "DocInMemory": glove.DocInMemory,
		"Initlr": glove.Initlr, "Iter": glove.Iter, "MaxCount": glove.MaxCount, "MinCount": glove.MinCount,
		"SubsampleThreshold": glove.SubsampleThreshold, "ToLower": glove.ToLower, "Verbose": glove.Verbose, "Window": glove.Window,
		"Alpha": glove.Alpha, "SolverType": glove.Solver, "Xmax": glove.Xmax},
	"lexvec": {"BatchSize": lexvec.BatchSize, "Dim": lexvec.Dim, "Goroutines": lexvec.Goroutines, "DocInMemory": lexvec.DocInMemory,
		"Initlr": lexvec.Initlr, "Iter": lexvec.Iter, "LogBatch": lexvec.LogBatch, "MaxCount": lexvec.MaxCount, "MinCount": lexvec.MinCount,
		"SubsampleThreshold": lexvec.SubsampleThreshold, "ToLower": lexvec.ToLower, "Verbose": lexvec.Verbose, "Window": lexvec.Window,
		"MinLR": lexvec.MinLR, "NegativeSampleSize": lexvec.NegativeSampleSize, "RelationType": lexvec.Relation, "Smooth": lexvec.Smooth,
		"UpdateLRBatch": lexvec.UpdateLRBatch},
}

func parseFlags(m string, args []string) (any, []string, error) {
	var rest []string
	cmd := &cobra.Command{Use: m, SilenceErrors: true, SilenceUsage: true, RunE: func(_ *cobra.Command, a []string) error { rest = a; return nil }}
	cmd.SetOut(io.Discard)
	cmd.SetErr(io.Discard)
	cmd.SetArgs(append([]string{}, args...))
	switch m {
	case "word2vec":
		var o word2vec.Options
		word2vec.LoadForCmd(cmd, &o)
		err := cmd.Execute()
		return o, rest, err
	case "glove":
		var o glove.Options
		glove.LoadForCmd(cmd, &o)
		err := cmd.Execute()
		return o, rest, err
	default:
		var o lexvec.Options
		lexvec.LoadForCmd(cmd, &o)
		err := cmd.Execute()
		return o, rest, err
	}
}

func defaultsOf(m string) any {
	switch m {
	case "word2vec":
		return word2vec.DefaultOptions()
	case "glove":
		return glove.DefaultOptions()
	}
	return lexvec.DefaultOptions()
}

// fieldsOf reads the exported fields of an options value.
func fieldsOf(o any) map[string]any {
	r := map[string]any{}
	v := reflect.ValueOf(o)
	for i := 0; i < v.NumField(); i++ {
		if f := v.Type().Field(i); f.IsExported() {
			r[f.Name] = v.Field(i).Interface()
		}
	}
	return r
}

func compareOptions(what string, got, want map[string]any) error {
	var names []string
	for n := range want {
		names = append(names, n)
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		g, okG := got[n]
		w, okW := want[n]
		if !okW {
			continue // a setting this check knows nothing about
		}
		if !okG {
			return bad("%s: there is no setting %s", what, n)
		}
		if g != w {
			a, okA := g.(float64)
			b, okB := w.(float64)
			if okA && okB && math.Abs(a-b) <= 1e-15*math.Abs(b) {
				continue
			}
			return bad("%s: %s is %v, want %v", what, n, g, w)
		}
	}
	return nil
}

type flagCase struct {
	Model string
	Args  []string
	Names []string // fields set, in order
	Vals  []string
	Bad   bool
}

func genFlagValue(t *rapid.T, s setting) string {
	switch s.kind {
	case 'i':
		return strconv.Itoa(pick(t, "i", 0, 1, 2, 3, 7, 10, 42, 1000, 100000, -1, 1<<31, -5))
	case 'f':
		return pick(t, "f", "0", "1", "0.5", "0.1", "1e-5", "2.5e-06", "3", "-0.25", "1e3", ".5", "0.0001")
	case 'b':
		return pick(t, "b", "true", "false", "true", "1", "0", "T", "F", "TRUE")
	}
	return pick(t, "s", append([]string{"other", "", "CBOW"}, append(s.names, s.names...)...)...)
}

func genC20Flags(t *rapid.T) any {
	c := &flagCase{Model: pick(t, "model", "word2vec", "glove", "lexvec")}
	ss := settingsOf(c.Model)
	n := pick(t, "n", 0, 1, 1, 2, 3, 5, 8, 20)
	badAt := -1
	if n > 0 && chance(t, 5, "bad") {
		badAt = intIn(t, 0, n-1, "badat")
		c.Bad = true
	}
	for i := 0; i < n; i++ {
		s := ss[intIn(t, 0, len(ss)-1, "flag")]
		v := genFlagValue(t, s)
		if i == badAt {
			if s.kind == 's' {
				s = ss[intIn(t, 0, 12, "flag2")]
			}
			switch {
			case s.kind == 's' || chance(t, 5, "unknown"):
				c.Args = append(c.Args, pick(t, "unk", "--no-such", "--Dim=3", "-z", "--dims=4", "--", "--=3")+"")
				if c.Args[len(c.Args)-1] == "--" { // what follows is not parsed: refuse to guess
					c.Args[len(c.Args)-1] = "--nope"
				}
			case s.kind == 'b':
				c.Args = append(c.Args, "--"+s.flag+"="+pick(t, "badb", "maybe", "2", "yes", "on"))
			case s.kind == 'i':
				c.Args = append(c.Args, "--"+s.flag+"="+pick(t, "badi", "ten", "1.5", "1e3", "99999999999999999999", "5x", "--1", " 3"))
			default:
				c.Args = append(c.Args, "--"+s.flag+"="+pick(t, "badf", "x", "0.5.1", "1,5", "0x", "1e", "--1"))
			}
			continue
		}
		c.Names, c.Vals = append(c.Names, s.field), append(c.Vals, v)
		switch {
		case s.kind == 'b' && v == "true" && boolean(t, "bare"):
			c.Args = append(c.Args, "--"+s.flag)
		case s.kind == 'b':
			c.Args = append(c.Args, "--"+s.flag+"="+v)
		case s.short != "" && boolean(t, "short"):
			switch form := intIn(t, 0, 2, "sform"); form {
			case 0:
				c.Args = append(c.Args, "-"+s.short, v)
			case 1:
				c.Args = append(c.Args, "-"+s.short+v)
			case 2:
				c.Args = append(c.Args, "-"+s.short+"="+v)
			}
		case boolean(t, "eq"):
			c.Args = append(c.Args, "--"+s.flag+"="+v)
		default:
			c.Args = append(c.Args, "--"+s.flag, v)
		}
	}
	return c
}

func wantOptions(c *flagCase) map[string]any {
	want := map[string]any{}
	kinds := map[string]byte{}
	for _, s := range settingsOf(c.Model) {
		want[s.field], kinds[s.field] = s.def, s.kind
	}
	for i, n := range c.Names {
		switch kinds[n] {
		case 'i':
			want[n], _ = strconv.Atoi(c.Vals[i])
		case 'f':
			want[n], _ = strconv.ParseFloat(c.Vals[i], 64)
		case 'b':
			want[n], _ = strconv.ParseBool(c.Vals[i])
		case 's':
			want[n] = c.Vals[i]
		}
	}
	return want
}

func judgeC20Flags(x any, o *Obs) error {
	c := x.(*flagCase)
	if err := compareOptions(c.Model+" default options", fieldsOf(defaultsOf(c.Model)), wantOptions(&flagCase{Model: c.Model})); err != nil {
		return err
	}
	got, _, err := parseFlags(c.Model, c.Args)
	o.Nontrivial = len(c.Args) > 0
	o.ClassIf(c.Bad, "malformed")
	o.Class("%s", c.Model)
	if c.Bad {
		if err == nil {
			return bad("%s %q is accepted", c.Model, c.Args)
		}
		return nil
	}
	if err != nil {
		return bad("%s %q is refused: %v", c.Model, c.Args, err)
	}
	return compareOptions(c.Model+" "+strings.Join(c.Args, " "), fieldsOf(got), wantOptions(c))
}

// -- option functions

func genC20Options(t *rapid.T) any {
	c := &flagCase{Model: pick(t, "model", "word2vec", "glove", "lexvec")}
	var ss []setting
	for _, s := range settingsOf(c.Model) {
		if optionFuncs[c.Model][s.field] != nil {
			ss = append(ss, s)
		}
	}
	for i, n := 0, pick(t, "n", 0, 1, 1, 2, 3, 5, 8, 20); i < n; i++ {
		s := ss[intIn(t, 0, len(ss)-1, "opt")]
		v := "true"
		if s.kind != 'b' {
			v = genFlagValue(t, s)
		}
		c.Names, c.Vals = append(c.Names, s.field), append(c.Vals, v)
	}
	return c
}

func applyOptions(c *flagCase) (any, error) {
	opts := reflect.New(reflect.TypeOf(defaultsOf(c.Model)))
	opts.Elem().Set(reflect.ValueOf(defaultsOf(c.Model)))
	for _, f := range optionValues(c) {
		f.Call([]reflect.Value{opts})
	}
	return opts.Elem().Interface(), nil
}

func optionValues(c *flagCase) []reflect.Value {
	var r []reflect.Value
	for i, n := range c.Names {
		f := reflect.ValueOf(optionFuncs[c.Model][n])
		var in []reflect.Value
		if f.Type().NumIn() == 1 {
			at := f.Type().In(0)
			switch at.Kind() {
			case reflect.Int:
				v, _ := strconv.Atoi(c.Vals[i])
				in = []reflect.Value{reflect.ValueOf(v).Convert(at)}
			case reflect.Float64:
				v, _ := strconv.ParseFloat(c.Vals[i], 64)
				in = []reflect.Value{reflect.ValueOf(v).Convert(at)}
			default:
				in = []reflect.Value{reflect.ValueOf(c.Vals[i]).Convert(at)}
			}
		}
		r = append(r, f.Call(in)[0])
	}
	return r
}

func judgeC20Options(x any, o *Obs) error {
	c := x.(*flagCase)
	o.Nontrivial = len(c.Names) > 0
	o.Class("%s", c.Model)
	got, err := applyOptions(c)
	if err != nil {
		return err
	}
	what := c.Model + " options"
	for i := range c.Names {
		what += " " + c.Names[i] + "(" + c.Vals[i] + ")"
	}
	return compareOptions(what, fieldsOf(got), wantOptions(c))
}

// -- New(options...) is the model those options describe

type newCase struct {
	Text  B
	Flag  flagCase
	Typ   string
	Seed  int64
	Order bool // options reversed in one of the two
}

func genC20New(t *rapid.T) any {
	c := &newCase{Text: genText(t, 2, 40), Typ: pick(t, "typ", "single", "agg"), Seed: int64(intIn(t, 1, 1000, "seed"))}
	m := pick(t, "model", "word2vec", "glove", "lexvec")
	c.Flag.Model = m
	set := func(n, v string) { c.Flag.Names, c.Flag.Vals = append(c.Flag.Names, n), append(c.Flag.Vals, v) }
	maybe := func(n string, vs ...string) {
		if intIn(t, 0, 2, n+"?") > 0 {
			set(n, pick(t, n, vs...))
		}
	}
	set("Goroutines", "1")
	maybe("Dim", "1", "3", "7")
	maybe("Iter", "0", "1", "3")
	maybe("Window", "1", "2", "4")
	maybe("MinCount", "0", "1", "2")
	maybe("MaxCount", "-1", "2", "5")
	maybe("SubsampleThreshold", "0", "2")
	maybe("DocInMemory", "true")
	maybe("ToLower", "true")
	maybe("BatchSize", "1000")
	if m == "glove" {
		set("Initlr", "1e-5")
		maybe("SolverType", "sgd")
		maybe("Xmax", "1", "3")
		maybe("Alpha", "0.5", "1")
	} else {
		maybe("Initlr", "0.05", "0.01")
		maybe("MinLR", "0.005")
		maybe("NegativeSampleSize", "0", "1", "3")
	}
	switch m {
	case "word2vec":
		maybe("ModelType", "cbow", "skipgram")
		maybe("OptimizerType", "ns", "hs")
		maybe("MaxDepth", "0", "1", "2")
	case "lexvec":
		maybe("RelationType", "ppmi", "pmi", "logco")
		maybe("Smooth", "0.5", "1")
	}
	return c
}

type newAux struct {
	C       newCase
	Options bool
}

func auxNew(in []byte) any {
	a := &newAux{}
	if err := json.Unmarshal(in, a); err != nil {
		return quietResult{Err: "harness: " + err.Error()}
	}
	var r quietResult
	var m model.Model
	var err error
	c := &a.C.Flag
	if a.Options {
		vals := optionValues(c)
		var nf reflect.Value
		switch c.Model {
		case "word2vec":
			nf = reflect.ValueOf(word2vec.New)
		case "glove":
			nf = reflect.ValueOf(glove.New)
		default:
			nf = reflect.ValueOf(lexvec.New)
		}
		out := nf.Call(vals)
		if !out[1].IsNil() {
			err = out[1].Interface().(error)
		} else {
			m = out[0].Interface().(model.Model)
		}
	} else {
		w := wantOptions(c)
		set := func(o any) {
			v := reflect.ValueOf(o).Elem()
			for n, x := range w {
				v.FieldByName(n).Set(reflect.ValueOf(x))
			}
		}
		switch c.Model {
		case "word2vec":
			o := word2vec.Options{}
			set(&o)
			m, err = word2vec.NewForOptions(o)
		case "glove":
			o := glove.Options{}
			set(&o)
			m, err = glove.NewForOptions(o)
		default:
			o := lexvec.Options{}
			set(&o)
			m, err = lexvec.NewForOptions(o)
		}
	}
	if err != nil {
		r.Err = err.Error()
		return r
	}
	seedRand(a.C.Seed)
	if err := m.Train(strings.NewReader(string(a.C.Text))); err != nil {
		r.Err = err.Error()
		return r
	}
	for _, row := range rowsOf(m.WordVector(a.C.Typ)) {
		var f []F
		for _, v := range row {
			f = append(f, F(v))
		}
		r.Rows = append(r.Rows, f)
	}
	return r
}

func init() { auxFuncs["new"] = auxNew }

func judgeC20New(x any, o *Obs) error {
	c := x.(*newCase)
	var a, b quietResult
	if err := runAux("new", &newAux{*c, true}, &a); err != nil {
		return err
	}
	if err := runAux("new", &newAux{*c, false}, &b); err != nil {
		return err
	}
	o.Nontrivial = len(refFields(string(c.Text))) >= 2
	what := c.Flag.Model + " New"
	for i := range c.Flag.Names {
		what += " " + c.Flag.Names[i] + "(" + c.Flag.Vals[i] + ")"
	}
	if (a.Err == "") != (b.Err == "") {
		return bad("%s: error %q; NewForOptions with the same settings: %q", what, a.Err, b.Err)
	}
	if len(a.Rows) != len(b.Rows) {
		return bad("%s: %d vectors; NewForOptions with the same settings: %d", what, len(a.Rows), len(b.Rows))
	}
	tol := 1e-9
	if c.Flag.Model == "glove" {
		tol = 2e-3
	}
	for i := range a.Rows {
		if len(a.Rows[i]) != len(b.Rows[i]) {
			return bad("%s: vectors of %d values; NewForOptions with the same settings: %d", what, len(a.Rows[i]), len(b.Rows[i]))
		}
		for j := range a.Rows[i] {
			if !near(float64(a.Rows[i][j]), float64(b.Rows[i][j]), tol) {
				return bad("%s: value %d of vector %d is %v; NewForOptions with the same settings: %v", what, j, i, a.Rows[i][j], b.Rows[i][j])
			}
		}
	}
	return nil
}

// -- the commands use the options their flags were parsed into

func judgeC20Help(x any, o *Obs) error {
	c := x.(*flagCase)
	dir, err := caseDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	if err := writeFile(dir+"/in.txt", "a b c a b"); err != nil {
		return err
	}
	res, err := runCLI(dir, "", nil, append([]string{c.Model, "-i", "in.txt", "-o", "out.txt", "--iter=0", "--goroutines=1"}, c.Args...)...)
	if err != nil {
		return err
	}
	o.Nontrivial = true
	o.Class("%s", c.Model)
	if c.Bad {
		if res.code == 0 {
			return bad("wego %s %q exits 0", c.Model, c.Args)
		}
		if _, err := os.Stat(dir + "/out.txt"); err == nil {
			return bad("wego %s %q is refused but writes the output", c.Model, c.Args)
		}
		return nil
	}
	if res.code != 0 {
		return bad("wego %s %q exits %d: %s", c.Model, c.Args, res.code, clip(res.err))
	}
	b, rerr := os.ReadFile(dir + "/out.txt")
	if rerr != nil {
		return bad("wego %s %q: %v", c.Model, c.Args, rerr)
	}
	dim := wantOptions(c)["Dim"].(int)
	for _, l := range bytes.Split(bytes.TrimSpace(b), []byte("\n")) {
		if n := len(bytes.Fields(l)) - 1; n != dim {
			return bad("wego %s %q writes %d values per word, want %d", c.Model, c.Args, n, dim)
		}
	}
	return nil
}

func genC20CLI(t *rapid.T) any {
	for {
		c := genC20Flags(t).(*flagCase)
		if c.Bad {
			return c
		}
		// only values that make a valid configuration
		c.Args, c.Names, c.Vals = nil, nil, nil
		for _, s := range settingsOf(c.Model) {
			if !boolean(t, "give") {
				continue
			}
			v := ""
			switch s.flag {
			case "dim":
				v = strconv.Itoa(intIn(t, 1, 9, "dim"))
			case "iter", "goroutines":
				continue
			case "verbose", "in-memory", "to-lower":
				v = "true"
			default:
				switch s.kind {
				case 'i':
					v = strconv.Itoa(intIn(t, 1, 9, "i"))
				case 'f':
					v = "0.5"
				case 's':
					v = pick(t, "s", s.names...)
				}
			}
			c.Names, c.Vals = append(c.Names, s.field), append(c.Vals, v)
			if s.short != "" && boolean(t, "short") {
				c.Args = append(c.Args, "-"+s.short, v)
			} else {
				c.Args = append(c.Args, "--"+s.flag+"="+v)
			}
		}
		return c
	}
}

func init() {
	newF := func() any { return &flagCase{} }
	register(&Prop{
		ID:    "C20",
		Rule:  "flags in any order, form and repetition, and option functions, against the documented table of settings and defaults (fields compared by name); New(options) is compared with NewForOptions by training, the wego binary by its output; non-trivial: at least one flag or option",
		Assum: []string{"a flag given twice takes its last value"},
		Parts: []Part{
			{Name: "flags", Quick: 40000, Thorough: 600000, New: newF, Gen: genC20Flags, Judge: judgeC20Flags},
			{Name: "options", Quick: 20000, Thorough: 300000, New: newF, Gen: genC20Options, Judge: judgeC20Options},
			{Name: "new", Quick: 800, Thorough: 12000, New: func() any { return &newCase{} }, Gen: genC20New, Judge: judgeC20New},
			{Name: "command", Quick: 800, Thorough: 12000, New: newF, Gen: genC20CLI, Judge: judgeC20Help},
		},
	})
}
