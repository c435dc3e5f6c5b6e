package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
)

// ---- C21 ----------------------------------------------------------------

type cmdCase struct {
	Text    B
	Cfg     modelCfg
	Flags   []string // training flags as given on the command line
	Typ     string   // "" = flag not given
	Input   string   // path; "" = default
	Output  string   // path; "" = default
	Abs     bool     // give absolute paths
	Prof    bool
	Refuse  string
	Content B      // of an existing output file
	How     string // what makes training fail (Refuse "train")
	Room    int    // selects how much of the output can be written (Refuse "no-space")
}

// genTrainFlags draws a configuration together with the flags that say it.
// Batches and learning-rate updates stay larger than the corpora: what they
// do within a pass depends on the schedule even with one goroutine.
func genTrainFlags(t *rapid.T, model string) (modelCfg, []string) {
	c := modelCfg{Model: model, Goroutines: 1, Dim: 10, Iter: 15, Window: 5, Min: 5, Max: -1, Threshold: 0.001, LR: 0.025}
	flags := []string{"--goroutines=1"}
	give := func(name string, set func() string) {
		if intIn(t, 0, 2, name+"?") > 0 {
			v := set()
			if len(name) == 1 {
				flags = append(flags, "-"+name, v)
			} else {
				flags = append(flags, "--"+name+"="+v)
			}
		}
	}
	num := strconv.Itoa
	real := func(f F) string { return strconv.FormatFloat(float64(f), 'g', -1, 64) }
	give(pick(t, "dimname", "d", "dim"), func() string { c.Dim = intIn(t, 1, 12, "dim"); return num(c.Dim) })
	give("iter", func() string { c.Iter = intIn(t, 0, 4, "iter"); return num(c.Iter) })
	give(pick(t, "winname", "w", "window"), func() string { c.Window = intIn(t, 1, 6, "win"); return num(c.Window) })
	give("min-count", func() string { c.Min = intIn(t, 0, 3, "min"); return num(c.Min) })
	give("max-count", func() string { c.Max = pick(t, "max", -1, 2, 4); return num(c.Max) })
	give("batch", func() string { c.Batch = pick(t, "batch", 1000, 5000); return num(c.Batch) })
	give("threshold", func() string { c.Threshold = pick(t, "thr", F(0), F(2)); return real(c.Threshold) })
	if boolean(t, "mem") {
		c.InMemory = true
		flags = append(flags, "--in-memory")
	}
	if boolean(t, "low") {
		c.ToLower = true
		flags = append(flags, "--to-lower")
	}
	if chance(t, 4, "verbose") {
		flags = append(flags, "--verbose", "--log-batch=3")
	}
	c.LR = 0.01
	if model == "glove" {
		c.LR = 1e-5 // the pair order is random: keep its effect negligible
	}
	flags = append(flags, "--initlr="+real(c.LR))
	switch model {
	case "word2vec":
		c.Kind, c.Opt, c.Neg, c.MaxDepth, c.MinLR = "cbow", "ns", 5, 100, 2.5e-6
		give("model", func() string { c.Kind = pick(t, "kind", "cbow", "skipgram"); return c.Kind })
		give("optimizer", func() string { c.Opt = pick(t, "opt", "ns", "hs"); return c.Opt })
		give("sample", func() string { c.Neg = intIn(t, 0, 4, "neg"); return num(c.Neg) })
		give("max-depth", func() string { c.MaxDepth = intIn(t, 0, 3, "depth"); return num(c.MaxDepth) })
		give("min-lr", func() string { c.MinLR = pick(t, "minlr", F(0.001), F(0.01)); return real(c.MinLR) })
		give("update-lr-batch", func() string { c.UpdateLR = pick(t, "upd", 1000, 5000); return num(c.UpdateLR) })
	case "glove":
		c.Solver, c.Count, c.Xmax, c.Alpha = "sgd", "inc", 100, 0.75
		give("cnt", func() string { c.Count = pick(t, "cnt", "inc", "prox"); return c.Count })
		give("xmax", func() string { c.Xmax = intIn(t, 1, 5, "xmax"); return num(c.Xmax) })
		give("alpha", func() string { c.Alpha = pick(t, "alpha", F(0.5), F(1)); return real(c.Alpha) })
	case "lexvec":
		c.Rel, c.Neg, c.Smooth, c.MinLR = "ppmi", 5, 0.75, 2.5e-6
		give("rel", func() string { c.Rel = pick(t, "rel", "ppmi", "pmi", "logco"); return c.Rel })
		give("sample", func() string { c.Neg = intIn(t, 0, 4, "neg"); return num(c.Neg) })
		give("smooth", func() string { c.Smooth = pick(t, "smooth", F(0.5), F(1)); return real(c.Smooth) })
		give("min-lr", func() string { c.MinLR = pick(t, "minlr", F(0.001), F(0.01)); return real(c.MinLR) })
		give("update-lr-batch", func() string { c.UpdateLR = pick(t, "upd", 1000, 5000); return num(c.UpdateLR) })
	}
	return c, flags
}

func genC21(t *rapid.T) any {
	c := &cmdCase{Text: genText(t, 0, 60)}
	c.Cfg, c.Flags = genTrainFlags(t, pick(t, "model", "word2vec", "glove", "lexvec"))
	c.Typ = pick(t, "typ", "", "single", "agg", "agg")
	c.Input = pick(t, "in", "", "corpus.txt", "data/x/corpus.txt")
	c.Output = pick(t, "out", "", "vec.txt", "./vec.txt", "new/vec.txt", "a/b/c/vec", "data/vec.txt", "a/../vec.txt")
	c.Abs, c.Prof = boolean(t, "abs"), chance(t, 8, "prof")
	if intIn(t, 0, 2, "ref") == 2 {
		c.Refuse = pick(t, "refuse", "exists", "exists", "exists-empty", "exists-dir", "exists-link", "exists-fifo", "exists-null", "same", "missing", "missing", "missing-dir", "both", "badtype", "badflag", "badvalue", "train", "train", "train", "under-file", "no-space", "no-space", "no-space")
		c.Room = uniform(t, 0, 1<<20, "room")
		c.Content = pick(t, "content", B("precious data\n"), B("a 1 2\nb 3 4\n"), B("\x00\x01"))
	}
	if c.Refuse == "train" {
		// Training itself fails: an unknown component, or a corpus that
		// cannot be read to its end.
		how := []string{"directory", "longword"}
		switch c.Cfg.Model {
		case "word2vec":
			how = append(how, "--model=", "--optimizer=")
		case "glove":
			how = append(how, "--solver=", "--cnt=")
		case "lexvec":
			how = append(how, "--rel=")
		}
		c.How = pick(t, "how", how...)
		if strings.HasPrefix(c.How, "--") {
			c.Flags = append(c.Flags, c.How+pick(t, "name", "nosuch", "", "NS", "cbow2"))
			c.Text = "qa qb " + c.Text // one word alone may not need the component
		}
	}
	return c
}

const (
	defIn  = "example/input.txt"
	defOut = "example/word_vectors.txt"
)

var (
	calibrate  sync.Mutex
	calibrated = map[string]bool{}
)

var cliEnv = []string{"GODEBUG=randautoseed=0"}

// sameDraws says whether the command, run with one goroutine and automatic
// seeding switched off, draws the random numbers the library draws in a fresh
// process. Only then can its vectors be compared with the library's.
func sameDraws(model string) (bool, error) {
	calibrate.Lock()
	defer calibrate.Unlock()
	if v, ok := calibrated[model]; ok {
		return v, nil
	}
	dir, err := caseDir()
	if err != nil {
		return false, err
	}
	defer os.RemoveAll(dir)
	text := "a b c d a b c d a a b e f"
	if err := writeFile(filepath.Join(dir, defIn), text); err != nil {
		return false, err
	}
	cfg := modelCfg{Model: model, Goroutines: 1, Dim: 10, Iter: 0, Window: 5, Min: 5, Max: -1, Threshold: 0.001, LR: 0.025, Neg: 5, MaxDepth: 100, MinLR: 2.5e-6, Alpha: 0.75, Smooth: 0.75}
	ok := true
	for i := 0; i < 2 && ok; i++ {
		os.Remove(filepath.Join(dir, defOut))
		res, err := runCLI(dir, "", cliEnv, model, "--goroutines=1", "--iter=0")
		if err != nil {
			return false, err
		}
		if res.code != 0 {
			return false, nil // decided by the cases themselves
		}
		got, err := os.ReadFile(filepath.Join(dir, defOut))
		if err != nil {
			return false, nil
		}
		want, err := libraryOutput(&cfg, text, vector.Single)
		if err != nil {
			return false, err
		}
		ok = bytes.Equal(got, want)
	}
	calibrated[model] = ok
	return ok, nil
}

func libraryOutput(cfg *modelCfg, text, typ string) ([]byte, error) {
	var r quietResult
	os.Setenv("GODEBUG", "randautoseed=0")
	err := runAux("plain", &quietCase{Text: B(text), Cfg: *cfg, Typ: typ}, &r)
	os.Unsetenv("GODEBUG")
	if err != nil {
		return nil, err
	}
	if r.Err != "" {
		return nil, bad("the library fails on the same input: %s", r.Err)
	}
	return r.Saved, nil
}

// auxPlain trains without touching the random number generators.
func auxPlain(in []byte) any {
	c := &quietCase{}
	if err := json.Unmarshal(in, c); err != nil {
		return quietResult{Err: "harness: " + err.Error()}
	}
	var r quietResult
	m, err := newModel(&c.Cfg)
	if err == nil {
		err = m.Train(strings.NewReader(string(c.Text)))
	}
	var buf bytes.Buffer
	if err == nil {
		err = m.Save(&buf, c.Typ)
	}
	if err != nil {
		r.Err = err.Error()
	}
	r.Saved = buf.Bytes()
	return r
}

func init() { auxFuncs["plain"] = auxPlain }

func listFiles(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

func judgeC21(x any, o *Obs) error {
	c := x.(*cmdCase)
	dir, err := caseDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	in, out := def(c.Input, defIn), def(c.Output, defOut)
	switch c.Refuse {
	case "same":
		out = in
	case "under-file":
		out = in + "/vec.txt"
	}
	refuse, env := c.Refuse, cliEnv
	if refuse == "no-space" {
		// Files cannot grow to the size the vectors have at least: a value
		// takes eight bytes and a space.
		order, _ := firstAppearance(tokens(string(c.Text), c.Cfg.ToLower))
		if least := len(order) * c.Cfg.Dim * 9; least == 0 {
			refuse = ""
		} else {
			env = append(env[:len(env):len(env)], fmt.Sprintf("WV_FSIZE=%d", c.Room%least))
			if c.Room&1 == 0 { // short of the end
				env[len(env)-1] = fmt.Sprintf("WV_FSIZE=%d", least-1-c.Room%min(least, 40))
			}
		}
	}
	inPath, outPath := filepath.Join(dir, in), filepath.Join(dir, out)
	if err := os.MkdirAll(filepath.Join(dir, "a"), 0o755); err != nil { // for a/../vec.txt
		return trouble("%v", err)
	}
	switch c.Refuse {
	case "missing", "both":
	case "train":
		switch c.How {
		case "directory":
			err = os.MkdirAll(inPath, 0o755)
		case "longword":
			err = writeFile(inPath, string(c.Text)+" "+strings.Repeat("x", 70000)+" "+string(c.Text))
		default:
			err = writeFile(inPath, string(c.Text))
		}
		if err != nil {
			return err
		}
	case "missing-dir":
		in = "nowhere/at/all.txt"
		inPath = filepath.Join(dir, in)
	default:
		if err := writeFile(inPath, string(c.Text)); err != nil {
			return err
		}
	}
	content := string(c.Content)
	switch c.Refuse {
	case "exists", "both":
		err = writeFile(outPath, content)
	case "exists-empty":
		err = writeFile(outPath, "")
	case "exists-dir":
		err = os.MkdirAll(outPath, 0o755)
	case "exists-link":
		if err = writeFile(filepath.Join(dir, "target.txt"), content); err == nil {
			if err = os.MkdirAll(filepath.Dir(outPath), 0o755); err == nil {
				err = os.Symlink(filepath.Join(dir, "target.txt"), outPath)
			}
		}
	}
	fifo := -1 // kept open so that a writer does not wait for a reader
	switch c.Refuse {
	case "exists-fifo":
		if err = os.MkdirAll(filepath.Dir(outPath), 0o755); err == nil {
			if err = syscall.Mkfifo(outPath, 0o644); err == nil {
				if fifo, err = syscall.Open(outPath, syscall.O_RDWR|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0); err == nil {
					defer syscall.Close(fifo)
				}
			}
		}
	case "exists-null": // a link, so that nothing can happen to the device
		if err = os.MkdirAll(filepath.Dir(outPath), 0o755); err == nil {
			err = os.Symlink(os.DevNull, outPath)
		}
	}
	if err != nil {
		return trouble("%v", err)
	}
	exists := strings.HasPrefix(c.Refuse, "exists")
	var kind os.FileMode
	if exists {
		fi, err := os.Lstat(outPath)
		if err != nil {
			return trouble("%v", err)
		}
		kind = fi.Mode().Type()
	}
	args := []string{c.Cfg.Model}
	arg := func(name, long, v string) {
		if c.Abs {
			v = filepath.Join(dir, v)
		}
		if len(v)%2 == 0 {
			args = append(args, name, v)
		} else {
			args = append(args, long, v)
		}
	}
	if c.Input != "" || in != defIn {
		arg("-i", "--input", in)
	}
	if c.Output != "" || out != defOut {
		arg("-o", "--output", out)
	}
	args = append(args, c.Flags...)
	typ := def(c.Typ, vector.Single)
	switch {
	case c.Refuse == "badtype":
		args = append(args, "--vec-type", "context")
	case c.Typ != "":
		args = append(args, "--vec-type", c.Typ)
	}
	if c.Prof && refuse != "no-space" {
		args = append(args, "--prof")
	}
	switch c.Refuse {
	case "badflag":
		args = append(args, "--no-such-flag")
	case "badvalue":
		args = append(args, "--iter=many")
	}
	before := listFiles(dir)
	res, err := runCLI(dir, "", env, args...)
	if err != nil {
		return err
	}
	after := listFiles(dir)
	what := fmt.Sprintf("wego %q", args)
	for name, text := range before {
		got, ok := after[name]
		if !ok {
			return bad("%s (%s) removed the file %s", what, c.Refuse, name)
		}
		if got != text {
			return bad("%s (%s) changed the existing file %s from %q to %q", what, c.Refuse, name, clip(text), clip(got))
		}
	}
	o.Class("%s", c.Cfg.Model)
	if exists {
		fi, err := os.Lstat(outPath)
		if err != nil || fi.Mode().Type() != kind {
			return bad("%s (%s) replaced or removed what was at the output path (%v)", what, c.Refuse, err)
		}
		if fifo >= 0 {
			buf := make([]byte, 4096)
			if n, _ := syscall.Read(fifo, buf); n > 0 {
				return bad("%s (%s) wrote %q to it", what, c.Refuse, clip(string(buf[:n])))
			}
		}
	}
	if refuse != "" {
		o.Class("refuse: %s", c.Refuse)
		o.Nontrivial = true
		o.ClassIf(c.How != "", "training fails: "+c.How)
		if res.code == 0 {
			return bad("%s (%s%s) exits 0", what, c.Refuse, c.How)
		}
		if c.Refuse == "train" {
			if b, err := os.ReadFile(outPath); err == nil && len(b) > 0 {
				return bad("%s (training fails: %s) exits %d and writes %q", what, c.How, res.code, clip(string(b)))
			}
		}
		if strings.HasPrefix(c.Refuse, "missing") || c.Refuse == "under-file" || c.Refuse == "badflag" || c.Refuse == "badvalue" {
			for name := range after {
				if _, ok := before[name]; !ok && !c.Prof {
					return bad("%s (%s) created %s", what, c.Refuse, name)
				}
			}
			if _, err := os.Lstat(outPath); err == nil {
				return bad("%s (%s) created the output", what, c.Refuse)
			}
		}
		return nil
	}
	if res.code != 0 {
		return bad("%s exits %d: %s", what, res.code, clip(res.err))
	}
	got, rerr := os.ReadFile(outPath)
	if rerr != nil {
		return bad("%s exits 0 without an output file: %v", what, rerr)
	}
	order, _ := firstAppearance(tokens(string(c.Text), c.Cfg.ToLower))
	embs, lerr := embedding.Load(bytes.NewReader(got))
	if lerr != nil {
		return bad("%s: the output does not load: %v", what, lerr)
	}
	if len(embs) != len(order) {
		return bad("%s: %d vectors for %d distinct words", what, len(embs), len(order))
	}
	for i, e := range embs {
		if e.Word != order[i] || e.Dim != c.Cfg.Dim {
			return bad("%s: vector %d is for %q with dimension %d, want %q with %d", what, i, e.Word, e.Dim, order[i], c.Cfg.Dim)
		}
	}
	o.Nontrivial = len(order) >= 2
	ok, err := sameDraws(c.Cfg.Model)
	if err != nil {
		return err
	}
	o.ClassIf(!ok, "vectors not compared")
	if !ok {
		return nil
	}
	lib, err := libraryOutput(&c.Cfg, string(c.Text), typ)
	if err != nil {
		return err
	}
	want, lerr := embedding.Load(bytes.NewReader(lib))
	if lerr != nil || len(want) != len(embs) {
		return bad("the library's vectors for the same input do not load: %v", lerr)
	}
	o.Class("vectors compared")
	tol := 1e-4
	if c.Cfg.Model == "glove" {
		tol = 2e-3
	}
	for i := range want {
		for j := range want[i].Vector {
			if a, b := embs[i].Vector[j], want[i].Vector[j]; !(math.Abs(a-b) <= tol) {
				return bad("%s: value %d of %q is %v; the library with these settings (%s vectors) gives %v", what, j, order[i], a, typ, b)
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:    "C21",
		Rule:  "the wego binary is run in scratch directories on generated corpora, flags and path layouts; non-trivial: a run that must be refused, or a corpus of at least two distinct words",
		Assum: []string{"vectors are compared with the library's only where command and library draw the same random numbers (calibrated at the start; automatic seeding off, one goroutine)"},
		Parts: []Part{{Name: "train", Quick: 1600, Thorough: 30000, New: func() any { return &cmdCase{} }, Gen: genC21, Judge: judgeC21}},
	})
}
