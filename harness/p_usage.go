package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// ---- C41 ----------------------------------------------------------------
//
// A command line that cannot be understood, or names what is not there,
// changes nothing in the file system, says why and exits non-zero; asking for
// help and querying change nothing either. The commands run in a directory
// where carrying on after the mistake would leave a mark.

type usageCase struct {
	Kind string // what is wrong with the line, or "help", "ask", "talk"
	Args []string
	Set  embSet // example/word_vectors.txt, for the commands that read it
	NoIn bool   // there is no example/input.txt
	Vecs string // "", "missing", "malformed", "lengths", "empty": the vector file
	Want []string
	Word string
	Line string // typed into the console
}

var commandNames = []string{"word2vec", "glove", "lexvec", "query", "console"}

func genUsage(t *rapid.T) any {
	c := &usageCase{Set: genCLISet(t, 1, 8)}
	c.Set.Words[0] = B(pick(t, "word", "king", "apple", "日本"))
	for i := range c.Set.Words[1:] {
		if string(c.Set.Words[i+1]) == string(c.Set.Words[0]) {
			c.Set.Words[i+1] += "x"
		}
	}
	c.Word = string(c.Set.Words[0])
	c.Line = c.Word + "\n"
	model := pick(t, "model", "word2vec", "glove", "lexvec")
	any1 := pick(t, "any", append(commandNames, commandNames...)...)
	reader := pick(t, "reader", "query", "console")
	// A line each command would carry out.
	good := func(cmd string) []string {
		switch cmd {
		case "query":
			return []string{"query", c.Word}
		case "console":
			return []string{"console"}
		}
		r := []string{cmd, "--iter=0", "--goroutines=1", "--min-count=0"}
		if boolean(t, "o") {
			r = append(r, "-o", pick(t, "out", "vec.txt", "new/vec.txt", "example/other.txt"))
		}
		return r
	}
	insert := func(args []string, xs ...string) []string {
		at := intIn(t, 1, len(args), "at")
		if at > 1 && (args[at-1] == "-o") {
			at = 1
		}
		return append(append(append([]string{}, args[:at]...), xs...), args[at:]...)
	}
	c.Kind = pick(t, "kind", "no command", "unknown command", "flag before command", "unknown flag", "unknown flag", "malformed value", "malformed value",
		"no value", "missing vectors", "bad vectors", "bad vectors", "missing input", "output exists", "word count", "unknown word", "help", "help", "help of a flagged line", "ask", "ask", "talk")
	switch c.Kind {
	case "no command":
		c.Args = pick(t, "none", []string{}, []string{"--"})
	case "unknown command":
		name := pick(t, "name", "train", "word2Vec", "Glove", "glov", "glove2", "w2v", "lexve", "lexvecs", "search", "quer", "Query", "repl", "consol", "word2vec ", "example/input.txt", "skip-gram", " query")
		c.Args = append([]string{name}, good(any1)[1:]...)
	case "flag before command":
		c.Args = append([]string{pick(t, "pre", "--no-such", "--no-such=3", "-v", "--version", "-x", "-z=1", "--")}, good(any1)...)
	case "unknown flag":
		c.Args = insert(good(any1), pick(t, "flag", "--no-such", "--no-such=3", "-z", "--Dim=3", "--dims=4", "--inputs=x", "--out=x", "--ranks=3", "-k=3", "--=3", "--no-verbose", "---dim=3", "--learning-rate=0.1", "-zz"))
	case "malformed value":
		var v string
		switch any1 {
		case "query", "console":
			v = pick(t, "rank", "--rank=", "-r=", "-r") + pick(t, "badr", "ten", "1.5", "1e3", "99999999999999999999", "5x", "3 4")
		default:
			ss := settingsOf(any1)
			s := ss[intIn(t, 0, len(ss)-1, "flag")]
			if s.kind == 's' || chance(t, 8, "prof") {
				s = setting{flag: "prof", kind: 'b'}
			}
			v = "--" + s.flag + "="
			switch s.kind {
			case 'b':
				v += pick(t, "badb", "maybe", "2", "yes", "on")
			case 'i':
				v += pick(t, "badi", "ten", "1.5", "1e3", "99999999999999999999", "5x", " 3", "")
			default:
				v += pick(t, "badf", "x", "0.5.1", "1,5", "0x", "1e", "")
			}
		}
		c.Args = insert(good(any1), v)
	case "no value":
		flags := []string{"-i", "--input"}
		switch any1 {
		case "query", "console":
			flags = append(flags, "-r", "--rank")
		default:
			flags = append(flags, "-o", "--output", "--dim", "-d", "-w", "--window", "--iter", "--initlr", "--vec-type", "--batch")
		}
		c.Args = append(good(any1), pick(t, "last", flags...))
	case "missing vectors":
		c.Args = good(reader)
		if boolean(t, "default") {
			c.Vecs = "missing"
		} else {
			c.Args = insert(c.Args, pick(t, "i", "-i", "--input"), pick(t, "nofile", "nowhere.txt", "a/b/c.txt", "", "example/word_vectors.txt2"))
		}
	case "bad vectors":
		c.Args = good(reader)
		c.Vecs = pick(t, "vecs", "malformed", "lengths", "directory")
		if reader == "query" || boolean(t, "e") {
			c.Vecs = pick(t, "vecs2", "malformed", "lengths", "directory", "empty")
		}
	case "missing input":
		c.Args = good(model)
		if boolean(t, "default") {
			c.NoIn = true
		} else {
			c.Args = append(c.Args, "-i", pick(t, "nofile", "nowhere.txt", "a/b/c.txt", "", "example/input.txt2"))
		}
	case "output exists":
		c.Args = []string{model, "--iter=0", "--goroutines=1", "-o", pick(t, "there", "example/word_vectors.txt", "example/input.txt", "keep.txt", "example", "./example/../keep.txt")}
	case "word count":
		c.Args = []string{"query"}
		if boolean(t, "many") {
			for i, n := 0, uniform(t, 2, 5, "n"); i < n; i++ {
				c.Args = append(c.Args, c.Word)
			}
		}
	case "unknown word":
		c.Args = []string{"query", "nosuchword"}
	case "help":
		at := intIn(t, 0, len(commandNames), "of")
		c.Args = []string{pick(t, "help0", "--help", "-h", "help")}
		c.Want = commandNames
		if at < len(commandNames) {
			name := commandNames[at]
			c.Args = pick(t, "help1", []string{name, "--help"}, []string{name, "-h"}, []string{"help", name})
			c.Want = flagsOf(name)
		}
	case "help of a flagged line":
		c.Args = insert(good(any1), pick(t, "h", "--help", "-h"))
		c.Want = flagsOf(any1)
	case "ask":
		c.Args = good("query")
		if boolean(t, "flagged") {
			c.Args = insert(c.Args, pick(t, "i", "-i=", "--input=")+"example/word_vectors.txt")
		}
	case "talk":
		c.Args = good("console")
		if boolean(t, "flagged") {
			c.Args = append(c.Args, "--input", "example/word_vectors.txt")
		}
	}
	return c
}

func indexOf(xs []string, x string) int {
	for i, y := range xs {
		if x == y {
			return i
		}
	}
	return -1
}

// flagsOf lists the documented flags of a command.
func flagsOf(cmd string) []string {
	switch cmd {
	case "query", "console":
		return []string{"--input", "--rank"}
	}
	r := []string{"--input", "--output", "--prof", "--vec-type"}
	for _, s := range settingsOf(cmd) {
		r = append(r, "--"+s.flag)
	}
	return r
}

// snapshot describes every entry below dir.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		switch {
		case err != nil:
			m[rel] = "error " + err.Error()
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			m[rel] = fmt.Sprintf("file %v %q", fi.Mode(), b)
		default:
			m[rel] = fmt.Sprintf("%v", fi.Mode())
		}
		return nil
	})
	return m
}

func diffSnapshots(a, b map[string]string) string {
	var r []string
	for k, v := range b {
		if w, ok := a[k]; !ok {
			r = append(r, k+" is new: "+clip(v))
		} else if v != w {
			r = append(r, k+" was "+clip(w)+", is "+clip(v))
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			r = append(r, k+" is gone")
		}
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

func judgeUsage(x any, o *Obs) error {
	c := x.(*usageCase)
	dir, err := caseDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	vf := filepath.Join(dir, defOut)
	files := map[string]string{filepath.Join(dir, "keep.txt"): "precious\n"}
	if !c.NoIn {
		files[filepath.Join(dir, defIn)] = "a b c a b d e a"
	}
	text := vecText(c.Set)
	if m := c.Args; len(m) > 0 && indexOf([]string{"word2vec", "glove", "lexvec"}, m[0]) >= 0 && c.Kind != "output exists" {
		// the default output is free
	} else {
		switch c.Vecs {
		case "missing":
		case "malformed":
			files[vf] = text + "word 1 x\n"
		case "lengths":
			files[vf] = text + "word" + strings.Repeat(" 1", len(c.Set.Vecs[0])+1) + "\n"
		case "empty":
			files[vf] = ""
		case "directory":
			if err := os.MkdirAll(vf, 0o755); err != nil {
				return trouble("%v", err)
			}
		default:
			files[vf] = text
		}
	}
	for name, s := range files {
		if err := writeFile(name, s); err != nil {
			return err
		}
	}
	before := snapshot(dir)
	line := fmt.Sprintf("wego %q", c.Args)
	res, err := runCLI(dir, c.Line, nil, c.Args...)
	if err != nil {
		return err
	}
	if d := diffSnapshots(before, snapshot(dir)); d != "" {
		return bad("%s (%s) changes the file system: %s", line, c.Kind, d)
	}
	o.Nontrivial = len(c.Args) > 0
	o.Class("%s", c.Kind)
	if len(c.Args) > 0 && indexOf(commandNames, c.Args[0]) >= 0 {
		o.Class("command %s", c.Args[0])
	}
	rows := 0
	bs, _ := parseOutput(res.out)
	for _, b := range bs {
		rows += len(b.rows)
	}
	switch c.Kind {
	case "help", "help of a flagged line":
		if res.code != 0 {
			return bad("%s exits %d: %s", line, res.code, clip(res.err))
		}
		for _, w := range c.Want {
			if !strings.Contains(res.out, w) && !strings.Contains(res.err, w) {
				return bad("%s does not mention %s:\n%s", line, w, clip(res.out))
			}
		}
		return nil
	case "ask", "talk":
		s, embs, err := searcherOf(text)
		if err != nil {
			return bad("the library refuses the file: %v", err)
		}
		want, err := s.SearchInternal(c.Word, 10)
		if err != nil {
			return bad("the library fails on word %q: %v", c.Word, err)
		}
		if c.Kind == "ask" && res.code != 0 {
			return bad("%s exits %d: %s", line, res.code, clip(res.err))
		}
		var got []row
		for _, b := range bs {
			got = append(got, b.rows...)
		}
		q, _ := embs.Find(c.Word)
		o.ClassIf(len(want) > 0, "answered with neighbours")
		if err := sameTable(got, want, simsTo(embs, q.Vector)); err != nil {
			return bad("%s, typing %s: %v", line, strconv.Quote(c.Line), err)
		}
		return nil
	}
	if res.code == 0 {
		return bad("%s (%s) exits 0:\n%s", line, c.Kind, clip(res.out))
	}
	if strings.TrimSpace(res.err) == "" {
		return bad("%s (%s) exits %d without a message", line, c.Kind, res.code)
	}
	if rows > 0 {
		return bad("%s (%s) prints neighbours:\n%s", line, c.Kind, clip(res.out))
	}
	return nil
}

func init() {
	register(&Prop{
		ID:    "C41",
		Rule:  "the wego binary is run on generated wrong command lines, help requests and queries of the default vector file, in a directory where carrying on would leave a mark, and the directory is compared before and after; non-trivial: a line with at least one argument",
		Assum: []string{"a message is any text on standard error", "help is compared for the documented names of commands and flags, on either stream"},
		Parts: []Part{{Name: "line", Quick: 5000, Thorough: 80000, New: func() any { return &usageCase{} }, Gen: genUsage, Judge: judgeUsage}},
	})
}
