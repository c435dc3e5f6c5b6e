package main

import (
	"fmt"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/search"
)

// ---- vector files -------------------------------------------------------

func vecText(s embSet) string {
	var b strings.Builder
	for i, w := range s.Words {
		b.WriteString(string(w))
		for _, v := range s.Vecs[i] {
			b.WriteString(" " + strconv.FormatFloat(float64(v), 'f', -1, 64))
		}
		b.WriteString("\n")
	}
	return b.String()
}

func searcherOf(text string) (*search.Searcher, embedding.Embeddings, error) {
	embs, err := embedding.Load(strings.NewReader(text))
	if err != nil {
		return nil, nil, err
	}
	s, err := search.New(embs...)
	return s, embs, err
}

// sameTable compares printed rows with the ranking the library returns. Words
// of equal similarity may come in any order.
func sameTable(got []row, want search.Neighbors, sim map[string][]float64) error {
	show := func() string {
		var w []row
		for _, n := range want {
			w = append(w, row{int(n.Rank), n.Word, n.Similarity})
		}
		return fmt.Sprintf("printed:\n%swant:\n%s", rowsText(got), rowsText(w))
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d rows printed, %d expected\n%s", len(got), len(want), show())
	}
	for i, g := range got {
		w := want[i]
		if g.rank != int(w.Rank) || g.rank != i+1 {
			return fmt.Errorf("row %d has rank %d\n%s", i+1, g.rank, show())
		}
		if math.Abs(g.sim-w.Similarity) > 1.1e-6 {
			return fmt.Errorf("row %d has similarity %v, not %v\n%s", i+1, g.sim, w.Similarity, show())
		}
		if g.word != w.Word {
			ok := false
			for _, s := range sim[g.word] {
				ok = ok || math.Abs(s-w.Similarity) < 1e-9
			}
			if !ok {
				return fmt.Errorf("row %d has word %q, not %q\n%s", i+1, g.word, w.Word, show())
			}
		}
	}
	return nil
}

func simsTo(embs embedding.Embeddings, q []float64) map[string][]float64 {
	r := map[string][]float64{}
	for _, e := range embs {
		r[e.Word] = append(r[e.Word], refCosine(q, e.Vector))
	}
	return r
}

// ---- C22 ----------------------------------------------------------------

type queryCase struct {
	Set    embSet
	File   B // text of the file when Broken is set
	Broken string
	Word   B
	Extra  []B // further arguments
	K      int
	Rank   string // how the rank is given: "", "-r", "--rank", "bad"
	Input  string // "-i", "--input", "--input="
	CRLF   bool
}

func genCLISet(t *rapid.T, lo, hi int) embSet {
	s, _ := genEmbSet(t, lo, hi)
	for i, w := range s.Words {
		if chance(t, 8, "odd") {
			s.Words[i] = pick(t, "oddword", B("a|b"), B("|"), B("RANK"), B("1"), B("-----"), B(strings.Repeat("long", 20)), B("e\u0301"), B("\u200b"), B("%d"), B("a,b"), B("\x1b[1mx"), B("+"), B(".5"))
		}
		_ = w
	}
	return s
}

func genC22(t *rapid.T) any {
	c := &queryCase{}
	large := chance(t, 6, "large")
	if large {
		// Many words, most of them similar to each other: long tables.
		n, d := intIn(t, 26, 300, "n"), intIn(t, 1, 4, "dim")
		x := uint64(intIn(t, 1, 1<<30, "lcg"))
		for i := 0; i < n; i++ {
			var v []F
			for j := 0; j < d; j++ {
				x = x*6364136223846793005 + 1442695040888963407
				v = append(v, F(float64(x>>40)/float64(1<<24)-0.1))
			}
			c.Set.Words = append(c.Set.Words, B("w"+strconv.Itoa(i)))
			c.Set.Vecs = append(c.Set.Vecs, v)
		}
	} else {
		c.Set = genCLISet(t, 1, 25)
	}
	c.Word = c.Set.Words[intIn(t, 0, len(c.Set.Words)-1, "qword")]
	c.K = pick(t, "k", 1, 2, 3, 5, 10, 10, 11, 100, 1<<30, 0, -1)
	if chance(t, 2, "kuni") {
		c.K = intIn(t, 1, 30, "k2")
		if large {
			c.K = intIn(t, 1, 310, "k3")
		}
	}
	c.Rank = pick(t, "rank", "", "-r", "-r", "--rank", "-r=", "--rank=")
	if c.Rank == "" {
		c.K = 10
	}
	c.Input = pick(t, "input", "-i", "--input", "--input=", "-i=")
	if !large && intIn(t, 0, 2, "br") == 2 {
		c.Broken = pick(t, "broken", "missing", "malformed", "lengths", "unknown", "noargs", "twoargs", "empty", "badrank", "directory")
		switch c.Broken {
		case "malformed":
			lines := strings.SplitAfter(vecText(c.Set), "\n")
			at := intIn(t, 0, len(lines)-1, "at")
			junk := pick(t, "junk", "word\n", "w x\n", "w 1 2 z\n", "w 1..2\n", "\n", "w 1,5\n", "w 0x\n")
			c.File = B(strings.Join(lines[:at], "") + junk + strings.Join(lines[at:], ""))
		case "lengths":
			w := intIn(t, 0, len(c.Set.Words), "at")
			lines := strings.SplitAfter(vecText(c.Set), "\n")
			d := len(c.Set.Vecs[0])
			n := pick(t, "newdim", d+1, d+2, max(1, d-1))
			if n == d {
				n = d + 1
			}
			c.File = B(strings.Join(lines[:w], "") + "other" + strings.Repeat(" 0.5", n) + "\n" + strings.Join(lines[w:], ""))
		case "unknown":
			c.Word = pick(t, "uw", B("nosuchword"), B(string(c.Set.Words[0])+"x"), B(""), B(strings.ToUpper(string(c.Set.Words[0]))+"Q"))
			if boolean(t, "near") {
				c.Word = nearMiss(t, c.Set.Words[intIn(t, 0, len(c.Set.Words)-1, "like")])
				for _, w := range c.Set.Words {
					if string(w) == string(c.Word) {
						c.Word += "\u00a0x"
					}
				}
				for strings.ContainsRune(string(c.Word), 0) { // no argument can hold it
					c.Word = "nosuch"
				}
			}
			c.File = B(vecText(c.Set))
		case "twoargs":
			c.Extra = []B{c.Set.Words[intIn(t, 0, len(c.Set.Words)-1, "w2")]}
			c.File = B(vecText(c.Set))
		case "empty":
		default:
			c.File = B(vecText(c.Set))
		}
	}
	return c
}

func judgeC22(x any, o *Obs) error {
	c := x.(*queryCase)
	dir, err := caseDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	text := vecText(c.Set)
	if c.Broken != "" {
		text = string(c.File)
	}
	file := "vectors.txt"
	switch c.Broken {
	case "missing":
	case "directory":
		if err := os.Mkdir(filepath.Join(dir, file), 0o755); err != nil {
			return trouble("%v", err)
		}
	default:
		if err := writeFile(filepath.Join(dir, file), text); err != nil {
			return err
		}
	}
	args := []string{"query"}
	switch {
	case strings.HasSuffix(c.Input, "="):
		args = append(args, c.Input+file)
	default:
		args = append(args, c.Input, file)
	}
	k := strconv.Itoa(c.K)
	if c.Broken == "badrank" {
		k = "ten"
		if c.Rank == "" {
			c.Rank = "-r"
		}
	}
	switch {
	case c.Rank == "":
	case strings.HasSuffix(c.Rank, "="):
		args = append(args, c.Rank+k)
	default:
		args = append(args, c.Rank, k)
	}
	if c.Broken != "noargs" {
		args = append(args, "--", string(c.Word))
		for _, e := range c.Extra {
			args = append(args, string(e))
		}
	}
	res, err := runCLI(dir, "", nil, args...)
	if err != nil {
		return err
	}
	bs, _ := parseOutput(res.out)
	var rows []row
	tables := 0
	for _, b := range bs {
		if b.table {
			tables++
			rows = append(rows, b.rows...)
		}
	}
	if c.Broken != "" {
		o.Class("broken: %s", c.Broken)
		o.Nontrivial = true
		if res.code == 0 {
			return bad("wego %q (%s) exits 0:\n%s", args, c.Broken, clip(res.out))
		}
		if len(rows) > 0 {
			return bad("wego %q (%s) prints neighbours:\n%s", args, c.Broken, clip(res.out))
		}
		return nil
	}
	s, embs, err := searcherOf(text)
	if err != nil {
		return bad("the library refuses the file: %v", err)
	}
	want, err := s.SearchInternal(string(c.Word), c.K)
	if err != nil {
		return bad("the library fails on word %q: %v", c.Word, err)
	}
	q, _ := embs.Find(string(c.Word))
	o.Nontrivial = len(want) >= 2
	o.ClassIf(len(want) < len(c.Set.Words)-1 && len(want) == c.K, "cut by rank")
	o.ClassIf(len(want) == 0, "no neighbours")
	o.ClassIf(len(want) > 20, "over 20 rows")
	if res.code != 0 {
		return bad("wego %q exits %d: %s", args, res.code, clip(res.err))
	}
	if tables > 1 {
		return bad("wego %q prints %d tables", args, tables)
	}
	if err := sameTable(rows, want, simsTo(embs, q.Vector)); err != nil {
		return bad("wego %q: %v", args, err)
	}
	return nil
}

// ---- C23 ----------------------------------------------------------------

type conLine struct {
	Text  B
	Terms []string `json:",omitempty"` // words of a valid expression
	Ops   []string `json:",omitempty"` // operators between them
	Blank bool     `json:",omitempty"`
	Run   bool     `json:",omitempty"` // the next line follows directly, without the marking query

	HasAborted bool `json:",omitempty"` // in a terminal: Aborted is typed first and given up
	Aborted    B    `json:",omitempty"`
}

type conCase struct {
	Set   embSet
	Lines []conLine
	K     int
	Rank  string
	Exit  bool // a line 'exit' ends the session; After must stay unread
	After []B
	NoNL  bool // no newline after the last line
	CRLF  bool
}

var identPool = []string{"a", "b", "c", "d", "e", "f", "g", "apple", "Apple", "banana", "日本", "x1", "_y", "king", "exit", "quit", "nil", "true", "len", "été", "Σ"}

var (
	sentinel  = "zq"
	sentinel2 = "zp"
)

func isIdent(s string) bool { return token.IsIdentifier(s) && s != "_" }

func genConLine(t *rapid.T, known []string) conLine {
	ident := func() string { return known[intIn(t, 0, len(known)-1, "w")] }
	unk := func() string { return pick(t, "unk", "nosuch", "zzz", "Unknown", "a_b", "kingg") }
	sp := func() string { return pick(t, "sp", " ", " ", "", "  ", "\t") }
	op := func() string { return pick(t, "op", "+", "-") }
	join := func(terms, ops []string) string {
		s := terms[0]
		for i, o := range ops {
			s += sp() + o + sp() + terms[i+1]
		}
		return s
	}
	switch intIn(t, 0, 9, "kind") {
	case 0, 1:
		w := ident()
		if w == "exit" {
			w = known[0]
		}
		return conLine{Text: B(w), Terms: []string{w}}
	case 2, 3, 4, 5:
		n := pick(t, "terms", 2, 2, 3, 3, 4, 5, 8)
		if chance(t, 25, "sum") {
			n = uniform(t, 8, 40, "nterms")
			if chance(t, 4, "long") {
				n = uniform(t, 40, 500, "nlong")
			}
		}
		var terms, ops []string
		for i := 0; i < n; i++ {
			terms = append(terms, ident())
			if i > 0 {
				ops = append(ops, op())
			}
		}
		return conLine{Text: B(join(terms, ops)), Terms: terms, Ops: ops}
	case 6:
		n := intIn(t, 1, 4, "terms")
		var terms, ops []string
		for i := 0; i < n; i++ {
			terms = append(terms, ident())
			if i > 0 {
				ops = append(ops, op())
			}
		}
		terms[intIn(t, 0, n-1, "at")] = unk()
		return conLine{Text: B(join(terms, ops))}
	case 7:
		n := intIn(t, 2, 4, "terms")
		var terms, ops []string
		for i := 0; i < n; i++ {
			terms = append(terms, ident())
			if i > 0 {
				ops = append(ops, op())
			}
		}
		ops[intIn(t, 0, n-2, "at")] = pick(t, "badop", "*", "/", "%", "==", "<", "&&", "|", "^", ">>")
		return conLine{Text: B(join(terms, ops))}
	case 8:
		a, b := ident(), ident()
		return conLine{Text: B(pick(t, "junk", a+" +", "+", ")", a+" "+b, "\""+a+"\"", "1", a+" + 1", "-"+a, "!"+a, a+"."+b, a+"("+b+")", "@", a+"[", a+" + ", "for", a+" + func", "2 - "+b, "#", a+" - -", "[]", "'x'", a+"++", a+" = "+b, "%d %s", "$"+a))}
	default:
		return conLine{Text: "", Blank: true}
	}
}

func genC23(t *rapid.T) any {
	s, _ := genEmbSet(t, 1, 14)
	dim := len(s.Vecs[0])
	var known []string
	seen := map[string]bool{}
	for i := range s.Words {
		if !chance(t, 8, "odd") {
			s.Words[i] = B(identPool[intIn(t, 0, len(identPool)-1, "id")])
		}
		w := string(s.Words[i])
		if isIdent(w) && !seen[w] {
			known = append(known, w)
			seen[w] = true
		}
	}
	one := make([]F, dim)
	one[0] = 1
	for _, w := range []string{sentinel, sentinel2} {
		at := intIn(t, 0, len(s.Words), "sat")
		s.Words = append(s.Words[:at:at], append([]B{B(w)}, s.Words[at:]...)...)
		s.Vecs = append(s.Vecs[:at:at], append([][]F{one}, s.Vecs[at:]...)...)
	}
	known = append(known, sentinel2)
	if known[0] == "exit" {
		known[0], known[len(known)-1] = known[len(known)-1], known[0]
	}
	c := &conCase{Set: s}
	c.K = pick(t, "k", 1, 2, 3, 5, 10, 20)
	c.Rank = pick(t, "rank", "-r", "--rank", "")
	if c.Rank == "" {
		c.K = 10
	}
	nl := sizeBiased(t, 1, 14, "nlines")
	if chance(t, 20, "session") {
		nl = uniform(t, 14, 70, "nsession")
	}
	for i, n := 0, nl; i < n; i++ {
		c.Lines = append(c.Lines, genConLine(t, known))
		c.Lines[i].Run = boolean(t, "run")
	}
	c.Lines[len(c.Lines)-1].Run = false
	c.Exit = boolean(t, "exit")
	if c.Exit {
		for i, n := 0, intIn(t, 0, 2, "nafter"); i < n; i++ {
			c.After = append(c.After, genConLine(t, known).Text)
		}
	}
	c.NoNL, c.CRLF = boolean(t, "nonl"), chance(t, 6, "crlf")
	return c
}

func judgeC23(x any, o *Obs) error {
	c := x.(*conCase)
	dir, err := caseDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	text := vecText(c.Set)
	if err := writeFile(filepath.Join(dir, "v.txt"), text); err != nil {
		return err
	}
	args := []string{"console", "-i", "v.txt"}
	if c.Rank != "" {
		args = append(args, c.Rank, strconv.Itoa(c.K))
	}
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	var in []string
	for _, l := range c.Lines {
		in = append(in, string(l.Text))
		if !l.Run {
			in = append(in, sentinel)
		}
	}
	if c.Exit {
		in = append(in, "exit")
		in = append(in, strs(c.After)...)
	}
	stdin := strings.Join(in, nl)
	if !c.NoNL {
		stdin += nl
	}
	res, err := runCLI(dir, stdin, nil, args...)
	if err != nil {
		return err
	}
	return checkSession(c, text, res, o)
}

// checkSession compares what a session printed with the library's answers.
func checkSession(c *conCase, text string, res *cliResult, o *Obs) error {
	if c.Exit && res.code != 0 {
		return bad("the session ended by exit has exit status %d: %s", res.code, clip(res.err))
	}
	if strings.Contains(res.err, "panic") {
		return bad("console panics: %s", clip(res.err))
	}
	s, embs, err := searcherOf(text)
	if err != nil {
		return bad("the library refuses the file: %v", err)
	}
	answer := func(l conLine) (search.Neighbors, []float64, error) { return conAnswer(s, embs, l, c.K) }
	mark, mq, err := answer(conLine{Terms: []string{sentinel}})
	if err != nil {
		return err
	}
	bs, _ := parseOutput(res.out)
	at := 0
	// next skips other output and empty tables up to the next neighbours.
	next := func() (rows []row, texts int, ok bool) {
		for at < len(bs) {
			b := bs[at]
			at++
			if b.table && len(b.rows) > 0 {
				return b.rows, texts, true
			}
			if !b.table {
				texts++
			}
		}
		return nil, texts, false
	}
	messages, refused := 0, ""
	// told: every refused line since the last neighbours needs a message.
	told := func(texts int) error {
		messages += texts
		if refused != "" && messages == 0 {
			return bad("%s prints no message", refused)
		}
		messages, refused = 0, ""
		return nil
	}
	for i, l := range c.Lines {
		what := fmt.Sprintf("line %d %q", i+1, l.Text)
		if l.Terms != nil {
			want, q, err := answer(l)
			if err != nil {
				return err
			}
			o.Class("%d-word expression", len(l.Terms))
			if len(l.Ops) >= 1 && len(want) > 0 {
				o.Nontrivial = true
			}
			if len(want) > 0 {
				rows, texts, ok := next()
				if !ok {
					return bad("%s: no neighbours printed, want %v\noutput:\n%s%s", what, want, tail(res.out, 800), tail(res.err, 300))
				}
				if err := sameTable(rows, want, simsTo(embs, q)); err != nil {
					return bad("%s: %v", what, err)
				}
				if err := told(texts); err != nil {
					return err
				}
			}
			o.ClassIf(l.Run && c.Lines[i+1].Terms != nil, "expression directly after expression")
		} else if !l.Blank {
			o.Class("refused line")
			refused = what
		}
		if l.Run {
			continue
		}
		rows, texts, ok := next()
		if !ok {
			return bad("the session ends at %s\noutput:\n%s%s", what, tail(res.out, 800), tail(res.err, 300))
		}
		if err := sameTable(rows, mark, simsTo(embs, mq)); err != nil {
			return bad("%s is followed by the wrong neighbours for the next line %q: %v", what, sentinel, err)
		}
		if err := told(texts); err != nil {
			return err
		}
	}
	if rows, _, ok := next(); ok {
		return bad("neighbours after the end of the session:\n%s", rowsText(rows))
	}
	o.ClassIf(c.Exit, "ended by exit")
	o.ClassIf(!c.Exit, "ended by end of input")
	return nil
}

// conAnswer is what the library answers to an expression.
func conAnswer(s *search.Searcher, embs embedding.Embeddings, l conLine, k int) (search.Neighbors, []float64, error) {
	var q []float64
	for i, w := range l.Terms {
		e, ok := embs.Find(w)
		if !ok {
			return nil, nil, trouble("generator: %q is not in the file", w)
		}
		if i == 0 {
			q = append(q, e.Vector...)
			continue
		}
		for j := range q {
			if l.Ops[i-1] == "+" {
				q[j] += e.Vector[j]
			} else {
				q[j] -= e.Vector[j]
			}
		}
	}
	n, err := s.Search(embedding.Embedding{Vector: q, Norm: plainNorm(q)}, k, l.Terms...)
	if err != nil {
		return nil, nil, bad("library search failed: %v", err)
	}
	return n, q, nil
}

// -- files of one or two words, one line per session

func genC23Tiny(t *rapid.T) any {
	s, _ := genEmbSet(t, 1, 2)
	var known []string
	for i := range s.Words {
		s.Words[i] = B(identPool[intIn(t, 0, len(identPool)-1, "id")])
		known = append(known, string(s.Words[i]))
	}
	c := &conCase{Set: s, Exit: boolean(t, "exit"), NoNL: boolean(t, "nonl"), CRLF: chance(t, 8, "crlf")}
	c.K, c.Rank = pick(t, "k", 1, 2, 10), pick(t, "rank", "-r", "--rank")
	c.Lines = []conLine{genConLine(t, known)}
	if string(c.Lines[0].Text) == "exit" {
		c.Lines[0] = conLine{Blank: true}
	}
	return c
}

func judgeC23Tiny(x any, o *Obs) error {
	c := x.(*conCase)
	dir, err := caseDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	text := vecText(c.Set)
	if err := writeFile(filepath.Join(dir, "v.txt"), text); err != nil {
		return err
	}
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	l := c.Lines[0]
	stdin := string(l.Text)
	if c.Exit {
		stdin += nl + "exit"
	}
	if !c.NoNL {
		stdin += nl
	}
	res, err := runCLI(dir, stdin, nil, "console", "-i", "v.txt", c.Rank, strconv.Itoa(c.K))
	if err != nil {
		return err
	}
	if strings.Contains(res.err, "panic") || c.Exit && res.code != 0 {
		return bad("line %q to a file of %d words: exit status %d: %s", l.Text, len(c.Set.Words), res.code, clip(res.err))
	}
	s, embs, err := searcherOf(text)
	if err != nil {
		return bad("the library refuses the file: %v", err)
	}
	var rows []row
	texts := 0
	bs, _ := parseOutput(res.out)
	for _, b := range bs {
		rows = append(rows, b.rows...)
		if !b.table {
			texts++
		}
	}
	if l.Terms == nil {
		if len(rows) > 0 {
			return bad("neighbours for line %q:\n%s", l.Text, rowsText(rows))
		}
		if !l.Blank && texts == 0 && res.err == "" {
			return bad("line %q prints no message", l.Text)
		}
		o.Class("refused or blank")
		return nil
	}
	want, q, err := conAnswer(s, embs, l, c.K)
	if err != nil {
		return err
	}
	o.Nontrivial = true
	o.Class("%d words in the file, %d neighbours", len(c.Set.Words), len(want))
	if err := sameTable(rows, want, simsTo(embs, q)); err != nil {
		return bad("line %q: %v", l.Text, err)
	}
	return nil
}

// -- in a terminal

func genC23Term(t *rapid.T) any {
	c := genC23(t).(*conCase)
	for i, w := range c.Set.Words { // nothing that the terminal would act on
		for _, r := range string(w) {
			if !unicode.IsPrint(r) || r == utf8.RuneError {
				c.Set.Words[i] = B("w" + strconv.Itoa(i))
				break
			}
		}
	}
	var lines []conLine
	for _, l := range c.Lines {
		l.Text = B(strings.ReplaceAll(string(l.Text), "\t", " "))
		if len(l.Text) < 150 && !strings.ContainsAny(string(l.Text), "\x1b\x03\x04") {
			lines = append(lines, l)
		}
	}
	if len(lines) == 0 {
		lines = append(lines, conLine{Text: B(sentinel2), Terms: []string{sentinel2}})
	}
	if len(lines) > 30 {
		lines = lines[:30]
	}
	lines[len(lines)-1].Run = false
	c.Lines, c.After = lines, nil
	for i := range c.Lines {
		if chance(t, 6, "aborted") {
			c.Lines[i].Aborted = B(pick(t, "abort", "", "zz", "king +", ")", "exit", "\u65e5"))
			c.Lines[i].HasAborted = true
		}
	}
	return c
}

const prompt = ">> "

func judgeC23Term(x any, o *Obs) error {
	c := x.(*conCase)
	dir, err := caseDir()
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	text := vecText(c.Set)
	if err := writeFile(filepath.Join(dir, "v.txt"), text); err != nil {
		return err
	}
	args := []string{"console", "-i", "v.txt"}
	if c.Rank != "" {
		args = append(args, c.Rank, strconv.Itoa(c.K))
	}
	var keys []string
	for _, l := range c.Lines {
		if l.HasAborted {
			keys = append(keys, string(l.Aborted)+"\x03") // Ctrl-C
		}
		keys = append(keys, string(l.Text)+"\r")
		if !l.Run {
			keys = append(keys, sentinel+"\r")
		}
	}
	if c.Exit {
		keys = append(keys, "exit\r")
	} else {
		keys = append(keys, "\x04") // Ctrl-D
	}
	res, err := runTerminal(dir, prompt, keys, args...)
	if err == errNoTerminal {
		o.Class("no terminal to be had")
		return nil
	}
	if err != nil {
		return err
	}
	if res.code != 0 {
		return bad("the session in a terminal has exit status %d: %s", res.code, clip(res.err))
	}
	res.out = plainScreen(res.out, prompt)
	if err := checkSession(c, text, &res.cliResult, o); err != nil {
		return bad("in a terminal: %v", err)
	}
	if res.before != res.after {
		return bad("the console leaves the terminal changed: %+v, before it was %+v", res.after, res.before)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:    "C22",
		Rule:  "the wego binary is run on generated vector files, words, ranks and flag spellings; non-trivial: a file that must be refused, or at least two neighbours",
		Assum: []string{"rows are read back from the printed table (rank | word | similarity)", "words of similarity equal within 1e-9 may come in any order"},
		Parts: []Part{{Name: "query", Quick: 2400, Thorough: 40000, New: func() any { return &queryCase{} }, Gen: genC22, Judge: judgeC22}},
	})
	register(&Prop{
		ID:    "C23",
		Rule:  "the wego binary is run on generated console sessions, a known query after each line marking where its output ends; part 'tiny': one line to files of one or two words; non-trivial: an expression of two or more words with neighbours",
		Assum: []string{"input comes from a pipe or, in part terminal, from a pseudo terminal", "only words that are Go identifiers can be written in a console line (the expression syntax is Go's)"},
		Parts: []Part{{Name: "session", Quick: 2000, Thorough: 30000, New: func() any { return &conCase{} }, Gen: genC23, Judge: judgeC23},
			{Name: "terminal", Quick: 400, Thorough: 10000, New: func() any { return &conCase{} }, Gen: genC23Term, Judge: judgeC23Term},
			{Name: "tiny", Quick: 400, Thorough: 10000, New: func() any { return &conCase{} }, Gen: genC23Tiny, Judge: judgeC23Tiny}},
	})
}
