package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/embedding"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/util/verbose"
)

// genToken draws a non-empty word without white space (any other bytes).
func genToken(t *rapid.T, label string) B {
	switch intIn(t, 0, 11, label+".k") {
	case 0:
		n := intIn(t, 1, 12, label+".n")
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(intIn(t, 33, 255, label+".b"))
		}
		return noSpace(string(b))
	case 1:
		return noSpace(string(rapid.StringN(1, 6, -1).Draw(t, label+".s")))
	case 2:
		return pick(t, label+".sp", B("NaN"), B("+Inf"), B("0"), B("-1.5"), B("1e400"), B("#"), B("\x00"), B("%d"), B("%!v(MISSING)"), B("\xef\xbb\xbfx"), B("…"), B("\u200b"))
	case 4: // words which other tools, formats or languages treat specially
		return B(pick(t, label+".conv", conventional...))
	case 3:
		return B(pick(t, label+".l", "Ä", "ß", "日本語", "İ", "ſ", "Σίσυφος", "naïve", "K"))
	default:
		return B(wordPool[intIn(t, 0, len(wordPool)-1, label)])
	}
}

// conventional holds words with a meaning in other tools, in file formats, in
// shells or in templates; here they are words like any other.
var conventional = []string{"</s>", "<s>", "<unk>", "UNK", "<pad>", "[UNK]", "[CLS]", "[SEP]", "[MASK]", "<EOS>", "<BOS>", "EOS",
	"#", "##", "//", "/*", ";", "--", "-", "---", "'", "\"", "''", "\"\"", "\"a", "a\"", "\\", "\\n", "\\t", "`", "|", ",", "a,b", ".", "...", "?", "!", ":", "=", "_", "@", "&", "&amp;", "<", ">", "<br>", "<!--",
	"nil", "null", "NULL", "None", "true", "false", "undefined", "0", "1", "00", "-0", "1.5", "1,5", "1e5", "0x1p-2", "Inf", "nan", "1_0",
	"the", "a", "and", "The", "THE", "i'm", "don't", "-a-", "$HOME", "${a}", "{{.}}", "%s", "%", "%%", "~", "*", "(", ")", "[", "]", "{", "}", "\ufeff", "\u00ad", "\u200d", "e\u0301", "é", "\x1a", "\x04", "\x1b[0m", "\x7f", "\x1c", "\x1f", "\xff", "\xc2", "\xed\xa0\x80", "\ufffd"}

// noSpace replaces white space, so that the result is a single field.
func noSpace(s string) B {
	s = strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return 'x'
		}
		return r
	}, s)
	if s == "" || len(strings.Fields(s)) != 1 {
		return "x"
	}
	return B(s)
}

type saveCase struct {
	Words    []B
	Vecs     [][]F
	Rows     int // rows of the matrix if it is to differ from the vocabulary
	Mismatch bool
	Chunk    chunking
}

func genValueAny(t *rapid.T, label string) F {
	switch intIn(t, 0, 9, label+".k") {
	case 0:
		return F(rapid.Float64().Draw(t, label))
	case 1:
		return pick(t, label+".sp", F(math.NaN()), F(math.Inf(1)), F(math.Inf(-1)), F(math.Copysign(0, -1)), F(0), F(math.MaxFloat64), F(math.SmallestNonzeroFloat64), F(0.0000005), F(-0.0000005), F(0.0000015), F(999999.9999995), F(1e15), F(123456789.123456789))
	case 2:
		return F(rapid.Float64Range(-1e-5, 1e-5).Draw(t, label))
	case 3:
		return realIn(t, -1e9, 1e9, label)
	default:
		return realIn(t, -2, 2, label)
	}
}

func genVocab(t *rapid.T, lo, hi int) []B {
	var words []B
	seen := map[B]bool{}
	n := sizeBiased(t, lo, hi, "nwords")
	for i := 0; i < n; i++ {
		w := genToken(t, "word")
		if seen[w] {
			w = B(fmt.Sprintf("%s~%d", w, i))
		}
		if !seen[w] {
			seen[w] = true
			words = append(words, w)
		}
	}
	return words
}

func genC03(long bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		c := &saveCase{Words: genVocab(t, 0, 30), Chunk: genChunking(t)}
		dim := intIn(t, 1, 12, "dim")
		if long {
			// lines of more than 64 KiB: many values or a huge word
			if boolean(t, "longdim") {
				dim = uniform(t, 6000, 9000, "dim")
				if len(c.Words) > 3 {
					c.Words = c.Words[:3]
				}
				c.Chunk = chunking{}
				base := make([]F, 0, dim)
				for i := 0; i < 8; i++ {
					base = append(base, genValueAny(t, "v"))
				}
				for i := range c.Words {
					v := make([]F, dim)
					for j := range v {
						v[j] = base[(i+j)%8]
					}
					c.Vecs = append(c.Vecs, v)
				}
				c.Rows = len(c.Words)
				return c
			}
			n := uniform(t, 65000, 200000, "wordlen")
			pos := intIn(t, 0, len(c.Words), "at")
			c.Words = append(c.Words[:pos:pos], append([]B{B(strings.Repeat(string(rune('a'+intIn(t, 0, 25, "ch"))), n))}, c.Words[pos:]...)...)
			c.Chunk = chunking{}
		}
		for range c.Words {
			v := make([]F, dim)
			for j := range v {
				v[j] = genValueAny(t, "v")
			}
			c.Vecs = append(c.Vecs, v)
		}
		c.Rows = len(c.Words)
		if chance(t, 12, "mismatch") {
			c.Mismatch = true
			c.Rows = len(c.Words) + pick(t, "off", -1, 1, 2, 5)
			if c.Rows < 0 {
				c.Rows = 1
			}
		}
		return c
	}
}

func dicOf(words []B) *dictionary.Dictionary {
	d := dictionary.New()
	for _, w := range words {
		d.Add(string(w))
	}
	return d
}

func judgeC03(x any, o *Obs) error {
	c := x.(*saveCase)
	dim := 1
	if len(c.Vecs) > 0 {
		dim = len(c.Vecs[0])
	}
	mat := matrix.New(c.Rows, dim, func(i int, v []float64) {
		if i < len(c.Vecs) {
			for j := range v {
				if j < len(c.Vecs[i]) {
					v[j] = float64(c.Vecs[i][j])
				}
			}
		}
	})
	dic := dicOf(c.Words)
	var buf bytes.Buffer
	w := &countingWriter{w: &buf}
	err := vector.Save(w, dic, mat, verbose.New(false), 100)
	if c.Mismatch {
		o.Class("size mismatch")
		if err == nil {
			return bad("Save accepted %d words for %d rows", len(c.Words), c.Rows)
		}
		if buf.Len() != 0 {
			return bad("Save wrote %d bytes before refusing", buf.Len())
		}
		return nil
	}
	if err != nil {
		return bad("Save failed: %v", err)
	}
	for i := range c.Vecs { // saving must not change the matrix
		for j, want := range c.Vecs[i] {
			if got := mat.Slice(i)[j]; !near(got, float64(want), 0) {
				return bad("Save changed the matrix at %d,%d: %v -> %v", i, j, want, got)
			}
		}
	}
	text := buf.String()
	o.Nontrivial = len(c.Words) >= 2
	o.ClassIf(len(text) > 65536, "text over 64 KiB")
	o.ClassIf(len(c.Words) == 0, "empty vocabulary")
	// the documented line format
	lines := strings.SplitAfter(text, "\n")
	if len(lines) > 0 && lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	if len(lines) != len(c.Words) {
		return bad("%d lines for %d words", len(lines), len(c.Words))
	}
	special := false
	for i, l := range lines {
		if !strings.HasSuffix(l, "\n") {
			return bad("line %d is not terminated", i)
		}
		l = strings.TrimSuffix(strings.TrimSuffix(l, "\n"), " ")
		parts := strings.Split(l, " ")
		if parts[0] != string(c.Words[i]) {
			return bad("line %d starts with %q, want the word %q", i, clip(parts[0]), clip(string(c.Words[i])))
		}
		if len(parts) != dim+1 {
			return bad("line %d has %d values, want %d: %q", i, len(parts)-1, dim, clip(l))
		}
		for j, p := range parts[1:] {
			v, err := strconv.ParseFloat(p, 64)
			if err != nil {
				return bad("line %d value %d is %q", i, j, clip(p))
			}
			want := float64(c.Vecs[i][j])
			if math.IsNaN(want) || math.IsInf(want, 0) {
				special = true
			}
			if !near(v, want, 5.0000001e-7+1e-15*math.Abs(want)) {
				return bad("line %d value %d is %q, want %v", i, j, clip(p), want)
			}
		}
	}
	o.ClassIf(special, "NaN or Inf")
	rd := c.Chunk.reader(text)
	embs, err := embedding.Load(rd)
	if err != nil {
		return bad("the saved text cannot be loaded: %v (longest line %d bytes)", err, longest(lines))
	}
	if len(embs) != len(c.Words) {
		return bad("%d items loaded, want %d", len(embs), len(c.Words))
	}
	for i, e := range embs {
		if e.Word != string(c.Words[i]) {
			return bad("item %d is %q, want %q", i, clip(e.Word), clip(string(c.Words[i])))
		}
		if e.Dim != dim || len(e.Vector) != dim {
			return bad("item %d has dimension %d and %d values, want %d", i, e.Dim, len(e.Vector), dim)
		}
		for j := range e.Vector {
			want := float64(c.Vecs[i][j])
			if !near(e.Vector[j], want, 5.0000001e-7+1e-15*math.Abs(want)) {
				return bad("item %d value %d is %v, want %v", i, j, e.Vector[j], want)
			}
		}
		if err := checkNorm(e, dim); err != nil {
			return err
		}
	}
	if err := embs.Validate(); err != nil {
		return bad("loaded items do not validate: %v", err)
	}
	return nil
}

func checkNorm(e embedding.Embedding, dim int) error {
	want := refNorm(e.Vector)
	m := 0.
	for _, x := range e.Vector {
		m = math.Max(m, math.Abs(x))
	}
	if math.IsNaN(want) || math.IsInf(want, 0) || m > 1e150 || (m < 1e-150 && m > 0) {
		return nil // squares leave the range
	}
	if !near(e.Norm, want, 1e-14*float64(dim+10)*want) {
		return bad("norm of %q is %v, want %v", clip(e.Word), e.Norm, want)
	}
	return nil
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:40] + "…" + s[len(s)-30:]
	}
	return s
}

func longest(lines []string) int {
	m := 0
	for _, l := range lines {
		m = max(m, len(l))
	}
	return m
}

type countingWriter struct {
	w io.Writer
	n int
}

func (c *countingWriter) Write(p []byte) (int, error) {
	c.n++
	return c.w.Write(p)
}

// ---- C04 ----------------------------------------------------------------

type loadCase struct {
	Text  B
	Chunk chunking
	Fail  int // byte offset at which the reader fails, -1 never
	Err   int
}

var numPool = []string{"1", "-2.5", "0", "1e3", ".5", "5.", "+7", "NaN", "Inf", "-inf", "0x1p-2", "1_000", "1e400", "-1e400", "1e-400", "abc", "1,5", "--1", "1e", "", "٣", "1.0000000000000000000000001"}

func genLine(t *rapid.T) string {
	var sb strings.Builder
	sep := func() string {
		if chance(t, 12, "sep?") {
			return pick(t, "sep", "  ", "\t", "\u00a0", "\v", "\f", "\r", "\u2003", "\u0085")
		}
		return " "
	}
	switch intIn(t, 0, 19, "line") {
	case 0:
		return ""
	case 1:
		sb.WriteString(" ")
	case 2:
		sb.WriteString("\t")
	case 3:
		return string(genToken(t, "w"))
	case 4:
		return pick(t, "odd", "\r", "  ", "\t", " 1 2", "\u00a0x 1", "x\x00 1", "# comment", "3 2")
	}
	sb.WriteString(string(genToken(t, "w")))
	n := intIn(t, 1, 5, "nv")
	for i := 0; i < n; i++ {
		sb.WriteString(sep())
		if chance(t, 25, "odd?") {
			sb.WriteString(pick(t, "num", numPool...))
		} else {
			sb.WriteString(strconv.FormatFloat(float64(realIn(t, -100, 100, "v")), 'f', intIn(t, 0, 6, "prec"), 64))
		}
	}
	if boolean(t, "trail") {
		sb.WriteString(sep())
	}
	if chance(t, 12, "cr") {
		sb.WriteString("\r")
	}
	return sb.String()
}

func genC04(t *rapid.T) any {
	c := &loadCase{Chunk: genChunking(t), Fail: -1}
	var sb strings.Builder
	if chance(t, 10, "raw") {
		n := intIn(t, 0, 40, "nraw")
		for i := 0; i < n; i++ {
			sb.WriteByte(pick(t, "b", byte('a'), ' ', '\n', '1', '.', '-', '\r', '\t', 0xff, 0xc2, 0xa0, 0x85, 0xe2, 0x80, 0x00, 'e', '\n', ' '))
		}
	} else {
		n := sizeBiased(t, 0, 40, "nlines")
		good := intIn(t, 0, 2, "good") > 0
		for i := 0; i < n; i++ {
			l := genLine(t)
			if good { // mostly loadable texts
				if _, err, _ := refParseLine(l); err {
					l = string(genToken(t, "gw")) + " 1 2"
				}
			}
			sb.WriteString(l)
			if i < n-1 || boolean(t, "final newline") {
				sb.WriteString("\n")
			}
		}
		if chance(t, 40, "pad") { // cross buffer boundaries of 4 KiB and 64 KiB
			sb.WriteString(strings.Repeat("p 1 2\n", uniform(t, 600, 14000, "npad")))
			sb.WriteString("last 3 4")
		}
		if chance(t, 60, "longline") {
			if s := sb.String(); s != "" && !strings.HasSuffix(s, "\n") {
				sb.WriteString("\n")
			}
			sb.WriteString("w" + strings.Repeat(" 1.5", uniform(t, 16000, 40000, "nvals")) + "\n")
		}
	}
	c.Text = B(sb.String())
	if len(c.Text) > 20000 { // tiny reads of huge lines take the scanner quadratic time
		for i := range c.Chunk.Sizes {
			c.Chunk.Sizes[i] *= 211
		}
	}
	if chance(t, 4, "fail") {
		c.Fail = uniform(t, 0, len(c.Text), "failat")
		c.Err = genErr(t)
	}
	return c
}

// refParseLine: skip, failed, item
func refParseLine(l string) (embedding.Embedding, bool, bool) {
	if strings.HasPrefix(l, " ") {
		return embedding.Embedding{}, false, false
	}
	f := refFields(l)
	if len(f) < 2 {
		return embedding.Embedding{}, true, false
	}
	e := embedding.Embedding{Word: f[0], Dim: len(f) - 1}
	for _, s := range f[1:] {
		v, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return embedding.Embedding{}, true, false
		}
		e.Vector = append(e.Vector, v)
	}
	return e, false, true
}

// refFields splits around white space, rune by rune.
func refFields(s string) []string {
	var out []string
	start := -1
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if unicode.IsSpace(r) {
			if start >= 0 {
				out = append(out, s[start:i])
			}
			start = -1
		} else if start < 0 {
			start = i
		}
		i += n
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

func refLoad(text string) ([]embedding.Embedding, bool) {
	var out []embedding.Embedding
	for len(text) > 0 {
		l, rest, _ := strings.Cut(text, "\n")
		text = rest
		l = strings.TrimSuffix(l, "\r")
		e, failed, ok := refParseLine(l)
		if failed {
			return nil, true
		}
		if ok {
			out = append(out, e)
		}
	}
	return out, false
}

func judgeC04(x any, o *Obs) error {
	c := x.(*loadCase)
	rd := c.Chunk.reader(string(c.Text))
	rd.failAt, rd.failErr = c.Fail, readErr(c.Err)
	got, err := embedding.Load(rd)
	want, fail := refLoad(string(c.Text))
	o.ClassIf(len(c.Text) > 65536, "over 64 KiB")
	o.ClassIf(len(c.Text) > 4096, "over 4 KiB")
	if c.Fail >= 0 {
		o.Class("reader fails")
		o.Nontrivial = c.Fail > 0
		if err == nil {
			return bad("the reader failed after %d of %d bytes, but Load returned %d items and no error", c.Fail, len(c.Text), len(got))
		}
		if len(got) != 0 {
			return bad("Load failed (%v) and returned %d items", err, len(got))
		}
		return nil
	}
	if fail {
		o.Class("malformed")
		o.Nontrivial = strings.Count(string(c.Text), "\n") >= 1
		if err == nil {
			return bad("Load accepted a malformed text: %q -> %v", clip(string(c.Text)), len(got))
		}
		if len(got) != 0 {
			return bad("Load failed (%v) and returned %d items", err, len(got))
		}
		return nil
	}
	o.Class("loadable")
	o.Nontrivial = len(want) >= 2
	if err != nil {
		return bad("Load refused a well-formed text of %d bytes: %v", len(c.Text), err)
	}
	if len(got) != len(want) {
		return bad("%d items loaded, want %d", len(got), len(want))
	}
	for i := range got {
		g, w := got[i], want[i]
		if g.Word != w.Word || g.Dim != w.Dim || len(g.Vector) != len(w.Vector) {
			return bad("item %d is %q/%d/%d values, want %q/%d", i, clip(g.Word), g.Dim, len(g.Vector), clip(w.Word), w.Dim)
		}
		for j := range g.Vector {
			if !near(g.Vector[j], w.Vector[j], 0) {
				return bad("item %d value %d is %v, want %v", i, j, g.Vector[j], w.Vector[j])
			}
		}
		if err := checkNorm(g, g.Dim); err != nil {
			return err
		}
	}
	return nil
}

// ---- C05 ----------------------------------------------------------------

// faultyWriter accepts `limit` bytes, then misbehaves as kind says:
// 0 error, 1 error after a partial write, 2 short write without error,
// 3 error once and then accepting again (dropping the refused bytes),
// 4 error only after accepting everything it was given at that point.
type faultyWriter struct {
	limit  int
	kind   int
	err    error
	got    bytes.Buffer
	failed bool
}

func (f *faultyWriter) Write(p []byte) (int, error) {
	if f.kind == 3 && f.failed {
		return f.got.Write(p)
	}
	if f.got.Len()+len(p) <= f.limit && !f.failed {
		return f.got.Write(p)
	}
	if f.kind == 2 && f.failed {
		// taking less without a reason again and again would keep busy those
		// who offer the rest again
		return 0, f.err
	}
	f.failed = true
	room := max(f.limit-f.got.Len(), 0)
	switch f.kind {
	case 1, 2:
		f.got.Write(p[:min(room, len(p))])
		if f.kind == 2 {
			return min(room, len(p)), nil
		}
		return min(room, len(p)), f.err
	case 4:
		f.got.Write(p)
		return len(p), f.err
	}
	return 0, f.err
}

// stringWriter is a faultyWriter which takes strings as well, as files do.
type stringWriter struct{ *faultyWriter }

func (f stringWriter) WriteString(s string) (int, error) {
	n, err := f.Write([]byte(s))
	if err == nil && n < len(s) {
		err = io.ErrShortWrite
	}
	return n, err
}

// copyWriter is a faultyWriter which fetches its input as well, as files and
// connections do.
type copyWriter struct{ stringWriter }

func (f copyWriter) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f.faultyWriter}, r)
}

// as gives the writer the shape of another kind of destination.
func (f *faultyWriter) as(shape int) io.Writer {
	switch shape {
	case 1:
		return stringWriter{f}
	case 2:
		return copyWriter{stringWriter{f}}
	}
	return f
}

// A destination may also say io.EOF.
func writeErrIndex(t *rapid.T) int { return uniform(t, 0, len(faultErrs), "err") }

func writeErr(i int) error {
	if i == len(faultErrs) {
		return io.EOF
	}
	return readErr(i)
}

type saveFaultCase struct {
	Words []B
	Dim   int
	Vals  []F
	Big   int   // extra words, to cross buffer sizes
	Limit []int // byte offsets (mod text length); nil: every offset
	Kind  int
	Err   int
	Shape int    // of the writer: plain, taking strings, fetching
	Model string // "" for vector.Save, else the model saved
	Typ   string
}

func genC05(t *rapid.T) any {
	c := &saveFaultCase{Words: genVocab(t, 1, 12), Dim: intIn(t, 1, 5, "dim"), Kind: intIn(t, 0, 4, "kind"), Err: writeErrIndex(t), Shape: intIn(t, 0, 2, "shape")}
	for i := 0; i < 4; i++ {
		c.Vals = append(c.Vals, realIn(t, -2, 2, "v"))
	}
	c.Model = pick(t, "model", "", "word2vec", "glove", "lexvec")
	c.Typ = pick(t, "typ", vector.Single, vector.Agg)
	if chance(t, 6, "big") {
		c.Big = uniform(t, 100, 2500, "nbig")
	}
	if c.Big > 0 {
		for i := 0; i < 6; i++ {
			c.Limit = append(c.Limit, uniform(t, 0, 1<<17, "lim"))
		}
		c.Limit = append(c.Limit, 4095, 4096, 4097, 0, -1)
	}
	return c
}

func judgeC05(x any, o *Obs) error {
	c := x.(*saveFaultCase)
	words := append([]B(nil), c.Words...)
	for i := 0; i < c.Big; i++ {
		words = append(words, B(fmt.Sprintf("big%d", i)))
	}
	var save func(w io.Writer) error
	if c.Model == "" {
		mat := matrix.New(len(words), c.Dim, func(i int, v []float64) {
			for j := range v {
				v[j] = float64(c.Vals[(i+j)%len(c.Vals)])
			}
		})
		dic := dicOf(words)
		save = func(w io.Writer) error { return vector.Save(w, dic, mat, verbose.New(false), 100) }
	} else {
		m, err := newModel(&modelCfg{Model: c.Model, Dim: c.Dim, Iter: 0, Goroutines: 1, Window: 1, InMemory: true})
		if err != nil {
			return bad("new %s: %v", c.Model, err)
		}
		if err := m.Train(strings.NewReader(strings.Join(strs(words), " "))); err != nil {
			return bad("train %s with 0 iterations: %v", c.Model, err)
		}
		save = func(w io.Writer) error { return m.Save(w, c.Typ) }
	}
	var full bytes.Buffer
	if err := save(&full); err != nil {
		return bad("saving to a working writer failed: %v", err)
	}
	total := full.Len()
	limits := c.Limit
	if limits == nil {
		for i := 0; i < total; i++ {
			limits = append(limits, i)
		}
	}
	o.Class("writer kind %d", c.Kind)
	o.Class("via %q", c.Model)
	o.Class("writer shape %d", c.Shape)
	o.ClassIf(total > 4096, "over 4 KiB")
	o.Nontrivial = total > 20
	for _, l := range limits {
		if l < 0 {
			l = total - 1
		}
		l %= total
		w := &faultyWriter{limit: l, kind: c.Kind, err: writeErr(c.Err)}
		err := save(w.as(c.Shape))
		o.Class("fault points")
		if err == nil && (w.failed || !bytes.Equal(w.got.Bytes(), full.Bytes())) {
			return bad("the writer failed at byte %d of %d (kind %d) and received %d bytes, but saving returned nil", l, total, c.Kind, w.got.Len())
		}
	}
	// a writer that never fails gets everything
	w := &faultyWriter{limit: total, kind: c.Kind, err: writeErr(c.Err)}
	if err := save(w.as(c.Shape)); err != nil {
		return bad("saving failed (%v) although the writer accepted all %d bytes", err, total)
	}
	if !bytes.Equal(w.got.Bytes(), full.Bytes()) {
		return bad("saving twice gives different bytes")
	}
	return nil
}

var _ = errors.New

func init() {
	register(&Prop{ID: "C03",
		Rule: "vocabularies of arbitrary white-space-free words, matrices of arbitrary float64 (NaN, Inf, -0, extreme), any read chunking; part 'long': lines over 64 KiB; non-trivial: at least two words",
		Parts: []Part{{Name: "roundtrip", Quick: 20000, Thorough: 600000, New: func() any { return &saveCase{} }, Gen: genC03(false), Judge: judgeC03},
			{Name: "long", Quick: 80, Thorough: 2000, New: func() any { return &saveCase{} }, Gen: genC03(true), Judge: judgeC03}}})
	register(&Prop{ID: "C04",
		Rule:  "texts from a line grammar with odd separators, malformed numbers and lines, plus raw bytes; read chunkings with empty reads and EOF-with-data; reader failure at any offset; non-trivial: two items, or a malformed text of several lines, or a failure after the first byte",
		Parts: []Part{{Name: "load", Quick: 40000, Thorough: 1500000, New: func() any { return &loadCase{} }, Gen: genC04, Judge: judgeC04}}})
	register(&Prop{ID: "C05", Level: "fault_enumeration",
		Rule:  "saved texts (through vector.Save and through the Save of each model) with a writer that fails, cuts short, or fails once, at every byte offset (sampled offsets for texts over 4 KiB); non-trivial: text over 20 bytes",
		Parts: []Part{{Name: "faults", Quick: 2400, Thorough: 60000, New: func() any { return &saveFaultCase{} }, Gen: genC05, Judge: judgeC05}}})
}
