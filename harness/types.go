package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// B is a byte string that survives JSON whatever its bytes are.
type B string

func (b B) MarshalJSON() ([]byte, error) {
	if len(b) > 200 && strings.Count(string(b), string(b[0])) == len(b) {
		return json.Marshal(fmt.Sprintf("*%d*%s", len(b), strconv.QuoteToASCII(string(b[:1]))))
	}
	return json.Marshal(strconv.QuoteToASCII(string(b)))
}

func (b *B) UnmarshalJSON(j []byte) error {
	var s string
	if err := json.Unmarshal(j, &s); err != nil {
		return err
	}
	n := 1
	if strings.HasPrefix(s, "*") {
		c, rest, _ := strings.Cut(s[1:], "*")
		v, err := strconv.Atoi(c)
		if err != nil {
			return err
		}
		n, s = v, rest
	}
	u, err := strconv.Unquote(s)
	if err != nil {
		return err
	}
	*b = B(strings.Repeat(u, n))
	return nil
}

// F is a float64 that survives JSON exactly, NaN and infinities included.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	v := float64(f)
	if math.IsNaN(v) || math.IsInf(v, 0) {
		return json.Marshal(strconv.FormatFloat(v, 'g', -1, 64))
	}
	return []byte(strconv.FormatFloat(v, 'g', -1, 64)), nil
}

func (f *F) UnmarshalJSON(j []byte) error {
	s := strings.Trim(string(j), `"`)
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return err
	}
	*f = F(v)
	return nil
}

func floats(v []F) []float64 {
	r := make([]float64, len(v))
	for i := range v {
		r[i] = float64(v[i])
	}
	return r
}

func strs(v []B) []string {
	r := make([]string, len(v))
	for i := range v {
		r[i] = string(v[i])
	}
	return r
}

// ---- small generator helpers --------------------------------------------

func intIn(t *rapid.T, lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(t, label) }

func pick[E any](t *rapid.T, label string, opts ...E) E {
	return opts[rapid.IntRange(0, len(opts)-1).Draw(t, label)]
}

func chance(t *rapid.T, oneIn int, label string) bool {
	return rapid.IntRange(1, oneIn).Draw(t, label) == oneIn
}

func boolean(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

// uniform draws from [lo,hi] without rapid's bias to small values.
func uniform(t *rapid.T, lo, hi int, label string) int {
	n := hi - lo + 1
	v, span := 0, 1
	for span < 8*n && span < 1<<40 {
		v = v*8 + rapid.IntRange(0, 7).Draw(t, label)
		span *= 8
	}
	return lo + int(float64(v)/float64(span)*float64(n))
}

// sizeBiased draws a size in [lo,hi]: small ones often, all of them sometimes.
func sizeBiased(t *rapid.T, lo, hi int, label string) int {
	if boolean(t, label+"?") {
		return uniform(t, lo, hi, label)
	}
	return intIn(t, lo, min(hi, lo+6), label)
}

// realIn draws a float from [lo,hi], about uniformly.
func realIn(t *rapid.T, lo, hi float64, label string) F {
	switch intIn(t, 0, 5, label+".k") {
	case 0:
		return F(rapid.Float64Range(lo, hi).Draw(t, label))
	default:
		return F(lo + (hi-lo)*float64(uniform(t, 0, 1<<18, label))/(1<<18))
	}
}

// seedRand makes math/rand a function of the case (the harness is built with
// randseednop=0, so seeding works whatever /repo's go directive says).
func seedRand(seed int64) { rand.Seed(seed) } //nolint

func scratch() string {
	d := os.Getenv("WV_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

func near(a, b, tol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	return math.Abs(a-b) <= tol
}

func refNorm(v []float64) float64 {
	var m float64
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	if m == 0 {
		return 0
	}
	var s, c float64 // Kahan
	for _, x := range v {
		y := (x/m)*(x/m) - c
		t := s + y
		c = (t - s) - y
		s = t
	}
	return m * math.Sqrt(s)
}
