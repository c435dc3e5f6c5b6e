package main

import (
	"math"
	"sync"

	"pgregory.net/rapid"

	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/pkg/model/modelutil/subsample"
)

// What the trainers' goroutines share is used here from several goroutines
// under the race detector.

// together runs f(0..n-1) at the same time and returns the first error.
func together(n int, f func(g int) error) error {
	errs := make([]error, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			errs[g] = f(g)
		}(g)
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// ---- C06 ----------------------------------------------------------------

type dictParCase struct {
	Words []B
	Ask   [][]int // per goroutine: indices of words; beyond the end: absent ones
}

func genC06Par(t *rapid.T) any {
	c := &dictParCase{Words: genVocab(t, 1, 30)}
	for i := uniform(t, 0, 30, "more"); i > 0; i-- {
		c.Words = append(c.Words, c.Words[uniform(t, 0, len(c.Words)-1, "again")])
	}
	for g := uniform(t, 2, 8, "gor"); g > 0; g-- {
		var a []int
		for k := uniform(t, 1, 20, "asks"); k > 0; k-- {
			a = append(a, uniform(t, 0, len(c.Words)+3, "ask"))
		}
		c.Ask = append(c.Ask, a)
	}
	return c
}

func judgeC06Par(x any, o *Obs) error {
	c := x.(*dictParCase)
	d := dictionary.New()
	ids, freq := map[string]int{}, map[string]int{}
	for _, w := range c.Words {
		d.Add(string(w))
		if _, ok := ids[string(w)]; !ok {
			ids[string(w)] = len(ids)
		}
		freq[string(w)]++
	}
	o.Nontrivial = len(ids) >= 2
	return together(len(c.Ask), func(g int) error {
		for _, a := range c.Ask[g] {
			if a >= len(c.Words) {
				id := len(ids) + a - len(c.Words)
				if w, ok := d.Word(id); ok || d.IDFreq(id) != 0 {
					return bad("beside other lookups: id %d of %d words is %q, frequency %d", id, len(ids), w, d.IDFreq(id))
				}
				continue
			}
			w := string(c.Words[a])
			id, ok := d.ID(w)
			if !ok || id != ids[w] {
				return bad("beside other lookups: ID(%q) = %d, %v, want %d", w, id, ok, ids[w])
			}
			if back, ok := d.Word(id); !ok || back != w || d.IDFreq(id) != freq[w] || d.WordFreq(w) != freq[w] || d.Len() != len(ids) {
				return bad("beside other lookups: word %d is %q (%v), frequencies %d and %d, size %d; want %q, %d, %d", id, back, ok, d.IDFreq(id), d.WordFreq(w), d.Len(), w, freq[w], len(ids))
			}
		}
		return nil
	})
}

// ---- C29 ----------------------------------------------------------------

type matParCase struct {
	Rows, Cols, Gor int
	Rounds          int
}

func genC29Par(t *rapid.T) any {
	return &matParCase{Rows: uniform(t, 1, 40, "rows"), Cols: uniform(t, 1, 40, "cols"), Gor: uniform(t, 2, 8, "gor"), Rounds: uniform(t, 1, 4, "rounds")}
}

func judgeC29Par(x any, o *Obs) error {
	c := x.(*matParCase)
	m := matrix.New(c.Rows, c.Cols, func(i int, v []float64) {
		for j := range v {
			v[j] = float64(i*1000 + j)
		}
	})
	o.Nontrivial = c.Rows >= 2
	// goroutine g owns the rows g, g+Gor, ...
	if err := together(c.Gor, func(g int) error {
		for r := 0; r < c.Rounds; r++ {
			for i := g; i < c.Rows; i += c.Gor {
				s := m.Slice(i)
				for j := range s {
					if want := float64(i*1000+j) + float64(r)/8; s[j] != want {
						return bad("beside writes to other rows: row %d column %d is %v, want %v", i, j, s[j], want)
					}
					s[j] += 0.125
				}
			}
		}
		return nil
	}); err != nil {
		return err
	}
	for i := 0; i < c.Rows; i++ {
		for j, v := range m.Slice(i) {
			if want := float64(i*1000+j) + float64(c.Rounds)/8; v != want {
				return bad("after parallel writes to other rows: row %d column %d is %v, want %v", i, j, v, want)
			}
		}
	}
	return nil
}

// ---- C25 ----------------------------------------------------------------

type subParCase struct {
	Freqs []int
	Thr   F
	Seed  int64
	Gor   int
}

func genC25Par(t *rapid.T) any {
	c := &subParCase{Freqs: genFreqs(t, 6), Thr: genThr(t), Seed: int64(uniform(t, 1, 1<<30, "seed")), Gor: uniform(t, 2, 8, "gor")}
	if len(c.Freqs) == 0 {
		c.Freqs = []int{3}
	}
	return c
}

func judgeC25Par(x any, o *Obs) error {
	c := x.(*subParCase)
	seedRand(c.Seed)
	s := subsample.New(treeDic(c.Freqs), float64(c.Thr))
	const rounds = 400
	hits := make([][]int, c.Gor)
	if err := together(c.Gor, func(g int) error {
		hits[g] = make([]int, len(c.Freqs))
		for k := 0; k < rounds; k++ {
			for id := range c.Freqs {
				if s.Trial(id) {
					hits[g][id]++
				}
			}
		}
		return nil
	}); err != nil {
		return err
	}
	for id, f := range c.Freqs {
		p, n := subLaw(float64(c.Thr), f), 0
		if float64(f) <= float64(c.Thr) {
			p = 0
		}
		o.Nontrivial = o.Nontrivial || p > 0 && p < 1
		for g := range hits {
			n += hits[g][id]
		}
		if !rateOK(n, rounds*c.Gor, p) {
			return bad("in %d goroutines, a word occurring %d times passed %d of %d trials at threshold %v, the law says probability %.4f", c.Gor, f, n, rounds*c.Gor, c.Thr, p)
		}
	}
	return nil
}

// ---- C09 ----------------------------------------------------------------

// The counter itself, on pairs of any ids and distances.
type addCase struct {
	Typ  string
	Adds [][3]int // left, right, distance
}

func genC09Adds(t *rapid.T) any {
	c := &addCase{Typ: pick(t, "typ", co.Increment, co.Proximity)}
	pool := []int{0, 1}
	for i := uniform(t, 1, 8, "npool"); i > 0; i-- {
		pool = append(pool, int(genID(t, "id")))
	}
	for i := uniform(t, 0, 60, "nadds"); i > 0; i-- {
		c.Adds = append(c.Adds, [3]int{pool[uniform(t, 0, len(pool)-1, "l")], pool[uniform(t, 0, len(pool)-1, "r")], uniform(t, 1, pick(t, "far", 3, 40, 100000), "dist")})
	}
	return c
}

func judgeC09Adds(x any, o *Obs) error {
	c := x.(*addCase)
	m, err := co.New(c.Typ)
	if err != nil {
		return bad("New(%q): %v", c.Typ, err)
	}
	want := map[[2]uint64]float64{}
	for i, a := range c.Adds {
		l, r := uint64(a[0]), uint64(a[1])
		add := func() error { return m.AddWithDistance(a[0], a[1], a[2]) }
		if a[2] == 1 && i%2 == 0 {
			add = func() error { return m.Add(a[0], a[1]) }
		}
		if err := add(); err != nil {
			return bad("adding the pair %d, %d at distance %d: %v", l, r, a[2], err)
		}
		v := 1.
		if c.Typ == co.Proximity {
			v = 1 / float64(a[2])
		}
		want[[2]uint64{min(l, r), max(l, r)}] += v
	}
	o.Nontrivial = len(want) >= 2
	got := m.EncodedMatrix()
	if len(got) != len(want) {
		return bad("%d pairs counted, want %d", len(got), len(want))
	}
	for enc, v := range got {
		l, r := encode.DecodeBigram(enc)
		if w, ok := want[[2]uint64{min(l, r), max(l, r)}]; !ok || math.Abs(v-w) > 1e-9*w {
			return bad("pair %d, %d (%s) has count %v, want %v (present: %v)", l, r, c.Typ, v, w, ok)
		}
	}
	return nil
}

func addParallel() {
	addParts("C06", Part{Name: "lookups", Race: true, Quick: 2000, Thorough: 60000, New: func() any { return &dictParCase{} }, Gen: genC06Par, Judge: judgeC06Par})
	addParts("C29", Part{Name: "parallel", Race: true, Quick: 2000, Thorough: 60000, New: func() any { return &matParCase{} }, Gen: genC29Par, Judge: judgeC29Par})
	addParts("C25", Part{Name: "parallel", Race: true, Quick: 400, Thorough: 10000, New: func() any { return &subParCase{} }, Gen: genC25Par, Judge: judgeC25Par})
	addParts("C09", Part{Name: "adds", Quick: 12000, Thorough: 400000, New: func() any { return &addCase{} }, Gen: genC09Adds, Judge: judgeC09Adds})
}
