package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/sahandsafizadeh/qeep/component/metrics"

	"verifmc/eng"
	"verifmc/ref"
)

// acc couples the metric with its model.
type acc struct {
	m       *metrics.Accuracy
	n, hits int
}

func newAcc() *acc { return &acc{m: metrics.NewAccuracy()} }

func (a *acc) check(c *eng.C, what string) {
	want := 0.0
	if a.n > 0 {
		want = float64(a.hits) / float64(a.n)
	}
	for i := 0; i < 2; i++ {
		r, err := a.m.Result()
		if err != nil {
			c.Fail("%s: Result failed: %v", what, err)
		}
		if r != want {
			if d := r - want; !(d < 1e-13 && d > -1e-13) {
				c.Fail("%s: Result is %v, expected %d/%d = %v", what, r, a.hits, a.n, want)
			}
		}
		if !(r >= 0 && r <= 1) {
			c.Fail("%s: Result %v is outside [0,1]", what, r)
		}
	}
	c.AddValues(1)
	c.State(eng.NewHasher().I(a.n).I(a.hits).Sum())
}

func (a *acc) add(c *eng.C, what string, p, t []float64, sp, st source, tracked bool) {
	pv, tv := ref.Of([]int{len(p)}, p...), ref.Of([]int{len(t)}, t...)
	if !sp.ok(pv.S) || !sp.exact(pv) {
		sp = sources[0]
	}
	if !st.ok(tv.S) || !st.exact(tv) {
		st = sources[0]
	}
	x, _ := sp.mk(c, pv, tracked)
	y, _ := st.mk(c, tv, false)
	c.Op("%s: Accumulate(%v, %v)", what, trim(p), trim(t))
	if err := a.m.Accumulate(x, y); err != nil {
		c.Fail("%s: Accumulate(%v, %v) failed: %v", what, trim(p), trim(t), err)
	}
	a.n += len(p)
	for i := range p {
		if p[i] == t[i] {
			a.hits++
		}
	}
}

var accInvalid = []struct {
	name string
	p, t []int // nil: nil tensor
}{
	{"nil prediction", nil, []int{2}}, {"nil target", []int{2}, nil}, {"both nil", nil, nil}, {"longer prediction", []int{3}, []int{2}}, {"longer target", []int{2}, []int{5}},
	{"one against many", []int{1}, []int{3}}, {"many against one", []int{3}, []int{1}}, {"scalar prediction", []int{}, []int{1}}, {"scalar target", []int{2}, []int{}}, {"two scalars", []int{}, []int{}},
	{"matrix prediction", []int{2, 1}, []int{2}}, {"matrix target", []int{2}, []int{1, 2}}, {"two matrices", []int{2, 2}, []int{2, 2}}, {"two columns", []int{2, 1}, []int{2, 1}}, {"rank 3", []int{1, 1, 1}, []int{1, 1, 1}},
}

func (a *acc) reject(c *eng.C, k int) {
	v := accInvalid[k]
	var x, y tn
	if v.p != nil {
		x = mk(c, ref.Full(v.p, 1), false)
	}
	if v.t != nil {
		y = mk(c, ref.Full(v.t, 1), false)
	}
	c.Op("Accumulate: %s", v.name)
	if err := a.m.Accumulate(x, y); err == nil {
		c.Fail("Accumulate accepted invalid input: %s (%v, %v)", v.name, v.p, v.t)
	}
}

// closeLabels are pairs of different labels a tolerant comparison, a conversion or a hash could confuse.
var closeLabels = [][2]float64{{1, math.Nextafter(1, 2)}, {0.3, 0.1 + 0.2}, {1e9, 1e9 + 1}, {0, 1e-12}, {5, 5 + 1e-9}, {1 << 53, 1<<53 - 1}, {1 << 31, 1<<31 - 1}, {-1, 1}, {2, 2.5}, {1e300, math.MaxFloat64}, {math.Inf(1), math.MaxFloat64},
	{math.Inf(1), math.Inf(-1)}, {256, 0}, {65536, 0}, {1 << 32, 0}, {1e-200, 0}, {0.5, 0}, {-0.5, 0}, {1, 0.9999999}, {3, float64(float32(3.1))}, {0.1, float64(float32(0.1))}, {math.NaN(), math.NaN()}, {math.NaN(), 0}}

// bits turns a mask into a batch: position i matches iff bit i; labels vary with k.
func bits(mask, n, k int) (p, t []float64) {
	lab := []float64{0, 1, math.Inf(1), -1, 0.5, 7}
	for i := 0; i < n; i++ {
		v := lab[(i+k)%len(lab)]
		t = append(t, v)
		if mask>>i&1 == 1 {
			p = append(p, v)
		} else {
			p = append(p, lab[(i+k+1+i%3)%len(lab)])
		}
	}
	return
}

func runC19(w *eng.W) {
	w.Section("label letters")
	ls := []float64{0, negZ, 1, -1, 2, 0.5, 0.3, 0.1 + 0.2, 1e-12, -1e-12, 1e-200, 1e9, 1e9 + 1, up(1), down(1), 1e15, -1e300, 1e300, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN()}
	for i := range ls {
		w.Case(func() string { return fmt.Sprintf("first label %v", ls[i]) }, func(c *eng.C) {
			for k := 1; k <= w.Pick(2, 2); k++ {
				tuples(len(ls), 2*k-1, func(q []int) bool {
					v := []float64{ls[i]}
					for _, j := range q {
						v = append(v, ls[j])
					}
					a := newAcc()
					a.add(c, "letters", v[:k], v[k:], sources[0], sources[0], false)
					a.check(c, fmt.Sprintf("letters %v, %v", v[:k], v[k:]))
					c.Validated()
					return true
				})
			}
		})
	}
	w.Section("sizes and origins")
	for n := 1; n <= w.Pick(40, 130); n++ {
		w.Case(func() string { return fmt.Sprintf("batch of %d", n) }, func(c *eng.C) { accSize(c, n) })
	}
	for _, n := range []int{255, 256, 257, 1000, 1024, 1025, 4096, 16385} {
		w.Case(func() string { return fmt.Sprintf("batch of %d", n) }, func(c *eng.C) { accSize(c, n) })
	}
	w.Section("every number of matches")
	for n := 1; n <= w.Pick(256, 600); n++ {
		w.Case(func() string { return fmt.Sprintf("batch of %d, every number of matches", n) }, func(c *eng.C) {
			p, t := make([]float64, n), make([]float64, n)
			a := newAcc()
			y := mk(c, ref.Of([]int{n}, t...), false)
			for k := 0; k <= n; k++ {
				for i := range p {
					p[i] = 1
					if i < k {
						p[i] = 0
					}
				}
				c.Beat()
				one := newAcc()
				x := mk(c, ref.Of([]int{n}, p...), false)
				for _, m := range []*acc{one, a} {
					if err := m.m.Accumulate(x, y); err != nil {
						c.Fail("Accumulate of a batch of %d failed: %v", n, err)
					}
					m.n += n
					m.hits += k
					m.check(c, fmt.Sprintf("%d of %d", k, n))
				}
			}
			c.Validated()
		})
	}
	w.Section("re-partitions")
	maxN := w.Pick(10, 12)
	for n := 1; n <= maxN; n++ {
		for m := 0; m < 1<<n; m += 8 {
			w.Case(func() string { return fmt.Sprintf("%d positions, match masks %d..%d", n, m, m+7) }, func(c *eng.C) {
				for mask := m; mask < m+8 && mask < 1<<n; mask++ {
					p, t := bits(mask, n, mask)
					for cut := 0; cut < 1<<(n-1); cut++ {
						c.Beat()
						a := newAcc()
						from := 0
						for i := 1; i <= n; i++ {
							if i == n || cut>>(i-1)&1 == 1 {
								a.add(c, "part", p[from:i], t[from:i], sources[0], sources[0], false)
								from = i
							}
						}
						a.check(c, fmt.Sprintf("%d positions, match mask %b, cut %b", n, mask, cut))
						c.Validated()
					}
				}
			})
		}
	}
	w.Section("histories")
	// letters: batches (size, match mask), invalid calls, a query
	type letter struct {
		name string
		n, m int
		bad  int
	}
	var al []letter
	for n := 1; n <= 3; n++ {
		for m := 0; m < 1<<n; m++ {
			if n < 3 || m == 0 || m == 7 || m == 5 || m == 2 {
				al = append(al, letter{fmt.Sprintf("%d/%b", n, m), n, m, -1})
			}
		}
	}
	for k := range accInvalid {
		al = append(al, letter{accInvalid[k].name, 0, 0, k})
	}
	al = append(al, letter{"Result", 0, 0, -1})
	depth := w.Pick(4, 5)
	for i := range al {
		for j := range al {
			w.Case(func() string { return fmt.Sprintf("%s; %s; + every %d calls", al[i].name, al[j].name, depth-2) }, func(c *eng.C) {
				tuples(len(al), depth-2, func(q []int) bool {
					c.Beat()
					a := newAcc()
					a.check(c, "before any call")
					var h []string
					for s, k := range append([]int{i, j}, q...) {
						l := al[k]
						h = append(h, l.name)
						switch {
						case l.bad >= 0:
							a.reject(c, l.bad)
						case l.n > 0:
							p, t := bits(l.m, l.n, s)
							a.add(c, l.name, p, t, sources[0], sources[0], false)
						}
						if l.name == "Result" || s == depth-1 || l.bad >= 0 {
							a.check(c, strings.Join(h, "; "))
						}
					}
					c.Validated()
					return true
				})
			})
		}
	}
	w.Section("two metrics, inputs reused, long runs")
	w.Case(func() string { return "interleaved" }, func(c *eng.C) {
		for m := 0; m < 256; m++ {
			a, b := newAcc(), newAcc()
			for i := 0; i < 8; i++ {
				p, t := bits(m>>(i%5), 1+i%3, i)
				x := a
				if m>>i&1 == 1 {
					x = b
				}
				x.add(c, "interleaved", p, t, sources[i%len(sources)], sources[(i+3)%len(sources)], i%2 == 0)
				a.check(c, "first metric")
				b.check(c, "second metric")
			}
			c.Validated()
		}
	})
	w.Case(func() string { return "same tensor as prediction and target; same tensors repeatedly" }, func(c *eng.C) {
		a := newAcc()
		x, y := mk(c, ref.Of([]int{4}, 0, 1, 2, 3), true), mk(c, ref.Of([]int{4}, 0, 1, 1, 3), true)
		for i := 0; i < 300; i++ {
			if err := a.m.Accumulate(x, x); err != nil {
				c.Fail("Accumulate: %v", err)
			}
			if err := a.m.Accumulate(x, y); err != nil {
				c.Fail("Accumulate: %v", err)
			}
			a.n += 8
			a.hits += 7
			a.check(c, "repeated")
		}
		bp(c, "x", x)
		if err := a.m.Accumulate(x, y); err != nil {
			c.Fail("Accumulate of spent tensors: %v", err)
		}
		a.n += 4
		a.hits += 3
		a.check(c, "after back-propagation")
		c.Validated()
	})
	// totals past every plausible counter width below 2^20
	for _, n := range []int{16385, 32769, 65537, 100001} {
		for _, period := range []int{1, 2, 7, 1 << 30} {
			w.Case(func() string { return fmt.Sprintf("accumulation of batches of %d, a miss every %d", n, period) }, func(c *eng.C) {
				a := newAcc()
				p, t := make([]float64, n), make([]float64, n)
				for i := range p {
					t[i] = float64(i % 3)
					p[i] = t[i]
					if period > 1 && i%period == period-1 {
						p[i]++
					}
				}
				for i := 0; i*n < w.Pick(300000, 1200000); i++ {
					c.Beat()
					a.add(c, "large totals", p, t, sources[0], sources[0], false)
					a.check(c, fmt.Sprintf("batch %d of %d", i, n))
				}
				c.Outcome("large totals")
			})
		}
	}
	w.Case(func() string { return "more than 2^24 matches" }, func(c *eng.C) {
		const n = 1<<20 + 3
		p, t := make([]float64, n), make([]float64, n)
		hits := 0
		for i := range p {
			t[i] = float64(i % 3)
			p[i] = t[i]
			if i%1021 == 5 {
				p[i]++
			} else {
				hits++
			}
		}
		x, y := mk(c, ref.Of([]int{n}, p...), false), mk(c, ref.Of([]int{n}, t...), false)
		a := newAcc()
		for i := 0; i < w.Pick(18, 40); i++ {
			c.Beat()
			must2(c, "Accumulate", a.m.Accumulate(x, y))
			a.n += n
			a.hits += hits
			a.check(c, fmt.Sprintf("batch %d of %d", i, n))
		}
		a.add(c, "single", []float64{1}, []float64{2}, sources[0], sources[0], false)
		a.check(c, "a single miss")
		c.Validated()
	})
	for _, n := range []int{1, 3, 7, 64} {
		w.Case(func() string { return fmt.Sprintf("long run of batches of %d", n) }, func(c *eng.C) {
			a := newAcc()
			long := w.Pick(400, 4000)
			if n == 3 {
				long = w.Pick(70000, 300000)
			}
			for i := 0; i < long; i++ {
				if i%256 == 0 {
					c.Beat()
				}
				m := i * 2654435761
				p, t := bits(m&(1<<min(n, 20)-1), n, i)
				a.add(c, "long run", p, t, sources[0], sources[0], false)
				if i%17 == 0 {
					a.reject(c, i%len(accInvalid))
				}
				a.check(c, fmt.Sprintf("long run, batch %d", i))
			}
			c.Validated()
		})
	}
}

func accSize(c *eng.C, n int) {
	for _, src := range sources {
		for _, st := range []source{sources[0], src} {
			for k := 0; k < 4; k++ {
				a := newAcc()
				m := []int{0, -1, 0x5555555555, 0x123456789}[k]
				p, t := make([]float64, n), make([]float64, n)
				for i := range p {
					t[i] = float64(i % 5)
					p[i] = t[i]
					if m>>(i%40)&1 == 0 {
						p[i]++
					}
				}
				for r := 0; r < 2; r++ {
					a.add(c, src.name, p, t, src, st, k%2 == 0)
					a.check(c, fmt.Sprintf("batch of %d from %s", n, src.name))
				}
				c.Validated()
			}
		}
	}
	// labels that differ by very little are different labels
	for k := range closeLabels {
		a := newAcc()
		p, t := make([]float64, n), make([]float64, n)
		for i := range p {
			q := closeLabels[(i+k)%len(closeLabels)]
			p[i], t[i] = q[0], q[1-i%2*(1-i/2%2)]
			if i%3 == 2 {
				p[i], t[i] = t[i], p[i]
			}
		}
		a.add(c, "close labels", p, t, sources[0], sources[0], k%2 == 0)
		a.check(c, fmt.Sprintf("batch of %d, close labels", n))
		// all of them one pair
		b := newAcc()
		for i := range p {
			p[i], t[i] = closeLabels[k][0], closeLabels[k][1]
		}
		b.add(c, "close labels", p, t, sources[0], sources[0], k%2 == 0)
		b.check(c, fmt.Sprintf("batch of %d of the labels %v", n, closeLabels[k]))
		c.Validated()
	}
	// one match at every position, one mismatch at every position
	for i := 0; i < n && n <= 130; i++ {
		for _, inv := range []bool{false, true} {
			p, t := make([]float64, n), make([]float64, n)
			for j := range p {
				t[j] = float64(j%3 + 1)
				p[j] = t[j]
				if (i == j) == inv {
					p[j] = -4
				}
			}
			a := newAcc()
			a.add(c, "single", p, t, sources[0], sources[0], false)
			a.check(c, fmt.Sprintf("batch of %d, position %d, mismatch %v", n, i, inv))
		}
	}
}

func init() {
	register(&eng.Check{ID: "C19", Run: runC19,
		Bounds: func(tier string) string {
			th := tier == "thorough"
			return fmt.Sprintf("all label pairs over 22 letters (infinities and NaN included) in batches of 1 and 2; all batch sizes up to %d (and up to 16385; accumulated totals of up to 300000 from batches of up to 100001) from %d origins, single match / mismatch at every position; every number of matches of every batch size up to %d, alone and accumulated; every match mask of 1..%d positions x every partition into batches; every history of %d calls over %d valid batches, %d kinds of invalid call and queries; interleaved metrics, reused tensors, runs of up to 70000 (300000) calls, more than 2^24 matches",
				map[bool]int{false: 40, true: 130}[th], len(sources), map[bool]int{false: 256, true: 600}[th], map[bool]int{false: 10, true: 12}[th], map[bool]int{false: 4, true: 5}[th], 10, len(accInvalid))
		},
		Assumptions: []string{"labels closer than the library's equality threshold 1e-240 are not judged; an infinite label equals itself, a NaN equals nothing"}})
}
