package checks

import (
	"fmt"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verifmc/eng"
	"verifmc/ref"
)

// rampI: distinct small integers of both signs, so that sums of products are exact.
func rampI(s []int, k int) ref.T {
	t := ref.New(s)
	n := len(t.V)
	for i := range t.V {
		t.V[i] = float64((i*7+k*3)%(2*n+3) + 1 + i)
		if (i+k)%2 == 1 {
			t.V[i] = -t.V[i]
		}
	}
	return t
}

// prodMag is the sum of absolute products of each output element.
func prodMag(name string, a, b ref.T) []float64 {
	p := func(_ int, v float64) float64 {
		if v < 0 {
			return -v
		}
		return v
	}
	o, _ := refBin(name, mapT(a, p), mapT(b, p))
	return o.V
}

func c04Prod(c *eng.C, name string, a, b ref.T) tn {
	x, y := mk(c, a, false), mk(c, b, false)
	c.Op("%v.%s(%v)", a.S, name, b.S)
	r, err := libBin(name, x, y)
	c.Check(err == nil, "%v.%s(%v) failed: %v", a.S, name, b.S, err)
	want, ok := refBin(name, a, b)
	if !ok {
		panic("harness: invalid pair")
	}
	checkT(c, fmt.Sprintf("%v.%s(%v)", a.S, name, b.S), r, want.T, prodMag(name, a, b))
	checkT(c, "left operand afterwards", x, a, nil)
	checkT(c, "right operand afterwards", y, b, nil)
	c.Validated()
	return r
}

func eyeRef(n int) ref.T {
	t := ref.New([]int{n, n})
	for i := 0; i < n; i++ {
		t.V[i*n+i] = 1
	}
	return t
}

func must(c *eng.C, what string, x tn, err error) tn {
	if err != nil {
		c.Fail("%s failed: %v", what, err)
	}
	if x == nil {
		c.Fail("%s returned nil", what)
	}
	return x
}

func runC04(w *eng.W) {
	w.Section("MatMul: all batch-shape pairs x m,n,k")
	seen := map[string]bool{}
	type cfg struct {
		batchRank int
		dims      []int
		maxBatch  int
		mnk       []int
		maxMNK    int
	}
	cfgs := []cfg{
		{0, nil, 1, []int{1, 2, 3, 4, 5, 6, 7}, 343},
		{1, []int{1, 2, 3, 4}, 4, []int{1, 2, 3, 4}, 64},
		{2, []int{1, 2, 3, 4}, 16, []int{1, 2, 3}, 27},
		{3, []int{1, 2, 3}, 27, []int{1, 2, 3}, w.Pick(12, 27)},
		{4, []int{1, 2}, 16, []int{1, 2, 3}, w.Pick(12, 27)},
		{4, []int{1, 2, 3}, w.Pick(24, 81), []int{1, 2, 3}, w.Pick(6, 12)},
	}
	for _, f := range cfgs {
		bs := shapes(f.batchRank, f.dims, f.maxBatch)
		for _, ba := range bs {
			for _, bb := range bs {
				full, ok := ref.BroadcastShapes(ba, bb)
				if !ok || ref.Prod(full) > w.Pick(36, 81) {
					continue
				}
				for _, m := range f.mnk {
					for _, n := range f.mnk {
						for _, k := range f.mnk {
							if m*n*k > f.maxMNK {
								continue
							}
							a := append(ref.CopyInts(ba), m, n)
							b := append(ref.CopyInts(bb), n, k)
							key := ints(a) + ints(b)
							if seen[key] {
								continue
							}
							seen[key] = true
							w.Case(func() string { return "MatMul " + ints(a) + " x " + ints(b) }, func(c *eng.C) {
								c04Prod(c, "MatMul", rampI(a, 0), rampI(b, 1))
								c04Prod(c, "MatMul", mixed(a, 2), mixed(b, 3))
							})
						}
					}
				}
			}
		}
	}
	w.Section("MatMul identities")
	for _, s := range shapes(6, []int{1, 2, 3}, w.Pick(324, 729)) {
		if len(s) < 2 {
			continue
		}
		s := s
		w.Case(func() string { return "identities " + ints(s) }, func(c *eng.C) {
			r := len(s)
			m, n := s[r-2], s[r-1]
			a := rampI(s, 0)
			x := mk(c, a, false)
			for _, side := range []bool{false, true} {
				d := n
				if side {
					d = m
				}
				e, err := tensor.Eye(d, nil)
				must(c, "Eye", e, err)
				checkT(c, "Eye", e, eyeRef(d), nil)
				var y tn
				if side {
					y, err = e.MatMul(x)
				} else {
					y, err = x.MatMul(e)
				}
				c.Op("A.I / I.A on %v", s)
				must(c, "MatMul with Eye", y, err)
				checkT(c, fmt.Sprintf("A %v times identity (left=%v)", s, side), y, a, nil)
			}
			// (A.B)^T = B^T.A^T
			for _, k := range []int{1, 2, 3} {
				sb := ref.CopyInts(s)
				sb[r-2], sb[r-1] = n, k
				b := rampI(sb, 4)
				y := mk(c, b, false)
				ab, err := x.MatMul(y)
				must(c, "A.B", ab, err)
				abt, err := ab.Transpose()
				must(c, "(A.B)^T", abt, err)
				xt, err := x.Transpose()
				must(c, "A^T", xt, err)
				yt, err := y.Transpose()
				must(c, "B^T", yt, err)
				btat, err := yt.MatMul(xt)
				must(c, "B^T.A^T", btat, err)
				checkT(c, "B^T.A^T", btat, get(c, "(A.B)^T", abt), nil)
				c.Op("(A.B)^T = B^T.A^T, k=%d", k)
				// distributivity with the same operands reused
				ab2, err := x.MatMul(y)
				must(c, "A.B again", ab2, err)
				checkT(c, "A.B computed a second time", ab2, get(c, "A.B", ab), nil)
			}
			if m == n {
				y, err := x.MatMul(x)
				must(c, "A.A", y, err)
				checkT(c, "A.A", y, ref.MatMul(a, a).T, nil)
			}
			c.Validated()
		})
	}
	w.Section("MatMul on all 0/1 matrices")
	lim := 9
	for m := 1; m <= 3; m++ {
		for n := 1; n <= 3; n++ {
			for k := 1; k <= 3; k++ {
				if m*n > lim || n*k > lim || m*n+n*k > w.Pick(13, 18) {
					continue
				}
				for bits := 0; bits < 1<<(m*n); bits++ {
					m, n, k, bits := m, n, k, bits
					w.Case(func() string { return fmt.Sprintf("0/1 %dx%dx%d mask %b", m, n, k, bits) }, func(c *eng.C) {
						a := mapT(ref.New([]int{m, n}), func(i int, _ float64) float64 { return float64(bits >> i & 1) })
						for q := 0; q < 1<<(n*k); q++ {
							b := mapT(ref.New([]int{n, k}), func(i int, _ float64) float64 { return float64(q >> i & 1) })
							c04Prod(c, "MatMul", a, b)
						}
					})
				}
			}
		}
	}
	w.Section("special values")
	spec := []float64{0, 1, -1, 2, 1e150, -1e150, 1e-150, 1e-300, 1e300, -1e-8, 1e8, 0.1}
	for i := range spec {
		for j := range spec {
			i, j := i, j
			w.Case(func() string { return fmt.Sprintf("special %v %v", spec[i], spec[j]) }, func(c *eng.C) {
				for k := range spec {
					a := ref.Of([]int{2, 2}, spec[i], spec[j], spec[k], 1)
					for q := range spec {
						b := ref.Of([]int{2, 2}, spec[q], spec[j], 1, spec[i])
						if o, _ := refBin("MatMul", a, b); !finite(o.V) || !finite(prodMag("MatMul", a, b)) {
							continue
						}
						c04Prod(c, "MatMul", a, b)
						c04Prod(c, "Dot", a, b)
					}
				}
			})
		}
	}
	w.Section("Dot: all pairs")
	seen = map[string]bool{}
	for _, f := range []cfg{{0, nil, 1, []int{1, 2, 3, 4, 5, 6, 7, 8, 9}, 9}, {1, []int{1, 2, 3, 4, 5}, 5, []int{1, 2, 3, 4, 5}, 5}, {2, []int{1, 2, 3, 4}, 16, []int{1, 2, 3, 4}, 4},
		{3, []int{1, 2, 3}, 27, []int{1, 2, 3}, 3}, {4, []int{1, 2}, 16, []int{1, 2, 3}, 3}, {5, []int{1, 2}, 32, []int{1, 2, 3}, 3}, {4, []int{1, 2, 3}, 81, []int{1, 2, 3}, 3}, {5, []int{1, 2, 3}, w.Pick(36, 108), []int{1, 2, 3}, 3}} {
		bs := shapes(f.batchRank, f.dims, f.maxBatch)
		for _, ba := range bs {
			for _, bb := range bs {
				if _, ok := ref.BroadcastShapes(ba, bb); !ok {
					continue
				}
				for _, n := range f.mnk {
					a, b := append(ref.CopyInts(ba), n), append(ref.CopyInts(bb), n)
					key := ints(a) + ints(b)
					if seen[key] {
						continue
					}
					seen[key] = true
					w.Case(func() string { return "Dot " + ints(a) + " . " + ints(b) }, func(c *eng.C) {
						c04Prod(c, "Dot", rampI(a, 0), rampI(b, 1))
						c04Prod(c, "Dot", mixed(a, 2), mixed(b, 3))
					})
				}
			}
		}
	}
	w.Section("Transpose")
	seen = map[string]bool{}
	for _, f := range []cfg{{6, []int{1, 2, 3}, 729, nil, 0}, {4, []int{1, 2, 3, 4, 5}, 625, nil, 0}, {2, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}, 169, nil, 0}, {5, []int{1, 2, 3, 4}, 1024, nil, 0}} {
		for _, s := range shapes(f.batchRank, f.dims, f.maxBatch) {
			if len(s) < 2 || seen[ints(s)] {
				continue
			}
			seen[ints(s)] = true
			s := s
			w.Case(func() string { return "Transpose " + ints(s) }, func(c *eng.C) {
				a := ramp(s)
				x := mk(c, a, false)
				c.Op("%v.Transpose()", s)
				y, err := x.Transpose()
				must(c, "Transpose", y, err)
				checkT(c, fmt.Sprintf("%v.Transpose()", s), y, ref.Transpose(a).T, nil)
				z, err := y.Transpose()
				must(c, "Transpose twice", z, err)
				checkT(c, "Transpose twice", z, a, nil)
				checkT(c, "operand afterwards", x, a, nil)
				c.Validated()
			})
		}
	}
	gridC04(w)
	chainsC04(w)
	giantsC04(w)
	w.Section("size ladder")
	for _, n := range ladder(w.Pick(8193, 16385)) {
		for form := 0; form < 9; form++ {
			n, form := n, form
			w.Case(func() string { return fmt.Sprintf("ladder %d form %d", n, form) }, func(c *eng.C) {
				var a, b []int
				name := "MatMul"
				switch form {
				case 0:
					a, b = []int{n, 2}, []int{2, 3}
				case 1:
					a, b = []int{2, n}, []int{n, 3}
				case 2:
					a, b = []int{2, 3}, []int{3, n}
				case 3:
					a, b = []int{n, 1, 2}, []int{2, 2}
				case 4:
					a, b = []int{n, 2, 2}, []int{n, 2, 1}
				case 5:
					name, a, b = "Dot", []int{n}, []int{n}
				case 6:
					name, a, b = "Dot", []int{n, 2}, []int{n, 2}
				case 7:
					name, a, b = "Dot", []int{2, n}, []int{n}
				case 8:
					if n > w.Pick(65, 129) {
						return
					}
					a, b = []int{n, n}, []int{n, n}
				}
				x, y := rampI(a, 0), rampI(b, 1)
				c04Prod(c, name, x, y)
				if len(a) > 1 {
					t := mk(c, x, false)
					z, err := t.Transpose()
					must(c, "Transpose", z, err)
					checkT(c, "Transpose of "+ints(a), z, ref.Transpose(x).T, nil)
				}
			})
		}
	}
}

func init() {
	register(&eng.Check{ID: "C04", Run: runC04,
		Bounds: func(tier string) string {
			return "MatMul: rank 2 with m,n,k in 1..7; all compatible pairs of batch shapes rank<=2 dims 1..4, rank<=4 dims {1,2,3} (rank-4 batch cap 24 quick, 81 thorough), m,n,k in {1,2,3} with a cap on m*n*k for batch ranks 3 and 4; identities A.I, I.A, (A.B)^T on shapes rank 2..6 dims {1,2,3} (cap 324 / 729); every 0/1 matrix pair of at most 13 (18) entries up to 3x3x3; 12^4 special-value quadruples; " +
				"Dot: all compatible pairs of leading shapes rank<=5; Transpose: all shapes rank 2..6 dims {1,2,3}, rank<=4 dims 1..5, rank 2 dims 1..13; one dimension up to 8193 (16385)"
		},
		Assumptions: []string{"tolerance 1e-9 of the sum of absolute products; integer-valued operands are compared exactly up to that"}})
}
