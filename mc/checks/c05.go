package checks

import (
	"fmt"
	"math"

	"verifmc/eng"
	"verifmc/ref"
)

func libWhole(name string, x tn) float64 {
	switch name {
	case "Sum":
		return x.Sum()
	case "Max":
		return x.Max()
	case "Min":
		return x.Min()
	case "Avg":
		return x.Avg()
	case "Var":
		return x.Var()
	case "Std":
		return x.Std()
	case "Mean":
		return x.Mean()
	}
	panic(name)
}

// statTol: absolute tolerance for a statistic of v.
func statTol(name string, v []float64, want float64) float64 {
	big, sum := maxAbs(v), 0.0
	for _, x := range v {
		sum += math.Abs(x)
	}
	n := float64(len(v))
	rel := math.Max(1e-12, 2.3e-16*n) // any order of summation
	switch name {
	case "Sum":
		return rel * sum
	case "Avg", "Mean":
		return rel*sum/n + 1e-15*math.Abs(want)
	case "Var":
		d := 1e-14 * n * big
		return 1e-9*want + d*d + 1e-12*math.Sqrt(want)*big + 1e-320
	case "Std":
		return 1e-9*want + 1e-12*big + 1e-322
	}
	return 0
}

func statOK(name string, v []float64, got float64) (want float64, ok bool) {
	want, _, _ = ref.Stat(name, v)
	if got == want {
		return want, true
	}
	if total, _, _ := ref.Stat("Sum", v); name != "Max" && name != "Min" && (math.IsInf(total, 0) || math.IsInf(want, 0)) {
		return want, true // the sum, or the variance itself, is outside the float64 range
	}
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return want, math.IsNaN(want) && math.IsNaN(got)
	}
	return want, math.Abs(got-want) <= statTol(name, v, want)
}

func c05Tensor(c *eng.C, a ref.T, what string) {
	x := mk(c, a, false)
	for _, name := range ref.StatNames {
		c.Op("%s of %v (%s)", name, a.S, what)
		if want, ok := statOK(name, a.V, libWhole(name, x)); !ok {
			c.Fail("%s of %s %v is %v, expected %v", name, what, a.S, libWhole(name, x), want)
		}
		for d := range a.S {
			c.Op("%sAlong(%d) of %v", name, d, a.S)
			y, err := libAlong(name, x, d)
			must(c, fmt.Sprintf("%sAlong(%d) on %v", name, d, a.S), y, err)
			got := get(c, "result", y)
			want := ref.Along(name, a, d)
			if !ref.SameShape(got.S, want.S) {
				c.Fail("%sAlong(%d) of %v has shape %v, expected %v", name, d, a.S, got.S, want.S)
			}
			for o, row := range want.J {
				fibre := make([]float64, len(row))
				for i, t := range row {
					fibre[i] = a.V[t.I]
				}
				if w, ok := statOK(name, fibre, got.V[o]); !ok {
					c.Fail("%sAlong(%d) of %s %v, element %d: got %v, expected %v (fibre %v)", name, d, what, a.S, o, got.V[o], w, trim(fibre))
				}
			}
			c.AddValues(len(got.V))
			c.Validated()
		}
	}
	checkT(c, "operand after the reductions", x, a, nil)
}

// stat patterns
func c05Patterns(s []int) map[string]ref.T {
	n := ref.Prod(s)
	p := map[string]ref.T{
		"mixed": mixed(s, 1), "ramp": ramp(s), "negative": mapT(mixed(s, 2), func(_ int, v float64) float64 { return -math.Abs(v) - 1 }),
		"positive": mapT(mixed(s, 2), func(_ int, v float64) float64 { return math.Abs(v) + 1 }),
		"constant": constV(s, 3.7), "zeros": ref.New(s),
		"ties":       mapT(ref.New(s), func(i int, _ float64) float64 { return float64(i*i%3) - 1 }),
		"offset":     mapT(mixed(s, 4), func(_ int, v float64) float64 { return v + 1e6 }),
		"negoffset":  mapT(mixed(s, 4), func(_ int, v float64) float64 { return v - 1e6 }),
		"tiny":       mapT(mixed(s, 5), func(_ int, v float64) float64 { return v * 1e-9 }),
		"huge":       mapT(mixed(s, 6), func(_ int, v float64) float64 { return v * 1e100 }),
		"hugeneg":    mapT(mixed(s, 6), func(_ int, v float64) float64 { return -math.Abs(v) * 1e150 }),
		"gigantic":   mapT(mixed(s, 6), func(_ int, v float64) float64 { return v * 1e300 }),
		"squares":    mapT(mixed(s, 6), func(_ int, v float64) float64 { return v * 1e-162 }),
		"minute":     mapT(mixed(s, 6), func(_ int, v float64) float64 { return v * 1e-300 }),
		"descending": mapT(ref.New(s), func(i int, _ float64) float64 { return float64(n - i) }),
		"ascending":  mapT(ref.New(s), func(i int, _ float64) float64 { return float64(i) - float64(n) - 1 }),
	}
	return p
}

func runC05(w *eng.W) {
	w.Section("shapes x patterns")
	seen := map[string]bool{}
	names := []string{"mixed", "ramp", "negative", "positive", "constant", "zeros", "ties", "offset", "negoffset", "tiny", "huge", "hugeneg", "gigantic", "squares", "minute", "descending", "ascending"}
	var ss [][]int
	ss = append(ss, shapes(6, []int{1, 2, 3}, w.Pick(162, 729))...)
	ss = append(ss, shapes(4, []int{1, 2, 3, 4, 5}, w.Pick(120, 625))...)
	ss = append(ss, shapes(2, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, 121)...)
	ss = append(ss, shapes(5, []int{1, 2, 4}, w.Pick(128, 1024))...)
	for _, s := range ss {
		if seen[ints(s)] {
			continue
		}
		seen[ints(s)] = true
		for _, nm := range names {
			s, nm := s, nm
			w.Case(func() string { return "reduce " + ints(s) + " " + nm }, func(c *eng.C) { c05Tensor(c, c05Patterns(s)[nm], nm) })
		}
	}
	w.Section("all value tuples of a small alphabet")
	alpha := []float64{0, 1, -1, 2, -2.5, 1e8, 1e-8}
	for n := 1; n <= w.Pick(5, 6); n++ {
		tuples(len(alpha), n, func(t []int) bool {
			v := make([]float64, n)
			for i := range v {
				v[i] = alpha[t[i]]
			}
			w.Case(func() string { return fmt.Sprintf("tuple %v", v) }, func(c *eng.C) {
				c05Tensor(c, ref.Of([]int{n}, v...), "tuple")
			})
			return !w.Stopped()
		})
	}
	for _, v := range Alphabet {
		v := v
		w.Case(func() string { return fmt.Sprintf("scalar %v", v) }, func(c *eng.C) {
			c05Tensor(c, ref.Of(nil, v), "scalar")
			c05Tensor(c, ref.Of([]int{1}, v), "single element")
			c05Tensor(c, ref.Of([]int{1, 1, 1}, v), "single element")
		})
	}
	for i := range Alphabet {
		i := i
		w.Case(func() string { return fmt.Sprintf("pairs with %v", Alphabet[i]) }, func(c *eng.C) {
			for j := range Alphabet {
				c05Tensor(c, ref.Of([]int{2}, Alphabet[i], Alphabet[j]), "pair")
			}
		})
	}
	w.Section("the position of a single extreme")
	for _, s := range shapes(4, []int{1, 2, 3, 4}, w.Pick(36, 64)) {
		s := s
		w.Case(func() string { return "extreme " + ints(s) }, func(c *eng.C) {
			for p := 0; p < ref.Prod(s); p++ {
				for _, v := range []float64{50, -50} {
					a := mixed(s, 3)
					a.V[p] = v
					c05Tensor(c, a, fmt.Sprintf("extreme at %d", p))
				}
			}
		})
	}
	gridC05(w)
	giantsC05(w)
	w.Section("size ladder")
	for _, n := range ladder(w.Pick(4097, 16385)) {
		for form := 0; form < 4; form++ {
			n, form := n, form
			w.Case(func() string { return fmt.Sprintf("ladder %d form %d", n, form) }, func(c *eng.C) {
				s := [][]int{{n}, {n, 2}, {2, n}, {2, n, 2}}[form]
				p := c05Patterns(s)
				for _, nm := range []string{"mixed", "negative", "offset", "ascending"} {
					c05Tensor(c, p[nm], nm)
				}
				c05Tensor(c, mapT(p["descending"], func(i int, v float64) float64 { return v + 1e7 }), "descending from 1e7")
			})
		}
	}
}

func init() {
	register(&eng.Check{ID: "C05", Run: runC05,
		Bounds: func(tier string) string {
			return "all shapes rank 0..6 dims {1,2,3} (cap 162 quick, 729 thorough), rank<=4 dims 1..5, rank 2 dims 1..11, rank<=5 dims {1,2,4}, each with 17 value patterns (mixed, one-signed, constant, ties, offset 1e6, 1e-9, 1e100, 1e300, 1e-162, 1e-300, monotone) x 7 statistics x every dim; all 7^n tuples n<=5 (6); all pairs of the scalar alphabet; every position of a single extreme; one dimension up to 4097 (16385)"
		},
		Assumptions: []string{"sums within 1e-12 (or n ulp, for large n) of the sum of magnitudes, variance within 1e-9 relative plus the rounding of the mean"}})
}
