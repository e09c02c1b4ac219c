package checks

import (
	"fmt"
	"math"

	"verifmc/eng"
	"verifmc/ref"
)

// Alphabet is the scalar alphabet shared by the forward checks: zeros, signs, ties, neighbours, magnitudes from
// denormal to almost overflow, and points around the period and the poles of the trigonometric functions.
var Alphabet = []float64{0, math.Copysign(0, -1), 1, -1, 2, -2, 3, -3, 0.5, -0.5, 0.1, 0.3, -0.7, 1.5, 10, -10, 1 + 1e-6, 1 - 1e-6, 1 + 1e-12,
	math.Pi, math.Pi / 2, -math.Pi / 2, math.Pi / 4, 3 * math.Pi / 2, 2 * math.Pi, math.E, 100, -100, 255, 256, 1000, -1000, 1e5, -1e6, 20, -20, 36, 40, -40,
	300, -300, 709, 710, -710, -745, 750, 1e10, -1e10, 1e15, 1e16, -1e20, 1e100, -1e100, 1e154, 1e155, 1e200, 1e300, -1e308, 1.7e308,
	1e-5, -1e-5, 1e-8, 1e-9, -1e-10, 1e-12, 1e-15, 1e-16, 1e-20, -1e-30, 1e-100, 1e-154, 1e-200, -1e-300, 1e-308, 5e-324}

// Ladder is the list of sizes used to look for size-dependent behaviour.
var Ladder = []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 50, 63, 64, 65, 81, 99, 100, 101, 127, 128, 129, 150, 200,
	255, 256, 257, 300, 500, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192,
	8193, 10000, 10001, 16384, 16385}

func ladder(max int) (r []int) {
	for _, n := range Ladder {
		if n <= max {
			r = append(r, n)
		}
	}
	return
}

// ladderShapes: n as a line, a row, a column, within a matrix, and (nearly) as a square.
func ladderShapes(n int) (r [][]int) {
	q := int(math.Sqrt(float64(n)))
	return [][]int{{n}, {1, n}, {n, 1}, {2, n}, {n, 2}, {q, n / q}, {2, (n + 1) / 2, 1}}
}

func unaryMag(name string, x, want []float64) []float64 {
	m := absV(want)
	switch name {
	case "Sin", "Cos", "Tan", "Sinh", "Tanh", "Log":
		for i := range m {
			if math.Abs(x[i]) > 1e-3 { // near zero these are accurate to the last bits relatively
				m[i] += 1e-5
			}
			if math.Abs(x[i]) > 1e6 && name != "Log" && name != "Tanh" && name != "Sinh" {
				m[i] += 1e-3 // argument reduction of huge angles
			}
		}
	}
	return m
}

func c03Un(c *eng.C, o *Op, name string, x ref.T) {
	t := mk(c, x, false)
	c.Op("%s on %v", o.Name, x.S)
	y, err := o.Lib([]tn{t})
	c.Check(err == nil && y != nil, "%s failed: %v", o.Name, err)
	want, _ := o.Ref([]ref.T{x})
	checkT(c, o.Name+" of "+trim(x.V), y, want.T, unaryMag(name, x.V, want.V))
	checkT(c, "operand of "+o.Name+" afterwards", t, x, nil)
	c.Validated()
}

func positive(t ref.T) ref.T { return mapT(t, func(_ int, v float64) float64 { return math.Abs(v) }) }

var scaleArgs = []float64{0, 1, -1, 2, -0.5, 3, 10, 1e-3, 1e3, 1e100, -1e-100, 0.1, 1.0000001}
var powArgs = []float64{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 17, 31, 32, 33, 100, -1, -2, -3, -4, 0.5, -0.5, 1.5, 2.5, 1. / 3, 0.1, -0.1, 1e-3, 50.5, 1 + 1e-9, math.Pi, 1000, -1000, 9, 20, 21, 64, 65, 101, -5, -8, -9, -10, -17, 1e7, -1e7, 12345678, 12345679, 0.25, 0.75, -1.5, 1 - 1e-9, 1e-9, -1e-9}

func eqComparable(a, b float64) bool {
	d := math.Abs(a - b)
	return a == b || d > 1e-200
}

func c03Pair(c *eng.C, name string, a, b ref.T, explicit bool) {
	x, y := mk(c, a, false), mk(c, b, false)
	c.Op("%v.%s(%v)", a.S, name, b.S)
	r, err := libBin(name, x, y)
	c.Check(err == nil, "%v.%s(%v) failed: %v", a.S, name, b.S, err)
	want, ok := refBin(name, a, b)
	if !ok {
		panic("harness: invalid pair")
	}
	checkT(c, fmt.Sprintf("%v.%s(%v)", a.S, name, b.S), r, want.T, absV(want.V))
	checkT(c, "left operand afterwards", x, a, nil)
	checkT(c, "right operand afterwards", y, b, nil)
	if explicit {
		s, _ := ref.BroadcastShapes(a.S, b.S)
		c.Op("explicit Broadcast(%v) of both, then %s", s, name)
		x2, err := x.Broadcast(s)
		c.Check(err == nil, "%v.Broadcast(%v) failed: %v", a.S, s, err)
		y2, err := y.Broadcast(s)
		c.Check(err == nil, "%v.Broadcast(%v) failed: %v", b.S, s, err)
		r2, err := libBin(name, x2, y2)
		c.Check(err == nil, "%s after explicit broadcast failed: %v", name, err)
		checkT(c, fmt.Sprintf("%s of %v and %v broadcast explicitly to %v", name, a.S, b.S, s), r2, get(c, "implicit result", r), absV(want.V))
	}
	c.Validated()
}

var arith = []string{"Add", "Sub", "Mul", "Div"}
var elm = []string{"ElMax", "ElMin"}

func runC03(w *eng.W) {
	w.Section("unary ops x shapes")
	for _, s := range append(shapes(6, []int{1, 2, 3}, w.Pick(243, 729)), shapes(3, []int{1, 2, 3, 4, 5}, 125)...) {
		s := s
		w.Case(func() string { return "unary " + ints(s) }, func(c *eng.C) {
			for k, name := range ref.UnaryNames {
				x := mixed(s, k)
				if name == "Log" {
					x = positive(x)
				}
				c03Un(c, opUnary(name), name, x)
			}
			c03Un(c, opScale(-1.75), "", mixed(s, 1))
			c03Un(c, opPow(3), "", mixed(s, 2))
			c03Un(c, opPow(-1), "", mixed(s, 2))
			c03Un(c, opPow(0.5), "", positive(mixed(s, 3)))
			c.Outcome("unary")
		})
	}
	w.Section("unary ops x scalar alphabet")
	av := append([]float64{}, Alphabet...)
	for i := -60; i <= 60; i++ {
		av = append(av, float64(i)*0.25+0.01, float64(i)*12.5, float64(i))
	}
	var args []float64
	args = append(args, scaleArgs...)
	for _, name := range ref.UnaryNames {
		for _, rank0 := range []bool{false, true} {
			name, rank0 := name, rank0
			w.Case(func() string { return fmt.Sprintf("%s on the alphabet, rank0=%v", name, rank0) }, func(c *eng.C) {
				if !rank0 {
					c03Un(c, opUnary(name), name, ref.Of([]int{len(av)}, av...))
					return
				}
				for _, v := range av {
					c03Un(c, opUnary(name), name, ref.Of(nil, v))
				}
			})
		}
	}
	for _, a := range append(args, Alphabet...) {
		a := a
		w.Case(func() string { return fmt.Sprintf("Scale(%v) on the alphabet", a) }, func(c *eng.C) {
			c03Un(c, opScale(a), "", ref.Of([]int{len(av)}, av...))
		})
	}
	for _, a := range powArgs {
		a := a
		w.Case(func() string { return fmt.Sprintf("Pow(%v) on the alphabet", a) }, func(c *eng.C) {
			c03Un(c, opPow(a), "", ref.Of([]int{len(av)}, av...))
		})
	}
	w.Section("binary ops, equal shapes")
	for _, s := range append(shapes(6, []int{1, 2, 3}, w.Pick(243, 729)), shapes(3, []int{1, 2, 3, 4, 5}, 125)...) {
		s := s
		w.Case(func() string { return "binary " + ints(s) }, func(c *eng.C) {
			for k, name := range append(append([]string{}, arith...), elm...) {
				c03Pair(c, name, mixed(s, k), mixed(s, k+5), false)
			}
			for k, name := range ref.ComparisonNames {
				a, b := mixed(s, k), mixed(s, k+5)
				for i := range b.V {
					if i%3 == k%3 { // exact ties at a third of the positions
						b.V[i] = a.V[i]
					}
				}
				c03Pair(c, name, a, b, false)
			}
		})
	}
	w.Section("binary ops, all ordered pairs of the scalar alphabet")
	for _, name := range append(append(append([]string{}, arith...), elm...), ref.ComparisonNames...) {
		for i := range Alphabet {
			name, i := name, i
			w.Case(func() string { return fmt.Sprintf("%s(%v, each letter)", name, Alphabet[i]) }, func(c *eng.C) {
				var a, b []float64
				for _, y := range Alphabet {
					if (name == "Eq" || name == "Ne" || name == "Ge" || name == "Le") && !eqComparable(Alphabet[i], y) {
						continue
					}
					a, b = append(a, Alphabet[i]), append(b, y)
				}
				c03Pair(c, name, ref.Of([]int{len(a)}, a...), ref.Of([]int{len(b)}, b...), false)
				for j := range a { // as scalars
					c03Pair(c, name, ref.Of(nil, a[j]), ref.Of(nil, b[j]), false)
				}
				if name == "Add" || name == "Sub" || name == "Mul" || name == "Div" { // scalar against vector
					c03Pair(c, name, ref.Of(nil, a[0]), ref.Of([]int{len(b)}, b...), true)
					c03Pair(c, name, ref.Of([]int{len(b)}, b...), ref.Of(nil, a[0]), true)
				}
			})
		}
	}
	w.Section("binary ops, close pairs")
	for _, x := range Alphabet {
		if x == 0 || math.Abs(x) < 1e-180 {
			continue
		}
		w.Case(func() string { return fmt.Sprintf("%v and values next to it", x) }, func(c *eng.C) {
			ys := []float64{math.Nextafter(x, 0), math.Nextafter(x, 2*x), math.Nextafter(math.Nextafter(x, 2*x), 2*x), -x, -math.Nextafter(x, 0)}
			for e := -15; e <= -1; e++ {
				ys = append(ys, x*(1+math.Pow(10, float64(e))), x*(1-3*math.Pow(10, float64(e))), x+math.Pow(10, float64(e)))
			}
			for e := -150; e < -15; e += 9 {
				ys = append(ys, x+math.Pow(10, float64(e)))
			}
			var a, b []float64
			for _, y := range ys {
				if y != x && eqComparable(x, y) && !math.IsInf(y, 0) {
					a, b = append(a, x, y), append(b, y, x)
				}
			}
			A, B := ref.Of([]int{len(a)}, a...), ref.Of([]int{len(b)}, b...)
			for _, name := range append(append(append([]string{}, arith...), elm...), ref.ComparisonNames...) {
				c03Pair(c, name, A, B, false)
			}
			for i := range a {
				p, q := mk(c, ref.Of([]int{1}, a[i]), false), mk(c, ref.Of([]int{1}, b[i]), false)
				got, err := p.Equals(q)
				c.Check(err == nil && !got, "Equals of %v and %v: %v %v", a[i], b[i], got, err)
			}
			c.Outcome("close")
		})
	}
	w.Section("implicit broadcasting, all compatible pairs")
	seen := map[string]bool{}
	for _, cfg := range []struct {
		rank int
		dims []int
		maxN int
	}{{4, []int{1, 2, 3}, 81}, {2, []int{1, 2, 3, 4, 5, 6, 7, 8, 9}, 81}, {3, []int{1, 2, 3, 4, 5}, 125}, {6, []int{1, 2}, 64}, {4, []int{1, 2, 3, 4}, 256}, {5, []int{1, 2, 3}, w.Pick(48, 243)},
		{6, []int{1, 2, 3}, w.Pick(0, 162)}} {
		ss := shapes(cfg.rank, cfg.dims, cfg.maxN)
		for _, a := range ss {
			for _, b := range ss {
				if ref.SameShape(a, b) {
					continue
				}
				if _, ok := ref.BroadcastShapes(a, b); !ok {
					continue
				}
				k := ints(a) + ints(b)
				if seen[k] {
					continue
				}
				seen[k] = true
				a, b := a, b
				w.Case(func() string { return "broadcast " + ints(a) + " with " + ints(b) }, func(c *eng.C) {
					for q, name := range arith {
						c03Pair(c, name, mixed(a, q), mixed(b, q+7), true)
					}
				})
			}
		}
	}
	w.Section("rank-6 broadcasting")
	for _, s := range shapesOf(6, []int{1, 2, 3}, w.Pick(48, 144)) {
		for m := 1; m < 64; m++ {
			for cut := 0; cut <= 6; cut++ {
				// operand b: s with the masked dimensions reduced to 1, the first cut dimensions dropped
				b := ref.CopyInts(s)
				for i := range b {
					if m>>i&1 == 1 {
						b[i] = 1
					}
				}
				b = b[cut:]
				if ref.SameShape(s, b) {
					continue
				}
				s := s
				w.Case(func() string { return "broadcast " + ints(s) + " with " + ints(b) }, func(c *eng.C) {
					for q := range arith {
						c03Pair(c, arith[q], mixed(s, m), mixed(b, m+7), true)
						c03Pair(c, arith[q], mixed(b, m), mixed(s, m+7), true)
					}
				})
			}
		}
	}
	w.Section("Equals: every single and paired perturbation")
	for _, s := range append(shapes(4, []int{1, 2, 3}, w.Pick(36, 81)), []int{2, 1, 2, 1, 2, 2}, []int{17}, []int{33}) {
		s := s
		w.Case(func() string { return "Equals " + ints(s) }, func(c *eng.C) {
			a := mixed(s, 3)
			eq := func(b ref.T, want bool, what string) {
				x, y := mk(c, a, false), mk(c, b, false)
				c.Op("Equals %s", what)
				for _, p := range [][2]tn{{x, y}, {y, x}} {
					got, err := p[0].Equals(p[1])
					c.Check(err == nil, "Equals failed: %v", err)
					c.Check(got == want, "Equals of %v and %v (%s) is %v", a, b, what, got)
				}
				c.Validated()
			}
			x := mk(c, a, false)
			if got, err := x.Equals(x); err != nil || !got {
				c.Fail("a tensor does not equal itself: %v %v", got, err)
			}
			eq(a, true, "identical")
			for i := range a.V {
				for _, d := range []float64{1, -1, 1e-3, 1e-7, 1e-12, 1e5, -2 * a.V[i], -a.V[i]} {
					b := a.Clone()
					b.V[i] += d
					eq(b, false, fmt.Sprintf("element %d differs by %v", i, d))
				}
				for j := range a.V {
					if j == i {
						continue
					}
					b := a.Clone()
					b.V[i] += 0.5
					b.V[j] -= 0.5
					eq(b, false, fmt.Sprintf("elements %d and %d differ by +-0.5", i, j))
					if i < j && a.V[i] != a.V[j] {
						b := a.Clone()
						b.V[i], b.V[j] = b.V[j], b.V[i]
						eq(b, false, fmt.Sprintf("elements %d and %d swapped", i, j))
					}
				}
			}
			if len(a.V) <= 8 { // every subset of differing positions
				for m := 1; m < 1<<len(a.V); m++ {
					b := a.Clone()
					for i := range b.V {
						if m>>i&1 == 1 {
							b.V[i] += 1
						}
					}
					eq(b, false, fmt.Sprintf("difference mask %b", m))
				}
			}
		})
	}
	w.Section("the same tensor as both operands")
	for _, s := range shapes(4, []int{1, 2, 3}, 24) {
		s := s
		w.Case(func() string { return "alias " + ints(s) }, func(c *eng.C) {
			for k, name := range append(append(append([]string{}, arith...), elm...), ref.ComparisonNames...) {
				a := mixed(s, k)
				x := mk(c, a, false)
				c.Op("x.%s(x)", name)
				y, err := libBin(name, x, x)
				c.Check(err == nil, "x.%s(x) failed: %v", name, err)
				want, _ := refBin(name, a, a)
				checkT(c, "x."+name+"(x)", y, want.T, absV(want.V))
				c.Validated()
			}
		})
	}
	gridC03(w)
	giantsC03(w)
	w.Section("size ladder")
	for _, n := range ladder(16385) {
		for form := 0; form < 6; form++ {
			n, form := n, form
			w.Case(func() string { return fmt.Sprintf("ladder %d form %d", n, form) }, func(c *eng.C) {
				var a, b []int
				switch form {
				case 0:
					a, b = []int{n}, []int{n}
				case 1:
					a, b = []int{n}, nil
				case 2:
					a, b = nil, []int{n}
				case 3:
					a, b = []int{n, 1}, []int{2}
				case 4:
					a, b = []int{1, n}, []int{2, 1}
				case 5:
					a, b = []int{2, 1, 1}, []int{n}
				}
				for q, name := range arith {
					c03Pair(c, name, mixed(a, q), mixed(b, q+7), true)
				}
				if form == 0 {
					for q, name := range append(append([]string{}, elm...), ref.ComparisonNames...) {
						x, y := mixed(a, q), mixed(b, q+7)
						for i := 0; i < n; i += 5 {
							y.V[i] = x.V[i]
						}
						c03Pair(c, name, x, y, false)
					}
					for q, name := range ref.UnaryNames {
						c03Un(c, opUnary(name), name, positive(mixed(a, q)))
					}
					c03Un(c, opScale(-1.75), "", mixed(a, 1))
					c03Un(c, opPow(2), "", mixed(a, 1))
					c03Un(c, opPow(0), "", mixed(a, 1))
					x := mixed(a, 9)
					for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
						y := x.Clone()
						y.V[i] += 1
						p, q := mk(c, x, false), mk(c, y, false)
						got, err := p.Equals(q)
						c.Check(err == nil && !got, "Equals of tensors of size %d differing at %d: %v %v", n, i, got, err)
					}
					p, q := mk(c, x, false), mk(c, x, false)
					got, err := p.Equals(q)
					c.Check(err == nil && got, "Equals of identical tensors of size %d: %v %v", n, got, err)
				}
			})
		}
	}
}

func init() {
	register(&eng.Check{ID: "C03", Run: runC03,
		Bounds: func(tier string) string {
			return fmt.Sprintf("unary and equal-shape binary ops on all shapes rank 0..6 dims {1,2,3} (element cap 243 quick, 729 thorough) and rank<=3 dims 1..5; "+
				"all functions on %d scalar letters, %d exponents, all ordered letter pairs for 12 binary ops (as vectors and as scalars), every letter against up to 63 values next to it; "+
				"all broadcast-compatible pairs of shapes: rank<=4 dims {1,2,3}, rank<=4 dims 1..4 (cap 256), rank<=2 dims 1..9, rank<=3 dims 1..5, rank<=6 dims {1,2}, rank<=5 dims {1,2,3} (cap 48 quick, 243 thorough), rank 6 dims {1,2,3} (thorough, cap 162); "+
				"rank-6 shapes against every sub-mask and every dropped prefix; Equals under every one-position and two-position perturbation; sizes up to 16385", len(Alphabet)+363, len(powArgs))
		},
		Assumptions: []string{"Eq/Ne/Ge/Le letters that differ by less than 1e-200 are excluded, as the property does", "relative tolerance 1e-9 (a few 1e-15 absolute for trigonometric functions)"}})
}
