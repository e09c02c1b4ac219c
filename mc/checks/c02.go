package checks

import (
	"fmt"
	"math"

	"verifmc/eng"
	"verifmc/ref"
)

// c02One back-propagates the upstream weighting g (nil: all ones, straight from the result) through one application.
func c02One(c *eng.C, o *Op, in []ref.T, mask int, g *ref.T, interior bool, alias bool) {
	out, ok := o.Ref(in)
	if !ok {
		panic("harness: invalid operands for " + o.Name)
	}
	if out.ND {
		c.Outcome("skipped: not differentiable")
		return
	}
	w := constV(out.S, 1)
	if g != nil {
		w = *g
	}
	want, mags := ref.VJP(out, in, w.V, absV(w.V))
	for k := range want {
		if !finite(want[k]) || !finite(mags[k]) {
			c.Outcome("skipped: derivative outside the float64 range")
			return
		}
	}
	leaves := make([]tn, len(in))
	xs := make([]tn, len(in))
	for k := range in {
		if alias && k > 0 {
			leaves[k], xs[k] = leaves[0], xs[0]
			continue
		}
		leaves[k] = mk(c, in[k], mask>>k&1 == 1)
		xs[k] = leaves[k]
		if interior {
			var err error
			xs[k], err = leaves[k].Reshape(ref.CopyInts(in[k].S))
			must(c, "Reshape to the same shape", xs[k], err)
		}
	}
	desc := func() string {
		r := fmt.Sprintf("%s on", o.Name)
		for k := range in {
			r += fmt.Sprintf(" %v", in[k].S)
			if mask>>k&1 == 1 {
				r += "*"
			}
		}
		return r
	}
	c.Op("%s operands %v", o.Name, in)
	y, err := o.Lib(xs)
	if err != nil {
		c.Fail("%s failed: %v", desc(), err)
	}
	root := y
	if g != nil {
		root, err = y.Mul(mk(c, w, false))
		must(c, "weighting the result", root, err)
	}
	c.Op("BackPropagate, upstream %v", w)
	if e := bpErr(root); e != nil {
		c.Fail("%s: BackPropagate failed after an accepted forward call: %v", desc(), e)
	}
	c.Outcome("backward ran")
	for k := range in {
		if alias && k > 0 {
			break
		}
		for _, t := range []tn{xs[k], leaves[k]} {
			gr := t.Gradient()
			if mask>>k&1 == 0 {
				if gr != nil {
					c.Fail("%s: untracked operand %d received a gradient", desc(), k)
				}
				continue
			}
			if gr == nil {
				c.Fail("%s: tracked operand %d received no gradient", desc(), k)
			}
			exp, mg := ref.T{S: in[k].S, V: want[k]}, mags[k]
			if alias {
				exp = exp.Clone()
				mg = append([]float64{}, mg...)
				for q := 1; q < len(in); q++ {
					for i := range exp.V {
						exp.V[i] += want[q][i]
						mg[i] += mags[q][i]
					}
				}
			}
			checkT(c, fmt.Sprintf("%s: gradient of operand %d (upstream %s, operands %s)", desc(), k, trim(w.V), trimT(in)), gr, exp, mg)
		}
	}
	c.Validated()
}

func trimT(in []ref.T) string {
	s := ""
	for _, t := range in {
		s += trim(t.V) + " "
	}
	return s
}

func oneHot(s []int, p int, v float64) ref.T {
	t := ref.New(s)
	t.V[p] = v
	return t
}

// c02Inst explores one instance: all tracked subsets x upstream weightings.
func c02Inst(c *eng.C, in Inst, maxHot int) {
	for q := 0; q < 2; q++ {
		v := in.values(q)
		out, ok := in.O.Ref(v)
		if !ok {
			panic("harness: " + in.String())
		}
		n := len(out.V)
		for mask := 1; mask < 1<<len(v); mask++ {
			c02One(c, in.O, v, mask, nil, false, false)
			g := mixed(out.S, q+4)
			c02One(c, in.O, v, mask, &g, false, false)
			if q == 1 {
				z := mapT(mixed(out.S, 7), func(i int, x float64) float64 {
					if i%2 == 0 {
						return 0
					}
					return x
				})
				c02One(c, in.O, v, mask, &z, false, false)
				continue
			}
			for p := 0; p < n && p < maxHot; p++ {
				h := oneHot(out.S, p, -2.5)
				if n > maxHot {
					h = oneHot(out.S, p*(n-1)/(maxHot-1), -2.5)
				}
				c02One(c, in.O, v, mask, &h, false, false)
			}
			big := mapT(g, func(_ int, x float64) float64 { return x * 1e100 })
			c02One(c, in.O, v, mask, &big, false, false)
			small := mapT(g, func(_ int, x float64) float64 { return x * 1e-100 })
			c02One(c, in.O, v, mask, &small, false, false)
		}
		g := mixed(out.S, 6)
		c02One(c, in.O, v, 1<<len(v)-1, &g, true, false)
		if len(v) > 1 {
			eq := true
			for k := range v {
				eq = eq && ref.SameShape(v[k].S, v[0].S)
			}
			if eq {
				av := make([]ref.T, len(v))
				for k := range av {
					av[k] = v[0]
				}
				if _, ok := in.O.Ref(av); ok {
					c02One(c, in.O, av, 1<<len(v)-1, &g, false, true)
				}
			}
		}
	}
}

func runC02(w *eng.W) {
	ref.TieMargin = 0
	hot := w.Pick(6, 12)
	run := func(sec string, list []Inst) {
		w.Section(sec)
		seen := map[string]bool{}
		for _, in := range list {
			k := in.String()
			if seen[k] {
				continue
			}
			seen[k] = true
			in := in
			w.Case(func() string { return k }, func(c *eng.C) { c02Inst(c, in, hot) })
		}
	}
	collect := func(ss [][]int, f func(s []int) []Inst) (r []Inst) {
		for _, s := range ss {
			r = append(r, f(s)...)
		}
		return
	}
	run("element-wise and arithmetic ops x shapes", collect(append(append(shapes(5, []int{1, 2, 3}, w.Pick(36, 108)), shapes(3, []int{1, 2, 3, 4, 5}, w.Pick(40, 125))...), shapes(1, []int{6, 7, 8, 9, 10, 11, 12, 13}, 13)...), instPointwise))
	run("reductions x shapes x dims", collect(append(append(shapes(5, []int{1, 2, 3}, w.Pick(54, 243)), shapes(3, []int{1, 2, 3, 4, 5}, w.Pick(60, 125))...), shapes(1, []int{6, 7, 8, 9, 10, 11, 12, 13}, 13)...), instReduce))
	run("shape modifiers", collect(append(shapes(5, []int{1, 2, 3}, w.Pick(54, 243)), shapes(3, []int{1, 2, 3, 4, 5}, w.Pick(60, 125))...), func(s []int) []Inst { return instShape(s, w.Pick(3, 4)) }))
	run("every Slice and Patch", collect(append(append(shapes(3, []int{1, 2, 3}, w.Pick(18, 27)), shapes(2, []int{1, 2, 3, 4, 5}, w.Pick(16, 25))...), append(shapes(5, []int{1, 2}, w.Pick(8, 32)), shapes(4, []int{1, 2, 3}, w.Pick(12, 24))...)...), instIndex))
	run("Dot and MatMul", collect(append(append(shapes(5, []int{1, 2, 3}, w.Pick(54, 243)), shapes(3, []int{1, 2, 3, 4, 5}, w.Pick(60, 125))...), shapes(1, []int{6, 7, 8, 9, 10, 11, 12, 13}, 13)...), func(s []int) []Inst { return instProduct(s, []int{1, 2, 3, 4}) }))
	run("Concat", append(collect(shapes(4, []int{1, 2, 3}, w.Pick(12, 27)), func(s []int) []Inst { return instConcat(s, []int{1, 2, 3}, 3) }), collect(shapes(5, []int{1, 2}, 32), func(s []int) []Inst { return instConcat(s, []int{1, 2}, w.Pick(2, 3)) })...))
	if w.Thorough() {
		run("Concat of 4 and 5", collect(shapes(3, []int{1, 2, 3}, 12), func(s []int) []Inst { return instConcat(s, []int{1, 2}, 5) }))
	}

	w.Section("Concat of repeated operands")
	for _, s := range append(shapes(3, []int{1, 2, 3}, 12), [][]int{{2, 1, 2, 1}, {1, 2, 1, 1, 2}}...) {
		for d := range s {
			w.Case(func() string { return fmt.Sprintf("Concat of repeated operands, %v along %d", s, d) }, func(c *eng.C) {
				concatPool(s, d, w.Pick(4, 5), len(s) > 3, func(vs []ref.T, q []int) {
					for _, mask := range []int{7, 1, 6} {
						c.Beat()
						b := &builder{}
						var ops []int
						for i, v := range vs {
							ops = append(ops, b.leaf(v, mask>>i&1 == 1))
						}
						for i := range ops {
							if i%2 == 1 { // an interior operand
								ops[i] = b.node(opScale(2), ops[i])
							}
						}
						in, rs := make([]int, len(q)), make([]ref.T, len(q))
						for i, k := range q {
							in[i], rs[i] = ops[k], vs[k]
						}
						o := opConcat(d, len(q))
						out, _ := o.Ref(rs)
						b.node(opBin("Mul"), b.node(o, in...), b.leaf(mixed(out.S, len(q)), false))
						p := b.prog()
						e := p.ref()
						ts := p.lib(c)
						g, m := make([][]float64, len(ts)), make([][]float64, len(ts))
						bp(c, "root", ts[len(ts)-1])
						p.grads(e, len(ts)-1, g, m)
						checkGrads(c, e, ts, g, m)
						c.Validated()
					}
				})
			})
		}
	}
	w.Section("Concat of many")
	for _, n := range ladder(257) {
		for _, s := range [][]int{{1}, {1, 2}, {2, 1}} {
			w.Case(func() string { return fmt.Sprintf("Concat of %d, %v", n, s) }, func(c *eng.C) {
				for d := range s {
					in := make([]ref.T, n)
					for i := range in {
						q := ref.CopyInts(s)
						q[d] = 1 + (i*i+i/3)%3
						in[i] = mixed(q, i)
					}
					o := opConcat(d, n)
					out, _ := o.Ref(in)
					g := mixed(out.S, 3)
					c02One(c, o, in, -1, &g, false, false)
				}
			})
		}
	}
	w.Section("scalar alphabets")
	ups := []float64{1, -2.5, 0, 1e-100, 1e100}
	vals := append([]float64{}, Alphabet...)
	for i := -40; i <= 40; i++ {
		vals = append(vals, float64(i)*0.37+0.013, float64(i)*17.3)
	}
	single := func(o *Op, nm string) {
		for _, v := range vals {
			v := v
			w.Case(func() string { return fmt.Sprintf("%s at %v", nm, v) }, func(c *eng.C) {
				for _, u := range ups {
					g := ref.Of(nil, u)
					c02One(c, o, []ref.T{ref.Of(nil, v)}, 1, &g, false, false)
				}
				g := ref.Of([]int{3}, 2, -1, 0.5)
				c02One(c, o, []ref.T{ref.Of([]int{3}, 0.7, v, 1.3)}, 1, &g, false, false)
			})
		}
	}
	for _, n := range unaryInst {
		single(opUnary(n), n)
	}
	for _, a := range scaleArgs {
		single(opScale(a), fmt.Sprintf("Scale(%v)", a))
	}
	for _, a := range powArgs {
		single(opPow(a), fmt.Sprintf("Pow(%v)", a))
	}
	for _, n := range []string{"Add", "Sub", "Mul", "Div", "ElMax", "ElMin"} {
		for _, a := range vals {
			n, a := n, a
			w.Case(func() string { return fmt.Sprintf("%s(%v, each letter)", n, a) }, func(c *eng.C) {
				for _, b := range vals {
					for mask := 1; mask < 4; mask++ {
						g := ref.Of(nil, -2.5)
						c02One(c, opBin(n), []ref.T{ref.Of(nil, a), ref.Of(nil, b)}, mask, &g, false, false)
					}
				}
				// all letters side by side; points outside the range are replaced by a tame pair
				var x, y []float64
				for _, b := range vals {
					o, _ := refBin(n, ref.Of(nil, a), ref.Of(nil, b))
					if o.ND || !finite(o.V) || !(math.Abs(o.J[0][0].C) < 1e300) || !(math.Abs(o.J[0][1].C) < 1e300) {
						x, y = append(x, 1.5), append(y, 0.5)
					} else {
						x, y = append(x, a), append(y, b)
					}
				}
				g := mixed([]int{len(x)}, 2)
				c02One(c, opBin(n), []ref.T{ref.Of([]int{len(x)}, x...), ref.Of([]int{len(x)}, y...)}, 3, &g, false, false)
			})
		}
	}
	w.Section("reductions of all small tuples")
	alpha := []float64{0, 1, -1, 2.5, -3, 1e6, 1e-6}
	for n := 1; n <= w.Pick(4, 5); n++ {
		tuples(len(alpha), n, func(t []int) bool {
			v := make([]float64, n)
			for i := range v {
				v[i] = alpha[t[i]]
			}
			w.Case(func() string { return fmt.Sprintf("tuple %v", v) }, func(c *eng.C) {
				for _, nm := range ref.StatNames {
					for _, u := range []float64{1, -2.5, 0} {
						g := ref.Of(nil, u)
						c02One(c, opAlong(nm, 0), []ref.T{ref.Of([]int{n}, v...)}, 1, &g, false, false)
					}
					for _, k := range []float64{1e-13, 1e-40, 1e-200, 1e120} {
						c02One(c, opAlong(nm, 0), []ref.T{mapT(ref.Of([]int{n}, v...), func(_ int, x float64) float64 { return x * k })}, 1, nil, false, false)
					}
				}
			})
			return !w.Stopped()
		})
	}
	w.Section("operands containing zeros, repeated and extreme values")
	for _, s := range shapes(3, []int{1, 2, 3}, w.Pick(12, 27)) {
		for _, in := range allInst(s) {
			in := in
			w.Case(func() string { return "patterned " + in.String() }, func(c *eng.C) {
				pats := []func(k int) func(i int, v float64) float64{
					func(k int) func(int, float64) float64 { return func(i int, v float64) float64 { return 0 } },
					func(k int) func(int, float64) float64 { return func(i int, v float64) float64 { return 1 } },
					func(k int) func(int, float64) float64 {
						return func(i int, v float64) float64 { return float64(i % 2) }
					},
					func(k int) func(int, float64) float64 {
						return func(i int, v float64) float64 { return float64((i+k)%3) - 1 }
					},
					func(k int) func(int, float64) float64 { return func(i int, v float64) float64 { return v * 1e8 } },
					func(k int) func(int, float64) float64 { return func(i int, v float64) float64 { return v * 1e-8 } },
					func(k int) func(int, float64) float64 { return func(i int, v float64) float64 { return v * 1e160 } },
					func(k int) func(int, float64) float64 { return func(i int, v float64) float64 { return v * 1e-159 } },
					func(k int) func(int, float64) float64 { return func(i int, v float64) float64 { return v * 1e-154 } },
					func(k int) func(int, float64) float64 { return func(i int, v float64) float64 { return v * 1e-170 } },
					func(k int) func(int, float64) float64 { return func(i int, v float64) float64 { return v * 1e305 } },
					func(k int) func(int, float64) float64 { return func(i int, v float64) float64 { return v * 1e-300 } },
					func(k int) func(int, float64) float64 {
						return func(i int, v float64) float64 { return v + float64(k)*1e5 }
					},
				}
				for _, p := range pats {
					v := in.values(1)
					for k := range v {
						v[k] = mapT(v[k], p(k))
					}
					out, _ := in.O.Ref(v)
					g := mixed(out.S, 3)
					for mask := 1; mask < 1<<len(v); mask++ {
						c02One(c, in.O, v, mask, &g, false, false)
					}
				}
			})
		}
	}
	gridC02(w)
	giantsC02(w)
	w.Section("size ladder")
	for _, n := range ladder(w.Pick(1025, 4097)) {
		for form := 0; form < 3; form++ {
			n, form := n, form
			w.Case(func() string { return fmt.Sprintf("ladder %d form %d", n, form) }, func(c *eng.C) {
				s := [][]int{{n}, {n, 2}, {2, n}}[form]
				var list []Inst
				list = append(list, instPointwise(s)...)
				list = append(list, instReduce(s)...)
				list = append(list, instShape(s, 1)...)
				list = append(list, Inst{opSlice([]ref.Range{{From: 1, To: s[0] - s[0]/3}}), [][]int{s}})
				p := ref.CopyInts(s)
				p[0] -= s[0]/3 + 1
				if p[0] > 0 {
					list = append(list, Inst{opPatch([]ref.Range{{From: 1, To: 1 + p[0]}}), [][]int{s, p}}, Inst{opPatch(nil), [][]int{s, p}})
				}
				list = append(list, Inst{opBin("Dot"), [][]int{s, s}})
				if form > 0 {
					list = append(list, Inst{opBin("MatMul"), [][]int{s, {s[1], 2}}})
				}
				list = append(list, Inst{opConcat(len(s)-1, 3), [][]int{s, s, s}})
				for _, in := range list {
					v := in.values(2)
					out, _ := in.O.Ref(v)
					g := mixed(out.S, 3)
					c02One(c, in.O, v, 1<<len(v)-1, &g, false, false)
					c.Beat()
				}
			})
		}
	}
}

func init() {
	register(&eng.Check{ID: "C02", Run: runC02,
		Bounds: func(tier string) string {
			return "33 operations on all operand shapes rank 0..5 dims {1,2,3} and rank<=3 dims 1..5 (element caps per tier), every dim, every Slice/Patch range list with every source block on rank<=3 dims {1,2,3}, rank<=2 dims 1..5, rank<=5 dims {1,2}; every non-empty tracked subset; upstream weightings: ones, two generic, half zero, one-hot positions, 1e100 and 1e-100 scaled; operands as leaves, as interior results and aliased; " +
				"all letters of a scalar alphabet for unary ops, 34 exponents, 13 factors, all letter pairs for 6 binary ops; all 7^n reduction fibres n<=4 (5), also scaled by 1e-13, 1e-40, 1e-200 and 1e120; patterned operands (zeros, ties, offsets, scaled by 1e8, 1e-8, 1e160, 1e-154, 1e-159, 1e-170, 1e305, 1e-300); sizes up to 1025 (4097); Concat of up to 257 operands. Oracle: sparse reference Jacobian, transposed"
		},
		Assumptions: []string{"points where the operation is not differentiable, or where the derivative leaves the float64 range, are skipped and counted", "relative tolerance 1e-9 of the sum of magnitudes"}})
}
