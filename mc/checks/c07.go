package checks

import (
	"fmt"
	"math"

	"verifmc/eng"
	"verifmc/ref"
)

// progCheck builds a program in the library, compares all forward values, back-propagates from root and compares
// every tensor's gradient with the reference.
func progCheck(c *eng.C, p *Prog, root int) bool {
	e := p.ref()
	if !e.OK {
		panic("harness: invalid program " + p.String())
	}
	if !e.Smooth {
		c.Outcome("skipped: not differentiable here")
		return false
	}
	g := make([][]float64, len(e.Vals))
	m := make([][]float64, len(e.Vals))
	p.grads(e, root, g, m)
	for k := range g {
		if g[k] != nil && (!finite(g[k]) || !finite(m[k])) {
			c.Outcome("skipped: derivative outside the float64 range")
			return false
		}
	}
	ts := p.lib(c)
	bp(c, fmt.Sprintf("t%d", root), ts[root])
	checkGrads(c, e, ts, g, m)
	c.Validated()
	c.Outcome("backward ran")
	return true
}

// weighted appends "t = root * W" with an untracked generic W and returns the new root.
func (p *Prog) weighted(q int) *Prog {
	e := p.ref()
	last := len(e.Vals) - 1
	np := &Prog{Leaves: append(append([]ref.T{}, p.Leaves...), mixed(e.Vals[last].S, q)), Tracked: append(append([]bool{}, p.Tracked...), false)}
	nl := len(p.Leaves)
	sh := func(i int) int {
		if i >= nl {
			return i + 1
		}
		return i
	}
	for _, n := range p.Nodes {
		in := make([]int, len(n.In))
		for i := range in {
			in[i] = sh(n.In[i])
		}
		np.Nodes = append(np.Nodes, Node{n.Op, in})
	}
	np.Nodes = append(np.Nodes, Node{opBin("Mul"), []int{sh(last), nl}})
	return np
}

func last(p *Prog) int { return len(p.Leaves) + len(p.Nodes) - 1 }

const c07Known = "C07-explicit-broadcast-mean"

// c07Explicit checks the gradient of an explicit Broadcast call.
func c07Explicit(c *eng.C, src, dst []int, q int) {
	a := mixed(src, q)
	for _, ones := range []bool{true, false} {
		for _, interior := range []bool{false, true} {
			leaf := mk(c, a, true)
			x := leaf
			if interior {
				x = leaf.Scale(1)
			}
			y, err := x.Broadcast(ref.CopyInts(dst))
			must(c, "Broadcast", y, err)
			w := constV(dst, 1)
			root := y
			if !ones {
				w = mixed(dst, q+3)
				root, err = y.Mul(mk(c, w, false))
				must(c, "weighting", root, err)
			}
			c.Op("%v.Broadcast(%v), upstream %v", src, dst, w.V)
			if err := bpErr(root); err != nil {
				c.Fail("BackPropagate through %v.Broadcast(%v) failed: %v", src, dst, err)
			}
			want, mags := ref.VJP(ref.Broadcast(a, dst), []ref.T{a}, w.V, absV(w.V))
			factor := float64(ref.Prod(dst)) / float64(ref.Prod(src))
			for _, t := range []tn{x, leaf} {
				gr := t.Gradient()
				if gr == nil {
					c.Fail("operand of %v.Broadcast(%v) has no gradient", src, dst)
				}
				got := get(c, "gradient", gr)
				if !ref.SameShape(got.S, src) {
					c.Fail("gradient of the operand of %v.Broadcast(%v) has shape %v", src, dst, got.S)
				}
				sum, mean := true, true
				for i := range got.V {
					sum = sum && eqF(got.V[i], want[0][i], mags[0][i])
					mean = mean && eqF(got.V[i], want[0][i]/factor, mags[0][i]/factor)
				}
				switch {
				case sum:
					c.Outcome("explicit: sum over the copies")
				case mean:
					c.Known(c07Known, "gradient of the operand of %v.Broadcast(%v) is the mean over the %v copies instead of their sum: got %v, expected %v", src, dst, factor, trim(got.V), trim(want[0]))
					c.Outcome("explicit: mean over the copies (known finding)")
				default:
					c.Fail("gradient of the operand of %v.Broadcast(%v): got %v, expected %v (upstream %v)", src, dst, trim(got.V), trim(want[0]), trim(w.V))
				}
			}
			c.Validated()
		}
	}
}

func c07Implicit(c *eng.C, name string, a, b []int, q int) {
	for mask := 1; mask < 4; mask++ {
		p := &Prog{Leaves: []ref.T{mixed(a, q), mixed(b, q+4)}, Tracked: []bool{mask&1 == 1, mask&2 == 2}, Nodes: []Node{{opBin(name), []int{0, 1}}}}
		progCheck(c, p, last(p))
		wp := p.weighted(q + 9)
		progCheck(c, wp, last(wp))
	}
}

func expanding(name string, a, b []int) bool {
	switch name {
	case "Dot":
		return ref.DotOK(a, b) && !ref.SameShape(a, b)
	case "MatMul":
		return ref.MatMulOK(a, b) && !ref.SameShape(a[:len(a)-2], b[:len(b)-2])
	}
	_, ok := ref.BroadcastShapes(a, b)
	return ok && !ref.SameShape(a, b)
}

func runC07(w *eng.W) {
	type cfg struct {
		rank int
		dims []int
		maxN int
	}
	w.Section("implicit expansion: all pairs, Add/Sub/Mul/Div/Dot")
	seen := map[string]bool{}
	for _, f := range []cfg{{3, []int{1, 2, 3}, 27}, {2, []int{1, 2, 3, 4, 5}, 25}, {4, []int{1, 2, 3}, w.Pick(36, 81)}, {5, []int{1, 2}, 32}, {3, []int{1, 2, 3, 4}, w.Pick(32, 64)}, {5, []int{1, 2, 3}, w.Pick(0, 36)}, {6, []int{1, 2}, w.Pick(8, 64)}} {
		ss := shapes(f.rank, f.dims, f.maxN)
		for _, a := range ss {
			for _, b := range ss {
				k := ints(a) + ints(b)
				if seen[k] || !expanding("Add", a, b) {
					continue
				}
				seen[k] = true
				a, b := a, b
				w.Case(func() string { return ints(a) + " with " + ints(b) }, func(c *eng.C) {
					for q, name := range []string{"Add", "Sub", "Mul", "Div", "Dot"} {
						if expanding(name, a, b) {
							c07Implicit(c, name, a, b, q)
						}
					}
				})
			}
		}
	}
	w.Section("implicit expansion: MatMul batch pairs")
	seen = map[string]bool{}
	for _, f := range []cfg{{2, []int{1, 2, 3}, 9}, {3, []int{1, 2, 3}, w.Pick(12, 27)}, {4, []int{1, 2}, 16}} {
		ss := shapes(f.rank, f.dims, f.maxN)
		for _, ba := range ss {
			for _, bb := range ss {
				if _, ok := ref.BroadcastShapes(ba, bb); !ok || ref.SameShape(ba, bb) {
					continue
				}
				for _, mnk := range [][3]int{{1, 1, 1}, {2, 3, 2}, {1, 2, 3}, {3, 1, 2}, {2, 2, 1}, {2, 1, 1}, {1, 3, 1}} {
					a := append(ref.CopyInts(ba), mnk[0], mnk[1])
					b := append(ref.CopyInts(bb), mnk[1], mnk[2])
					k := ints(a) + ints(b)
					if seen[k] {
						continue
					}
					seen[k] = true
					w.Case(func() string { return "MatMul " + k }, func(c *eng.C) { c07Implicit(c, "MatMul", a, b, 2) })
				}
			}
		}
	}
	w.Section("explicit Broadcast: every source and target")
	seen = map[string]bool{}
	for _, f := range []cfg{{4, []int{1, 2, 3}, 81}, {2, []int{1, 2, 3, 4, 5, 6}, 36}, {6, []int{1, 2}, 64}, {5, []int{1, 2, 3}, w.Pick(48, 243)}, {3, []int{1, 2, 3, 4, 5}, 125}} {
		for _, dst := range shapes(f.rank, f.dims, f.maxN) {
			for m := 0; m < 1<<len(dst); m++ {
				for cut := 0; cut <= len(dst); cut++ {
					src := ref.CopyInts(dst)
					for i := range src {
						if m>>i&1 == 1 {
							src[i] = 1
						}
					}
					src = src[cut:]
					k := ints(src) + ints(dst)
					if seen[k] {
						continue
					}
					seen[k] = true
					dst := dst
					w.Case(func() string { return ints(src) + ".Broadcast(" + ints(dst) + ")" }, func(c *eng.C) { c07Explicit(c, src, dst, m%5) })
				}
			}
		}
	}
	w.Section("programs: chained and shared expansions")
	ps := shapes(3, []int{1, 2, 3}, w.Pick(12, 18))
	ar := []string{"Add", "Sub", "Mul", "Div"}
	for _, a := range ps {
		for _, b := range ps {
			for _, d := range ps {
				ab, ok := ref.BroadcastShapes(a, b)
				if !ok {
					continue
				}
				if _, ok = ref.BroadcastShapes(ab, d); !ok {
					continue
				}
				if _, ok := ref.BroadcastShapes(a, d); !ok || ref.SameShape(a, b) && ref.SameShape(a, d) {
					continue
				}
				a, b, d := a, b, d
				w.Case(func() string { return "chain " + ints(a) + ints(b) + ints(d) }, func(c *eng.C) {
					leaves := []ref.T{mixed(a, 0), mixed(b, 1), mixed(d, 2)}
					for i, o1 := range ar {
						o2 := ar[(i+len(a)+len(b))%4]
						for mask := 1; mask < 8; mask++ {
							if !w.Thorough() && mask != 7 && mask != 1+i%3 {
								continue
							}
							tr := []bool{mask&1 == 1, mask&2 == 2, mask&4 == 4}
							// ((a o1 b) o2 d)
							p := &Prog{Leaves: leaves, Tracked: tr, Nodes: []Node{{opBin(o1), []int{0, 1}}, {opBin(o2), []int{3, 2}}}}
							wp := p.weighted(3)
							progCheck(c, wp, last(wp))
							// (a o1 b) o2 (a o1 d): the shared operand is expanded in several ways
							p = &Prog{Leaves: leaves, Tracked: tr, Nodes: []Node{{opBin(o1), []int{0, 1}}, {opBin(o1), []int{2, 0}}, {opBin(o2), []int{3, 4}}, {opBin("Add"), []int{5, 0}}}}
							progCheck(c, p, last(p))
							// expansion of an interior tensor
							p = &Prog{Leaves: leaves, Tracked: tr, Nodes: []Node{{opScale(-2), []int{0}}, {opBin(o1), []int{1, 3}}, {opBin(o2), []int{3, 2}}, {opBin("Mul"), []int{4, 5}}}}
							progCheck(c, p, last(p))
						}
					}
				})
			}
		}
	}
	w.Section("products over expanded results")
	for _, f := range [][2][]int{{{2}, {3, 2}}, {{1, 2}, {3, 2}}, {{1}, {2}}, {{2, 1}, {2, 3}}, {nil, {2, 2}}, {{2, 1, 2}, {3, 2}}, {{1, 1}, {2, 2}}} {
		f := f
		w.Case(func() string { return fmt.Sprint("products ", f) }, func(c *eng.C) {
			for _, o1 := range ar {
				for _, o2 := range []string{"Dot", "MatMul", "ElMax", "Mul"} {
					for mask := 1; mask < 4; mask++ {
						p := &Prog{Leaves: []ref.T{mixed(f[0], 1), mixed(f[1], 2)}, Tracked: []bool{mask&1 == 1, mask&2 == 2}, Nodes: []Node{{opBin(o1), []int{0, 1}}, {opBin(o1), []int{1, 0}}}}
						s := p.ref().Vals[2].S
						if o2 == "MatMul" {
							if len(s) < 2 {
								continue
							}
							p.Nodes = append(p.Nodes, Node{opTranspose(), []int{3}})
							p.Nodes = append(p.Nodes, Node{opBin(o2), []int{2, 4}})
						} else {
							if o2 == "Dot" && len(s) < 1 {
								continue
							}
							p.Nodes = append(p.Nodes, Node{opScale(1.37), []int{3}}, Node{opBin(o2), []int{2, 4}})
						}
						wp := p.weighted(5)
						progCheck(c, wp, last(wp))
					}
				}
			}
		})
	}
	w.Section("several expansions of the same operands, back-propagated one after the other")
	for _, a := range ps {
		for _, b := range ps {
			if !expanding("Add", a, b) && !expanding("Dot", a, b) && !expanding("MatMul", a, b) {
				continue
			}
			w.Case(func() string { return "expansions of " + ints(a) + " and " + ints(b) }, func(c *eng.C) {
				var is []Inst
				for _, n := range []string{"Add", "Sub", "Mul", "Div", "Dot", "MatMul"} {
					if expanding(n, a, b) {
						is = append(is, Inst{opBin(n), [][]int{a, b}})
					}
				}
				for _, i := range is {
					for _, j := range is {
						for mask := 1; mask < 4; mask++ {
							sharedOrders(c, []Inst{i, j}, mask)
							sharedSteps(c, []Inst{i, j}, mask)
						}
					}
				}
				if w.Thorough() {
					tuples(len(is), 3, func(t []int) bool {
						sharedOrders(c, []Inst{is[t[0]], is[t[1]], is[t[2]]}, 3)
						return true
					})
				}
			})
		}
	}
	w.Section("value alphabet")
	vals := []float64{0, 1, -1, 2, 1e-8, -1e8, 1e100, 1e-100, 1e150, -1e-150, 0.3, 1e200}
	for _, x := range vals {
		for _, y := range vals {
			x, y := x, y
			w.Case(func() string { return fmt.Sprintf("values %v %v", x, y) }, func(c *eng.C) {
				for _, name := range ar {
					if name == "Div" && (y == 0 || math.Abs(x) > 1e90 || math.Abs(y) < 1e-20) {
						continue
					}
					for mask := 1; mask < 4; mask++ {
						p := &Prog{Leaves: []ref.T{ref.Of([]int{2, 3}, x, -x, x/2, x, 1, -1), ref.Of([]int{3}, y, -y, y)}, Tracked: []bool{mask&1 == 1, mask&2 == 2}, Nodes: []Node{{opBin(name), []int{0, 1}}}}
						c07Tame(c, p)
						p = &Prog{Leaves: []ref.T{ref.Of([]int{2, 3}, x, -x, x/2, x, 1, -1), ref.Of(nil, y)}, Tracked: p.Tracked, Nodes: p.Nodes}
						c07Tame(c, p)
						p = &Prog{Leaves: []ref.T{ref.Of([]int{2, 1}, x, -x), ref.Of([]int{1, 3}, y, -y, y)}, Tracked: p.Tracked, Nodes: p.Nodes}
						c07Tame(c, p)
					}
				}
			})
		}
	}
	gridC07(w)
	giantsC07(w)
	w.Section("size ladder")
	for _, n := range ladder(w.Pick(2049, 8193)) {
		for form := 0; form < 6; form++ {
			n, form := n, form
			w.Case(func() string { return fmt.Sprintf("ladder %d form %d", n, form) }, func(c *eng.C) {
				f := [][2][]int{{{n}, nil}, {{n, 2}, {2}}, {{2, n}, {n}}, {{n, 1}, {1, 2}}, {{1, n}, {2, 1}}, {{2, n, 1}, {n, 2}}}[form]
				for q, name := range ar {
					c07Implicit(c, name, f[0], f[1], q)
				}
				if ref.BroadcastOK(f[1], f[0]) {
					c07Explicit(c, f[1], f[0], 1)
				}
			})
		}
	}
}

// c07Tame runs a program whose values may leave progCheck's default range, as long as everything stays finite.
func c07Tame(c *eng.C, p *Prog) {
	e := p.ref()
	g := make([][]float64, len(e.Vals))
	m := make([][]float64, len(e.Vals))
	p.grads(e, last(p), g, m)
	for k := range e.Vals {
		if !finite(e.Vals[k].V) || g[k] != nil && !finite(m[k]) {
			return
		}
	}
	ts := p.lib(c)
	bp(c, "root", ts[last(p)])
	checkGrads(c, e, ts, g, m)
	c.Validated()
}

func init() {
	register(&eng.Check{ID: "C07", Run: runC07,
		Bounds: func(tier string) string {
			return "implicit expansion in Add/Sub/Mul/Div/Dot: all expanding shape pairs rank<=3 dims {1,2,3}, rank<=2 dims 1..5, rank<=4 dims {1,2,3} (cap 36 / 81), rank<=5 dims {1,2}; MatMul: all batch pairs rank<=3 dims {1,2,3}, rank<=4 dims {1,2} x 7 (m,n,k); explicit Broadcast: every target rank<=4 dims {1,2,3} (and more) with every source, factor 1 included; every tracked subset; all-ones and generic upstream; " +
				"chained and shared expansions over all compatible shape triples rank<=3; every pair (thorough: triple) of expanding operations over the same operand objects, back-propagated in every order, and one after the other with resets; value alphabet; sizes up to 2049 (8193)"
		},
		Assumptions: []string{"an explicit Broadcast call whose operand receives exactly the mean over the copies is the recorded known finding; any other deviation is a violation"}})
}
