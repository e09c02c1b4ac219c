package checks

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verifmc/eng"
	"verifmc/ref"
)

// actGrad checks the gradient delivered to the activation's input.
func actGrad(c *eng.C, a actObj, v ref.T, s source, k sink) {
	if !s.ok(v.S) || !s.exact(v) || !k.ok(v.S) {
		return
	}
	c.Beat()
	what := fmt.Sprintf("%s gradient at %v (%s), consumer %s", a.name, v, s.name, k.name)
	c.Op("%s", what)
	x, ls := s.mk(c, v, true)
	y, err := a.obj.Forward(x)
	must(c, a.name, y, err)
	root, g, gm := k.mk(c, y, a.Forward(v))
	bp(c, what, root)
	lo, hi, mag := a.Back(v, g, gm)
	if a.Kind == "Softmax" {
		mag = addV(mag, 1e-290)
	}
	// upstream arrives at the activation's output as well
	if y != root {
		checkT(c, what+": at the output", y.Gradient(), ref.T{S: v.S, V: g}, gm)
	}
	checkFlow(c, what, x, v.S, ls, lo, hi, mag)
	c.Validated()
}

// reuse: the activation's input is also used elsewhere, or the activation is applied twice to it.
func actReuse(c *eng.C, a actObj, v ref.T, s source) {
	if !s.ok(v.S) || !s.exact(v) {
		return
	}
	for _, e := range v.V {
		if math.Abs(e) > 1e300 {
			return // products below overflow
		}
	}
	y0 := a.Forward(v)
	u, u2 := mixed(v.S, 2), mixed(v.S, 7)
	n := len(v.V)
	for form := 0; form < 4; form++ {
		c.Beat()
		what := fmt.Sprintf("%s at %v (%s), reuse form %d", a.name, v, s.name, form)
		c.Op("%s", what)
		x, ls := s.mk(c, v, true)
		y, err := a.obj.Forward(x)
		must(c, a.name, y, err)
		var root tn
		g, ex := make([]float64, n), make([]float64, n) // upstream at y, direct part at x
		switch form {
		case 0: // y*u + x*u2
			p, err := y.Mul(mk(c, u, false))
			must(c, "Mul", p, err)
			q, err := x.Mul(mk(c, u2, false))
			must(c, "Mul", q, err)
			root, err = p.Add(q)
			must(c, "Add", root, err)
			copy(g, u.V)
			copy(ex, u2.V)
		case 1: // y*x
			root, err = y.Mul(x)
			must(c, "Mul", root, err)
			copy(g, v.V)
			copy(ex, y0.V)
		case 2: // y*u - y'*u2 with a second application
			y2, err := a.obj.Forward(x)
			must(c, a.name, y2, err)
			p, err := y.Mul(mk(c, u, false))
			must(c, "Mul", p, err)
			q, err := y2.Mul(mk(c, u2, false))
			must(c, "Mul", q, err)
			root, err = p.Sub(q)
			must(c, "Sub", root, err)
			for i := range g {
				g[i] = u.V[i] - u2.V[i]
			}
		case 3: // concat of x and y, weighted
			if len(v.S) == 0 {
				continue
			}
			z, err := tensor.Concat([]tn{x, y}, 0)
			must(c, "Concat", z, err)
			w := ref.T{S: z.Shape(), V: append(append([]float64{}, u2.V...), u.V...)}
			root, err = z.Mul(mk(c, w, false))
			must(c, "Mul", root, err)
			copy(g, u.V)
			copy(ex, u2.V)
		}
		gm := make([]float64, n)
		for i := range gm {
			gm[i] = math.Abs(g[i])
			if form == 2 {
				gm[i] = math.Abs(u.V[i]) + math.Abs(u2.V[i])
			}
		}
		bp(c, what, root)
		lo, hi, mag := a.Back(v, g, gm)
		for i := range lo {
			lo[i] += ex[i]
			hi[i] += ex[i]
			mag[i] += math.Abs(ex[i]) + 1e-290
		}
		checkFlow(c, what, x, v.S, ls, lo, hi, mag)
		c.Validated()
	}
}

func runC15(w *eng.W) {
	pts := pointActs()
	w.Section("element-wise: letters")
	for _, a := range pts {
		for _, v := range gradLetters {
			w.Case(func() string { return fmt.Sprintf("%s(%v)", a.name, v) }, func(c *eng.C) {
				for _, s := range [][]int{{}, {1}, {1, 1}, {1, 1, 1, 1, 1}} {
					for _, src := range sources {
						for _, k := range sinks {
							actGrad(c, a, ref.Of(s, v), src, k)
						}
						actReuse(c, a, ref.Of(s, v), src)
					}
				}
				c.Outcome(a.Kind)
			})
		}
	}
	w.Section("element-wise: all letter combinations in small tensors")
	for _, a := range pts {
		for k := 2; k <= 3; k++ {
			ls := gradLetters
			if k == 3 && !w.Thorough() {
				ls = gradFew
			}
			for i := range ls {
				w.Case(func() string { return fmt.Sprintf("%s(%v, %d more)", a.name, ls[i], k-1) }, func(c *eng.C) {
					n := 0
					tuples(len(ls), k-1, func(q []int) bool {
						v := []float64{ls[i]}
						for _, j := range q {
							v = append(v, ls[j])
						}
						actGrad(c, a, ref.Of([]int{k}, v...), sources[0], sinks[0])
						actGrad(c, a, ref.Of([]int{k}, v...), sources[n%len(sources)], sinks[n%len(sinks)])
						n++
						return true
					})
				})
			}
		}
	}
	w.Section("all shapes: positional values")
	all := shapes(5, []int{1, 2, 3}, w.Pick(24, 108))
	all = append(all, []int{40}, []int{33, 3}, []int{4, 5, 3})
	for _, s := range all {
		for ai := range append(pointActs(), softmaxes(len(s))...) {
			w.Case(func() string { return fmt.Sprintf("%v activation %d", s, ai) }, func(c *eng.C) {
				a := append(pointActs(), softmaxes(len(s))...)[ai]
				for si, src := range sources {
					if len(s) == 5 && src.name == "UnSqueeze+Squeeze" {
						continue
					}
					for ki, k := range sinks {
						if ref.Prod(s) > 27 && si > 0 && ki > 0 {
							continue
						}
						actGrad(c, a, mixed(s, si+ki), src, k)
					}
					actReuse(c, a, mixed(s, si), src)
				}
				actGrad(c, a, ref.Full(s, -3), sources[0], sinks[0])
				if ref.Prod(s) <= 24 {
					// one upstream element at a time; one zero input at a time
					for i := 0; i < ref.Prod(s); i++ {
						hot := ref.New(s)
						hot.V[i] = 1
						actGrad(c, a, mixed(s, 1), sources[i%len(sources)], weightSink("one-hot", func([]int) ref.T { return hot }, false))
						z := mixed(s, 2)
						z.V[i] = 0
						actGrad(c, a, z, sources[(i+1)%len(sources)], sinks[0])
					}
				}
			})
		}
	}
	objectsActs(w)
	livesActs(w)
	w.Section("size ladder")
	for _, n := range ladder(16385) {
		for _, s := range ladderShapes(n) {
			if ref.Prod(s) > w.Pick(17000, 33000) {
				continue
			}
			w.Case(func() string { return fmt.Sprintf("ladder %v", s) }, func(c *eng.C) {
				obs := softmaxes(len(s))
				if len(s) < 2 || w.Thorough() {
					obs = append(pointActs()[:5], obs...)
				}
				for i, a := range obs {
					actGrad(c, a, mixed(s, i), sources[0], sinks[0])
					actGrad(c, a, mixed(s, i+1), sources[1+n%(len(sources)-1)], sinks[n%len(sinks)])
				}
			})
		}
	}
	giantsActs(w, func(c *eng.C, a actObj, s []int, k int) { actGrad(c, a, mixed(s, k), sources[0], sinks[0]) })
	gridActs(w, func(c *eng.C, a actObj, s []int, k int) {
		actGrad(c, a, mixed(s, k), sources[0], sinks[0])
	})
	w.Section("Softmax: lines of letters")
	smaxCases(w, w.Pick(3, 4), gradSmax, gradSmaxFew, gradSmaxFew4, func(c *eng.C, a actObj, v ref.T, k int) {
		actGrad(c, a, v, sources[k%len(sources)], sinks[k%len(sinks)])
		actGrad(c, a, v, sources[0], sinks[0])
		if k%5 == 0 {
			actReuse(c, a, v, sources[k%len(sources)])
		}
	})
	w.Section("chains of activations")
	for _, s := range [][]int{{}, {3}, {2, 3}, {2, 1, 3}} {
		obs := append(pointActs(), softmaxes(len(s))...)
		for _, a := range obs {
			for _, b := range obs {
				w.Case(func() string { return fmt.Sprintf("(%s of) %s of %s %v", a.name, b.name, a.name, s) }, func(c *eng.C) {
					for depth := 2; depth <= 3; depth++ {
						seq := []actObj{a, b, a}[:depth]
						for _, zero := range []bool{false, true} {
							for _, src := range sources {
								if src.ok(s) {
									actChain(c, seq, s, src, zero)
								}
							}
						}
					}
				})
			}
		}
	}
}

func actChain(c *eng.C, seq []actObj, s []int, src source, zero bool) {
	c.Beat()
	v := mixed(s, 3)
	if zero {
		v.V[0] = 0
	}
	x, ls := src.mk(c, v, true)
	vs := []ref.T{v}
	ts := []tn{x}
	for _, a := range seq {
		y, err := a.obj.Forward(ts[len(ts)-1])
		must(c, a.name, y, err)
		ts = append(ts, y)
		vs = append(vs, a.Forward(vs[len(vs)-1]))
	}
	u := mixed(s, 5)
	root, err := ts[len(ts)-1].Mul(mk(c, u, false))
	must(c, "Mul", root, err)
	bp(c, "chain", root)
	// every stage: the gradient it has must be the derivative applied to the gradient the next stage has
	g := u.V
	for i := len(seq) - 1; i >= 0; i-- {
		gr := ts[i+1].Gradient()
		if gr == nil {
			c.Fail("stage %d (%s) has no gradient", i, seq[i].name)
		}
		got := get(c, "gradient", gr)
		if i == len(seq)-1 {
			checkT(c, "gradient at the last output", gr, ref.T{S: s, V: g}, absV(g))
		}
		gm := addV(absV(got.V), 1e-12)
		lo, hi, mag := seq[i].Back(vs[i], got.V, gm)
		mag = addV(mag, 1e-3*maxAbs(gm)) // the reference forward values differ from the library's by rounding
		if i > 0 {
			checkFlow(c, fmt.Sprintf("input of stage %d (%s) at %v", i, seq[i].name, vs[i]), ts[i], s, nil, lo, hi, mag)
		} else {
			checkFlow(c, fmt.Sprintf("input of stage %d (%s) at %v", i, seq[i].name, vs[i]), ts[i], s, ls, lo, hi, mag)
		}
	}
	c.Validated()
}

func init() {
	register(&eng.Check{ID: "C15", Run: runC15,
		Bounds: func(tier string) string {
			th := tier == "thorough"
			return fmt.Sprintf("Relu, LeakyRelu (nil and %d slopes), Sigmoid, Tanh: %d input letters (0, -0, subnormal ... 1.8e308) x %d origins x %d consumers x 4 ways of using the input elsewhere; every pair, every triple of %d letters; every shape of rank 0..5 over {1,2,3} with at most %d elements, every Softmax dimension (and nil), every one-hot upstream gradient and every single zero input up to 24 elements; a ladder of sizes up to 16385 elements in several shapes; Softmax: every line of length 1..%d over the letters in ten placements; every chain of two and three activations, gradient checked at every stage; all pairs (thorough: triples) of 5 input shapes through one object, back-propagated in every order; 10001 (66000) calls on one object",
				len(slopes), len(gradLetters), len(sources), len(sinks), map[bool]int{false: len(gradFew), true: len(gradLetters)}[th], map[bool]int{false: 24, true: 108}[th], map[bool]int{false: 3, true: 4}[th])
		},
		Assumptions: []string{"at 0 the Relu and LeakyRelu gradient may be anything between the one-sided derivatives", "relative tolerance 1e-9 (derivatives of Sigmoid and Tanh additionally 1e-15 of the upstream gradient)"}})
}
