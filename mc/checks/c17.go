package checks

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verifmc/eng"
	"verifmc/ref"
)

// gsink builds a graph over w that delivers a gradient; which one does not matter, the gradient is read back.
type gsink struct {
	name string
	ok   func(s []int) bool
	mk   func(c *eng.C, w tn, s []int) tn
}

func gs(name string, ok func(s []int) bool, f func(c *eng.C, w tn, s []int) (tn, error)) gsink {
	return gsink{name, ok, func(c *eng.C, w tn, s []int) tn {
		y, err := f(c, w, s)
		must(c, name, y, err)
		return y
	}}
}

func rankAtLeast(k int) func(s []int) bool { return func(s []int) bool { return len(s) >= k } }

var gsinks = []gsink{
	gs("positional gradient", always, func(c *eng.C, w tn, s []int) (tn, error) { return w.Mul(mk(c, mixed(s, 4), false)) }),
	gs("constant gradient", always, func(c *eng.C, w tn, s []int) (tn, error) { return w.Scale(2.5), nil }),
	gs("zero gradient", always, func(c *eng.C, w tn, s []int) (tn, error) { return w.Scale(0), nil }),
	gs("accumulated gradient", always, func(c *eng.C, w tn, s []int) (tn, error) {
		a, err := w.Mul(w)
		if err != nil {
			return nil, err
		}
		return a.Sub(w.Exp())
	}),
	gs("large gradient", always, func(c *eng.C, w tn, s []int) (tn, error) {
		return w.Mul(mk(c, mapT(mixed(s, 2), func(i int, v float64) float64 { return v * 1e150 }), false))
	}),
	gs("tiny gradient", always, func(c *eng.C, w tn, s []int) (tn, error) {
		return w.Mul(mk(c, mapT(mixed(s, 2), func(i int, v float64) float64 { return v * 1e-150 }), false))
	}),
	gs("expanded", func(s []int) bool { return len(s) < 5 }, func(c *eng.C, w tn, s []int) (tn, error) {
		return w.Mul(mk(c, mixed(append([]int{2}, s...), 3), false))
	}),
	gs("transposed", rankAtLeast(2), func(c *eng.C, w tn, s []int) (tn, error) {
		t, err := w.Transpose()
		if err != nil {
			return nil, err
		}
		return t.Mul(mk(c, mixed(t.Shape(), 3), false))
	}),
	gs("reshaped", always, func(c *eng.C, w tn, s []int) (tn, error) {
		t, err := w.Reshape([]int{ref.Prod(s)})
		if err != nil {
			return nil, err
		}
		return t.Mul(mk(c, mixed([]int{ref.Prod(s)}, 3), false))
	}),
	gs("first slice only", rankAtLeast(1), func(c *eng.C, w tn, s []int) (tn, error) {
		t, err := w.Slice([]tensor.Range{{From: 0, To: 1}})
		if err != nil {
			return nil, err
		}
		return t.Mul(mk(c, mixed(t.Shape(), 3), false))
	}),
	gs("reduced", rankAtLeast(1), func(c *eng.C, w tn, s []int) (tn, error) { return w.VarAlong(len(s) - 1) }),
	gs("maximum", rankAtLeast(1), func(c *eng.C, w tn, s []int) (tn, error) { return w.MaxAlong(0) }),
	gs("matrix product", rankAtLeast(2), func(c *eng.C, w tn, s []int) (tn, error) {
		t := ref.CopyInts(s)
		t[len(t)-2], t[len(t)-1] = s[len(s)-1], 2
		return w.MatMul(mk(c, mixed(t, 3), false))
	}),
	gs("concatenated", rankAtLeast(1), func(c *eng.C, w tn, s []int) (tn, error) {
		t, err := tensor.Concat([]tn{w, w.Sin()}, len(s)-1)
		if err != nil {
			return nil, err
		}
		return t.Mul(mk(c, mixed(t.Shape(), 3), false))
	}),
}

var rates = []float64{0.01, 0, negZ, 1, -1, -0.5, 0.1, 1e-3, 3, 1e-12, 1e6, -1e6, 1e-100}

// sgdUpdate performs one update and checks everything the property says about it.
func sgdUpdate(c *eng.C, what string, o *optimizers.SGD, lr float64, p *tn) (updated bool) {
	old := *p
	if old == nil {
		if err := o.Update(p); err == nil || *p != nil {
			c.Fail("%s: Update of a nil tensor did not fail cleanly", what)
		}
		return false
	}
	wv := get(c, "weight", old)
	g := old.Gradient()
	if g == nil {
		err := o.Update(p)
		if err == nil {
			c.Fail("%s: Update without a gradient did not return an error", what)
		}
		if *p != old {
			c.Fail("%s: failed Update replaced the tensor", what)
		}
		checkBits(c, what+": tensor after a failed Update", old, wv)
		c.Outcome("no gradient")
		return false
	}
	gv := get(c, "gradient", g)
	if !finite(gv.V) || !finite(wv.V) {
		c.Outcome("not finite")
		return false
	}
	c.Op("%s: Update", what)
	if err := o.Update(p); err != nil {
		c.Fail("%s: Update failed: %v", what, err)
	}
	if *p == nil || *p == old {
		c.Fail("%s: Update did not replace the tensor", what)
	}
	if !ref.SameShape(gv.S, wv.S) {
		c.Fail("%s: gradient has shape %v, tensor %v", what, gv.S, wv.S)
	}
	want, mag := ref.New(wv.S), make([]float64, len(wv.V))
	for i := range want.V {
		want.V[i] = wv.V[i] - lr*gv.V[i]
		mag[i] = 1e-4*(math.Abs(wv.V[i])+math.Abs(lr*gv.V[i])) + 1e-300
	}
	checkT(c, what+": updated tensor", *p, want, mag)
	checkBits(c, what+": previous tensor", old, wv)
	if old.Gradient() != g {
		c.Fail("%s: Update changed the gradient of the previous tensor", what)
	}
	checkBits(c, what+": previous gradient", g, gv)
	c.Outcome("updated")
	c.Validated()
	return true
}

func newSGD(lr float64) *optimizers.SGD {
	cf := &optimizers.SGDConfig{LearningRate: lr}
	o := optimizers.NewSGD(cf)
	cf.LearningRate = 7.5 // the configuration stays the caller's
	return o
}

func runC17(w *eng.W) {
	w.Section("shapes, graphs and rates")
	all := shapes(5, []int{1, 2, 3}, w.Pick(36, 243))
	all = append(all, []int{64}, []int{65}, []int{1000}, []int{32, 32}, []int{7, 5, 4})
	for _, s := range all {
		w.Case(func() string { return fmt.Sprint(s) }, func(c *eng.C) {
			nilO := optimizers.NewSGD(nil)
			for gi, g := range gsinks {
				if !g.ok(s) {
					continue
				}
				for si, src := range sources {
					if !src.ok(s) || len(s) == 5 && src.name == "UnSqueeze+Squeeze" || si > 0 && ref.Prod(s) > 54 {
						continue
					}
					for ri := -1; ri < len(rates); ri++ {
						if si > 0 && ri != (gi+si)%len(rates) && ref.Prod(s) > 6 {
							continue
						}
						c.Beat()
						o, lr := nilO, 0.01
						if ri >= 0 {
							o, lr = newSGD(rates[ri]), rates[ri]
						}
						what := fmt.Sprintf("%v from %s, %s, rate %v", s, src.name, g.name, lr)
						x, _ := src.mk(c, mixed(s, gi), true)
						bp(c, what, g.mk(c, x, s))
						p := x
						if !sgdUpdate(c, what, o, lr, &p) {
							c.Fail("%s: no gradient to update with", what)
						}
						// again: no gradient yet
						if sgdUpdate(c, what+", second", o, lr, &p) {
							c.Fail("%s: the updated tensor has a gradient already", what)
						}
						// through another pointer: the old tensor still has its gradient
						q := x
						sgdUpdate(c, what+", other pointer", o, lr, &q)
						// next step
						p.ResetGradContext(true)
						bp(c, what, g.mk(c, p, s))
						sgdUpdate(c, what+", next step", o, lr, &p)
					}
				}
			}
		})
	}
	w.Section("size ladder")
	for _, n := range ladder(16385) {
		for _, s := range ladderShapes(n) {
			w.Case(func() string { return fmt.Sprintf("ladder %v", s) }, func(c *eng.C) {
				for gi, g := range gsinks {
					if !g.ok(s) || gi != 0 && gi != 3 && gi != 7 && n > 2100 {
						continue
					}
					if g.name == "matrix product" && s[len(s)-1]*s[len(s)-2] > 2100 {
						continue
					}
					lr := rates[gi%len(rates)]
					o := newSGD(lr)
					what := fmt.Sprintf("ladder %v, %s, rate %v", s, g.name, lr)
					src := sources[0]
					if q := sources[n%len(sources)]; gi == 0 && q.ok(s) {
						src = q
					}
					p, _ := src.mk(c, mixed(s, gi), true)
					bp(c, what, g.mk(c, p, s))
					sgdUpdate(c, what, o, lr, &p)
					p.ResetGradContext(true)
					bp(c, what, g.mk(c, p, s))
					sgdUpdate(c, what+", next step", o, lr, &p)
				}
			})
		}
	}
	grid(w, true, func(c *eng.C, s []int, k int) {
		for gi, g := range gsinks {
			if !g.ok(s) || gi != 0 && gi != 1+k%(len(gsinks)-1) || g.name == "matrix product" && ref.Prod(s) > 2100 {
				continue
			}
			o := newSGD(0.1)
			what := fmt.Sprintf("grid %v, %s", s, g.name)
			p := mk(c, mixed(s, gi), true)
			bp(c, what, g.mk(c, p, s))
			sgdUpdate(c, what, o, 0.1, &p)
		}
	})
	w.Section("letters")
	ls := []float64{0, negZ, 1, -1, 0.5, -2.5, 1e-300, -1e-12, 1e12, -1e150, 1e300}
	gl := []float64{0, 1, -1, 0.3, -2.5, 1e-200, 1e12, -1e100}
	for _, a := range ls {
		for _, b := range ls {
			w.Case(func() string { return fmt.Sprintf("weights %v %v", a, b) }, func(c *eng.C) {
				for _, g := range gl {
					for _, h := range gl {
						for ri, lr := range append([]float64{0.01}, rates...) {
							c.Beat()
							o := newSGD(lr)
							if ri == 0 {
								o = optimizers.NewSGD(nil)
							}
							x := mk(c, ref.Of([]int{2}, a, b), true)
							y, err := x.Mul(mk(c, ref.Of([]int{2}, g, h), false))
							must(c, "Mul", y, err)
							bp(c, "y", y)
							p := x
							sgdUpdate(c, fmt.Sprintf("weights %v,%v gradient %v,%v rate %v", a, b, g, h, lr), o, lr, &p)
						}
					}
				}
			})
		}
	}
	w.Section("rejected updates")
	w.Case(func() string { return "nil pointers, untracked, fresh, spent, reset and stale tensors" }, func(c *eng.C) {
		for _, lr := range rates {
			o := newSGD(lr)
			if o.Update(nil) == nil {
				c.Fail("Update(nil) did not return an error")
			}
			var p tn
			sgdUpdate(c, "nil tensor", o, lr, &p)
			for _, s := range shapes(3, []int{1, 2, 3}, 18) {
				for _, tr := range []bool{false, true} {
					x := mk(c, mixed(s, 0), tr)
					p = x
					sgdUpdate(c, "fresh tensor", o, lr, &p)
					p = x.Scale(2)
					sgdUpdate(c, "result", o, lr, &p)
					y, err := x.Eq(x)
					must(c, "Eq", y, err)
					p = y
					sgdUpdate(c, "comparison", o, lr, &p)
					z := x.Scale(2)
					bp(c, "z", z)
					x.ResetGradContext(tr)
					p = x
					if sgdUpdate(c, "reset tensor", o, lr, &p) {
						c.Fail("a reset tensor has a gradient")
					}
				}
			}
		}
	})
	w.Section("update histories")
	sgdHistories(w, w.Pick(6, 7))
}

// sgdHistories: two pointers, two optimizers; every sequence of actions.
func sgdHistories(w *eng.W, depth int) {
	s := []int{2, 2}
	type st struct {
		p    [2]tn
		root [2]tn
	}
	names := []string{"graph over p0", "graph over p0 and p1", "back-propagate last graph", "Update p0", "Update p1", "Update p0 (rate -0.5)", "reset p0", "reset p1", "p1 := p0", "untrack p0", "p0 := gradient of p1"}
	o1, o2 := newSGD(0.25), newSGD(-0.5)
	step := func(c *eng.C, m *st, a int) {
		c.Op("%s", names[a])
		switch a {
		case 0:
			y, err := m.p[0].Mul(mk(c, mixed(s, 3), false))
			must(c, "Mul", y, err)
			m.root[0] = y
		case 1:
			y, err := m.p[0].Mul(m.p[1])
			must(c, "Mul", y, err)
			m.root[0] = y
		case 2:
			if m.root[0] != nil {
				bp(c, "root", m.root[0])
			}
		case 3:
			sgdUpdate(c, "p0", o1, 0.25, &m.p[0])
		case 4:
			sgdUpdate(c, "p1", o1, 0.25, &m.p[1])
		case 5:
			sgdUpdate(c, "p0", o2, -0.5, &m.p[0])
		case 6:
			m.p[0].ResetGradContext(true)
		case 7:
			m.p[1].ResetGradContext(true)
		case 8:
			m.p[1] = m.p[0]
		case 9:
			m.p[0].ResetGradContext(false)
		case 10:
			if g := m.p[1].Gradient(); g != nil {
				m.p[0] = g
			}
		}
		h := eng.NewHasher()
		for _, t := range m.p {
			h.Floats(get(c, "p", t).V)
			if g := t.Gradient(); g != nil {
				h.Floats(get(c, "g", g).V)
			}
		}
		c.State(h.Sum())
	}
	for a := range names {
		for b := range names {
			w.Case(func() string { return fmt.Sprintf("%s; %s; + every %d actions", names[a], names[b], depth-2) }, func(c *eng.C) {
				tuples(len(names), depth-2, func(q []int) bool {
					c.Beat()
					m := &st{p: [2]tn{mk(c, mixed(s, 0), true), mk(c, mixed(s, 1), true)}}
					step(c, m, a)
					step(c, m, b)
					for _, k := range q {
						step(c, m, k)
					}
					return true
				})
			})
		}
	}
}

func init() {
	register(&eng.Check{ID: "C17", Run: runC17,
		Bounds: func(tier string) string {
			th := tier == "thorough"
			return fmt.Sprintf("every shape of rank 0..5 over {1,2,3} with at most %d elements (and a ladder of sizes up to 16385) x %d gradient-producing graphs x the tensor as a leaf or as one of %d kinds of result x rates (nil and %d values, including 0, -0, negative, 1e6, 1e-100); each update followed by an update without gradient, an update of the previous tensor, and a next step; every combination of %d weight letters^2 x 8 gradient letters^2 x all rates; rejected updates in every state; every history of %d actions out of 11 over two pointers and two optimizers",
				map[bool]int{false: 36, true: 243}[th], len(gsinks), len(sources), len(rates), 11, map[bool]int{false: 6, true: 7}[th])
		},
		Assumptions: []string{"the gradient is read back from the tensor (its correctness is C01/C02); updates whose exact result is not finite are skipped"}})
}
