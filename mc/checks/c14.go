package checks

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/layers/activations"

	"verifmc/eng"
	"verifmc/ref"
)

type fwd interface {
	Forward(xs ...tn) (tn, error)
}

type identity struct{}

func (identity) Forward(xs ...tn) (tn, error) { return xs[0].Scale(1), nil }

// actLib builds the activation; the library's nil-config defaults are used where they mean the same.
func actLib(a ref.Act) fwd {
	switch a.Kind {
	case "Relu":
		return activations.NewRelu()
	case "LeakyRelu":
		cf := &activations.LeakyReluConfig{M: a.M}
		defer func() { cf.M = 77 }() // the configuration stays the caller's
		return activations.NewLeakyRelu(cf)
	case "Sigmoid":
		return activations.NewSigmoid()
	case "Tanh":
		return activations.NewTanh()
	case "Softmax":
		cf := &activations.SoftmaxConfig{Dim: a.Dim}
		s, err := activations.NewSoftmax(cf)
		if err != nil {
			panic(err)
		}
		cf.Dim = (a.Dim + 1) % 3
		return s
	}
	return identity{}
}

// actObj is an activation object with its reference.
type actObj struct {
	ref.Act
	obj  fwd
	name string
}

var slopes = []float64{0.01, 0, 1, 0.5, -0.5, 2, 1e-3, 10}

func pointActs() (r []actObj) {
	for _, k := range []string{"Relu", "Sigmoid", "Tanh"} {
		a := ref.Act{Kind: k}
		r = append(r, actObj{a, actLib(a), k})
	}
	r = append(r, actObj{ref.Act{Kind: "LeakyRelu", M: 0.01}, activations.NewLeakyRelu(nil), "LeakyRelu(nil)"})
	for _, m := range slopes {
		a := ref.Act{Kind: "LeakyRelu", M: m}
		r = append(r, actObj{a, actLib(a), actName(a)})
	}
	return
}

func softmaxes(rank int) (r []actObj) {
	for d := 0; d < rank; d++ {
		a := ref.Act{Kind: "Softmax", Dim: d}
		r = append(r, actObj{a, actLib(a), actName(a)})
		if d == 0 {
			s, err := activations.NewSoftmax(nil)
			if err != nil {
				panic(err)
			}
			r = append(r, actObj{a, s, "Softmax(nil)"})
		}
	}
	return
}

func plusMinus(v ...float64) (r []float64) {
	for _, x := range v {
		r = append(r, x, -x)
	}
	return
}

var (
	actLetters   = plusMinus(0, 5e-324, 1e-300, 1e-20, 1e-8, 0.1, 0.5, 1, 1.5, 2, 5, 18, 20, 36, 36.8, 40, 100, 300, 700, 709, 710, 720, 745, 746, 800, 1e6, 1e100, 1e300, math.MaxFloat64)
	actFew       = plusMinus(0, 1e-8, 0.5, 2, 40, 700, 1e6)
	smaxLetters  = plusMinus(0, 1e-8, 0.5, 1, 3, 30, 37, 300, 350, 690, 700)
	smaxFew      = []float64{0, 1, -2.5, 40, -350, 700, -700}
	smaxFewer    = []float64{0, 1.5, 700, -700}
	gradLetters  = plusMinus(0, 5e-324, 1e-300, 1e-20, 1e-8, 0.1, 0.5, 1, 2, 5, 18, 20, 36, 37, 40, 100, 300, 350, 400, 690, 700, 709, 710, 745, 746, 800, 1e6, 1e100, 1e300, math.MaxFloat64)
	gradFew      = []float64{0, negZ, 0.5, -0.5, 2, -40, 40, 700, -700}
	gradSmax     = plusMinus(0, 0.5, 1, 3, 40, 300, 350, 360, 690, 700)
	gradSmaxFew  = []float64{0, 1, -2.5, 350, 700, -700}
	gradSmaxFew4 = []float64{0, 1.5, 700, -700}
)

// actForward compares one forward evaluation. The values are within the range of the property.
func actForward(c *eng.C, a actObj, v ref.T, s source, tracked bool) {
	if !s.ok(v.S) || !s.exact(v) {
		return
	}
	c.Op("%s.Forward(%v) from %s, tracked %v", a.name, v, s.name, tracked)
	x, _ := s.mk(c, v, tracked)
	y, err := a.obj.Forward(x)
	must(c, a.name, y, err)
	g := get(c, a.name, y)
	if !ref.SameShape(g.S, v.S) {
		c.Fail("%s of shape %v (%s) has shape %v", a.name, v.S, s.name, g.S)
	}
	want := a.Forward(v)
	for i := range want.V {
		tol := rtol*math.Abs(want.V[i]) + 1e-300
		if a.Kind == "Sigmoid" {
			tol += 2.3e-16
		}
		if a.Kind == "Softmax" && math.Abs(v.V[i]) > 350 {
			tol += 1e-290
		}
		if !(g.V[i] == want.V[i] || math.Abs(g.V[i]-want.V[i]) <= tol) {
			c.Fail("%s of %v (%s): element %d is %v, expected %v\n got      %v\n expected %v", a.name, v, s.name, i, g.V[i], want.V[i], trim(g.V), trim(want.V))
		}
		if a.Kind == "Softmax" && g.V[i] < 0 {
			c.Fail("%s of %v: element %d is negative: %v", a.name, v, i, g.V[i])
		}
	}
	c.AddValues(len(want.V))
	c.Validated()
}

func pow10(n, k int) int {
	r := 1
	for ; k > 0; k-- {
		r *= n
	}
	return r
}

// lineShapes: shapes in which a line of length k lies along dim, surrounded by other lines.
func lineShapes(k int) (r []struct {
	S   []int
	Dim int
}) {
	add := func(d int, s ...int) {
		r = append(r, struct {
			S   []int
			Dim int
		}{s, d})
	}
	add(0, k)
	add(0, k, 1)
	add(1, 1, k)
	add(0, k, 2)
	add(1, 2, k)
	add(1, 2, k, 2)
	add(1, k, k)
	add(0, k, k)
	add(2, 1, 2, k)
	add(0, k, 2, 1)
	return
}

// withLine fills a tensor with other values and puts line q along dim at every other line position.
func withLine(s []int, dim int, q []float64, k int) ref.T {
	t := generic(s, k, -2, 2)
	st := ref.Strides(s)
	ix := make([]int, len(s))
	for p := range t.V {
		ref.Unravel(p, s, ix)
		if ix[dim] != 0 {
			continue
		}
		o := 0
		for _, x := range ix {
			o += x
		}
		if (o+k)%2 == 0 {
			for j := range q {
				t.V[p+j*st[dim]] = q[j]
			}
		}
	}
	return t
}

func runC14(w *eng.W) {
	pts := pointActs()
	w.Section("element-wise: letters")
	for _, a := range pts {
		for _, v := range actLetters {
			w.Case(func() string { return fmt.Sprintf("%s(%v)", a.name, v) }, func(c *eng.C) {
				for _, s := range [][]int{{}, {1}, {1, 1}, {1, 1, 1, 1, 1}} {
					for _, src := range sources {
						for _, tr := range []bool{false, true} {
							actForward(c, a, ref.Of(s, v), src, tr)
						}
					}
				}
				c.Outcome(a.Kind)
			})
		}
	}
	w.Section("element-wise: all letter combinations in small tensors")
	for _, a := range pts {
		ls := actLetters
		for k := 2; k <= 3; k++ {
			if k == 3 && !w.Thorough() {
				ls = actFew
			}
			for i := range ls {
				w.Case(func() string { return fmt.Sprintf("%s(%v, %d more)", a.name, ls[i], k-1) }, func(c *eng.C) {
					tuples(len(ls), k-1, func(q []int) bool {
						v := []float64{ls[i]}
						for _, j := range q {
							v = append(v, ls[j])
						}
						actForward(c, a, ref.Of([]int{k}, v...), sources[0], true)
						if k == 2 {
							actForward(c, a, ref.Of([]int{2, 1}, v...), sources[0], false)
						}
						return true
					})
				})
			}
		}
	}
	w.Section("all shapes: positional values")
	all := shapes(5, []int{1, 2, 3, 4}[:w.Pick(3, 4)], w.Pick(243, 400))
	all = append(all, []int{64}, []int{65}, []int{33, 7}, []int{128, 2}, []int{4, 5, 6}, []int{257})
	for _, s := range all {
		w.Case(func() string { return fmt.Sprint(s) }, func(c *eng.C) {
			for _, a := range append(pointActs(), softmaxes(len(s))...) {
				for q := 0; q < 2; q++ {
					for si, src := range sources {
						if si > 0 && q > 0 || len(s) == 5 && src.name == "UnSqueeze+Squeeze" {
							continue
						}
						c.Beat()
						actForward(c, a, mixed(s, q), src, si%2 == 0)
					}
				}
				actForward(c, a, mapT(mixed(s, 1), func(i int, v float64) float64 { return 300 * v }), sources[0], false)
				actForward(c, a, ref.Full(s, -3), sources[0], false)
				if ref.Prod(s) <= 24 { // every single position deviates
					for i := 0; i < ref.Prod(s); i++ {
						t := ref.Full(s, 0.5)
						t.V[i] = -1.25
						actForward(c, a, t, sources[0], true)
					}
				}
			}
		})
	}
	w.Section("size ladder")
	for _, n := range ladder(16385) {
		for _, s := range ladderShapes(n) {
			if ref.Prod(s) > w.Pick(17000, 33000) {
				continue
			}
			w.Case(func() string { return fmt.Sprintf("ladder %v", s) }, func(c *eng.C) {
				obs := softmaxes(len(s))
				if len(s) < 2 || w.Thorough() {
					obs = append(pointActs()[:5], obs...)
				}
				for i, a := range obs {
					actForward(c, a, mixed(s, i), sources[0], i%2 == 0)
					actForward(c, a, mapT(mixed(s, i+1), func(i int, v float64) float64 { return 100 * v }), sources[1+n%(len(sources)-1)], i%2 == 1)
				}
			})
		}
	}
	giantsActs(w, func(c *eng.C, a actObj, s []int, k int) { actForward(c, a, mixed(s, k), sources[0], k%2 == 0) })
	gridActs(w, func(c *eng.C, a actObj, s []int, k int) {
		actForward(c, a, mixed(s, k), sources[0], k%2 == 0)
		actForward(c, a, mapT(mixed(s, k+1), func(i int, v float64) float64 { return 100 * v }), sources[0], k%2 == 1)
	})
	w.Section("Softmax: lines of letters")
	smaxCases(w, w.Pick(4, 5), smaxLetters, smaxFew, smaxFewer, func(c *eng.C, a actObj, v ref.T, k int) {
		actForward(c, a, v, sources[k%len(sources)], k%2 == 0)
	})
	w.Section("histories: one object on changing inputs")
	ss := [][]int{{1}, {3}, {2, 2}, {1, 3}, {2, 1, 2}}
	tuples(len(ss)+1, 3, func(q []int) bool {
		seq := ref.CopyInts(q)
		w.Case(func() string { return fmt.Sprintf("history %v", seq) }, func(c *eng.C) {
			sm, _ := activations.NewSoftmax(nil)
			objs := append(pointActs(), actObj{ref.Act{Kind: "Softmax"}, sm, "Softmax(nil)"})
			for _, a := range objs {
				for i, k := range seq {
					if k == len(ss) {
						if y, err := a.obj.Forward(nil); err == nil || y != nil {
							c.Fail("%s accepted nil", a.name)
						}
						continue
					}
					actForward(c, a, mixed(ss[k], i), sources[i%len(sources)], i%2 == 0)
				}
			}
		})
		return !w.Stopped()
	})
	w.Section("chains of two activations")
	for _, s := range [][]int{{}, {3}, {2, 3}, {2, 1, 3}} {
		obs := append(pointActs(), softmaxes(len(s))...)
		for _, a := range obs {
			for _, b := range obs {
				w.Case(func() string { return fmt.Sprintf("%s of %s %v", b.name, a.name, s) }, func(c *eng.C) {
					x := mk(c, mixed(s, 2), true)
					y, err := a.obj.Forward(x)
					must(c, a.name, y, err)
					z, err := b.obj.Forward(y)
					must(c, b.name, z, err)
					m := a.Forward(mixed(s, 2))
					checkT(c, b.name+" of "+a.name, z, b.Forward(m), fill(len(m.V), 1+maxAbs(m.V)))
					c.Validated()
				})
			}
		}
	}
}

// smaxCases enumerates Softmax lines of letters in all lineShapes.
func smaxCases(w *eng.W, maxK int, l2, l3, l4 []float64, f func(c *eng.C, a actObj, v ref.T, k int)) {
	for k := 1; k <= maxK; k++ {
		ls := l2
		switch k {
		case 3:
			ls = l3
			if w.Thorough() {
				ls = l2
			}
		case 4, 5:
			ls = l4
			if w.Thorough() {
				ls = l3
			}
		}
		for i := range ls {
			w.Case(func() string { return fmt.Sprintf("Softmax line %v and %d more", ls[i], k-1) }, func(c *eng.C) {
				n := 0
				g := func(q []int) bool {
					v := []float64{ls[i]}
					for _, j := range q {
						v = append(v, ls[j])
					}
					for _, sh := range lineShapes(k) {
						a := ref.Act{Kind: "Softmax", Dim: sh.Dim}
						c.Beat()
						f(c, actObj{a, actLib(a), actName(a)}, withLine(sh.S, sh.Dim, v, n), n)
						n++
					}
					return true
				}
				if k == 1 {
					g(nil)
				} else {
					tuples(len(ls), k-1, g)
				}
			})
		}
	}
}

func init() {
	register(&eng.Check{ID: "C14", Run: runC14,
		Bounds: func(tier string) string {
			th := tier == "thorough"
			return fmt.Sprintf("Relu, LeakyRelu (nil and %d slopes), Sigmoid, Tanh: %d letters (0, -0, subnormal ... 1.8e308) x %d origins x tracked, every pair of letters, every triple of %s; every shape of rank 0..5 over %s elements with positional values and (<=24 elements) every single-position deviation, every Softmax dimension (and nil); a ladder of sizes up to 16385 elements in several shapes; Softmax: every line of length 1..%d over the letters (|x|<=700) in ten placements; every history of three calls (including rejected ones) on one object; every chain of two",
				len(slopes), len(actLetters), len(sources), map[bool]string{false: "14 letters", true: "all letters"}[th], map[bool]string{false: "{1,2,3}, up to 243", true: "{1,2,3,4}, up to 400"}[th], map[bool]int{false: 4, true: 5}[th])
		},
		Assumptions: []string{"relative tolerance 1e-9 (Sigmoid additionally 2.3e-16 absolute; Softmax probabilities below 1e-290 are not distinguished from 0)"}})
}
