package checks

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verifmc/eng"
	"verifmc/ref"
)

/* Sources: ways of obtaining a tensor with given elements from leaves. Sinks: ways of consuming one. Both know what a
back-propagation must deliver, so a component's gradient can be checked at the component's input and, through the chain
rule, at the leaves behind it. */

// source builds x with elements v; check verifies the gradients of x and of everything behind it given dRoot/dx.
type source struct {
	name string
	ok   func(s []int) bool
	mk   func(c *eng.C, v ref.T, tracked bool) (x tn, leaves []leafG)
}

// leafG is a leaf behind a source; grad maps the gradient of x to that of the leaf (values and magnitudes alike).
type leafG struct {
	t    tn
	s    []int
	grad func(g []float64, mag bool) []float64
}

func times(k float64) func(g []float64, mag bool) []float64 {
	return func(g []float64, mag bool) []float64 {
		r := make([]float64, len(g))
		for i := range g {
			r[i] = k * g[i]
			if mag {
				r[i] = math.Abs(r[i])
			}
		}
		return r
	}
}

func always([]int) bool { return true }

// exact: the source reproduces the elements exactly (halving may underflow).
func (s source) exact(v ref.T) bool {
	switch s.name {
	case "Scale(2)", "Mul of twos", "x+0.5x":
		for _, x := range v.V {
			if x*0.5*2 != x {
				return false
			}
		}
	}
	return true
}

func scaled(v ref.T, k float64) ref.T {
	return mapT(v, func(i int, x float64) float64 { return x * k })
}

var sources = []source{
	{"leaf", always, func(c *eng.C, v ref.T, tr bool) (tn, []leafG) {
		x := mk(c, v, tr)
		return x, []leafG{{x, v.S, times(1)}}
	}},
	{"Scale(2)", always, func(c *eng.C, v ref.T, tr bool) (tn, []leafG) {
		l := mk(c, scaled(v, 0.5), tr)
		return l.Scale(2), []leafG{{l, v.S, times(2)}}
	}},
	{"Reshape", always, func(c *eng.C, v ref.T, tr bool) (tn, []leafG) {
		n := len(v.V)
		l := mk(c, ref.T{S: []int{n}, V: v.V}, tr)
		x, err := l.Reshape(ref.CopyInts(v.S))
		must(c, "Reshape", x, err)
		return x, []leafG{{l, []int{n}, times(1)}}
	}},
	{"Transpose", func(s []int) bool { return len(s) >= 2 }, func(c *eng.C, v ref.T, tr bool) (tn, []leafG) {
		o := ref.Transpose(v)
		l := mk(c, o.T, tr)
		x, err := l.Transpose()
		must(c, "Transpose", x, err)
		return x, []leafG{{l, o.T.S, func(g []float64, mag bool) []float64 { return ref.Transpose(ref.T{S: v.S, V: g}).V }}}
	}},
	{"Slice", func(s []int) bool { return len(s) >= 1 && len(s) < 5 }, func(c *eng.C, v ref.T, tr bool) (tn, []leafG) {
		k := ref.Prod(v.S[1:])
		big := ref.CopyInts(v.S)
		big[0] += 2
		o := ref.Full(big, 7)
		copy(o.V[k:], v.V)
		l := mk(c, o, tr)
		x, err := l.Slice([]tensor.Range{{From: 1, To: 1 + v.S[0]}})
		must(c, "Slice", x, err)
		return x, []leafG{{l, big, func(g []float64, mag bool) []float64 {
			r := make([]float64, len(o.V))
			copy(r[k:], g)
			return r
		}}}
	}},
	{"Concat", func(s []int) bool { return len(s) >= 1 && s[0] >= 2 }, func(c *eng.C, v ref.T, tr bool) (tn, []leafG) {
		k := ref.Prod(v.S[1:])
		a, b := ref.CopyInts(v.S), ref.CopyInts(v.S)
		a[0], b[0] = 1, v.S[0]-1
		la, lb := mk(c, ref.T{S: a, V: v.V[:k]}, tr), mk(c, ref.T{S: b, V: v.V[k:]}, tr)
		x, err := tensor.Concat([]tn{la, lb}, 0)
		must(c, "Concat", x, err)
		return x, []leafG{{la, a, func(g []float64, mag bool) []float64 { return g[:k] }}, {lb, b, func(g []float64, mag bool) []float64 { return g[k:] }}}
	}},
	{"Add of a scalar", always, func(c *eng.C, v ref.T, tr bool) (tn, []leafG) {
		l, z := mk(c, v, tr), mk(c, ref.Of([]int{}, 0), tr)
		x, err := z.Add(l)
		must(c, "Add", x, err)
		return x, []leafG{{l, v.S, times(1)}, {z, []int{}, func(g []float64, mag bool) []float64 {
			s := 0.0
			for _, q := range g {
				s += q
			}
			return []float64{s}
		}}}
	}},
	{"Mul of twos", always, func(c *eng.C, v ref.T, tr bool) (tn, []leafG) {
		l, z := mk(c, scaled(v, 0.5), tr), mk(c, ref.Full(v.S, 2), false)
		x, err := l.Mul(z)
		must(c, "Mul", x, err)
		return x, []leafG{{l, v.S, times(2)}}
	}},
	{"Patch", always, func(c *eng.C, v ref.T, tr bool) (tn, []leafG) {
		l, z := mk(c, v, tr), mk(c, ref.Full(v.S, 3), tr)
		x, err := z.Patch(nil, l)
		must(c, "Patch", x, err)
		return x, []leafG{{l, v.S, times(1)}, {z, v.S, times(0)}}
	}},
	{"UnSqueeze+Squeeze", func(s []int) bool { return len(s) < 5 }, func(c *eng.C, v ref.T, tr bool) (tn, []leafG) {
		l := mk(c, v, tr)
		u, err := l.UnSqueeze(0)
		must(c, "UnSqueeze", u, err)
		x, err := u.Squeeze(0)
		must(c, "Squeeze", x, err)
		return x, []leafG{{l, v.S, times(1)}}
	}},
	{"x+0.5x", always, func(c *eng.C, v ref.T, tr bool) (tn, []leafG) {
		l := mk(c, scaled(v, 0.5), tr)
		x, err := l.Add(l)
		must(c, "Add", x, err)
		return x, []leafG{{l, v.S, times(2)}}
	}},
}

// checkFlow checks the gradient of x and of the leaves behind it; nil g: none of them may have one.
// lo, hi: bounds (equal except at kinks).
func checkFlow(c *eng.C, what string, x tn, xs []int, ls []leafG, lo, hi, mag []float64) {
	if lo == nil {
		if x.Gradient() != nil {
			c.Fail("%s: untracked input got a gradient", what)
		}
		for _, l := range ls {
			if l.t.Gradient() != nil {
				c.Fail("%s: untracked leaf got a gradient", what)
			}
		}
		return
	}
	g := x.Gradient()
	if g == nil {
		c.Fail("%s: tracked input got no gradient", what)
	}
	gv := get(c, what, g)
	if !ref.SameShape(gv.S, xs) {
		c.Fail("%s: gradient has shape %v, the input %v", what, gv.S, xs)
	}
	for i, v := range gv.V {
		tol := rtol * mag[i]
		if mag[i] > 0 {
			tol += 1e-300 // subnormal intermediates
		}
		if math.IsNaN(v) || math.IsInf(v, 0) {
			c.Fail("%s: gradient element %d is %v, expected %s\n got      %v\n expected %v", what, i, v, interval(lo[i], hi[i]), trim(gv.V), trim(lo))
		}
		if !(v >= lo[i]-tol && v <= hi[i]+tol) {
			c.Fail("%s: gradient element %d is %v, expected %s\n got      %v\n expected %v", what, i, v, interval(lo[i], hi[i]), trim(gv.V), trim(lo))
		}
	}
	c.AddValues(len(gv.V))
	for k, l := range ls {
		if l.t == x {
			continue
		}
		// the leaf must receive exactly what the chain rule makes of the gradient x has
		if l.t.Gradient() == nil {
			c.Fail("%s: leaf %d behind the input got no gradient", what, k)
		}
		m := make([]float64, len(gv.V))
		for i := range m {
			m[i] = math.Abs(gv.V[i]) + mag[i] + 1e-290
		}
		checkT(c, fmt.Sprintf("%s: gradient of leaf %d behind the input", what, k), l.t.Gradient(), ref.T{S: l.s, V: l.grad(gv.V, false)}, l.grad(m, true))
	}
}

func interval(lo, hi float64) string {
	if lo == hi {
		return fmt.Sprint(lo)
	}
	return fmt.Sprintf("in [%v, %v]", lo, hi)
}

// sink consumes y and returns the root to back-propagate together with dRoot/dy (per element) and magnitudes.
type sink struct {
	name string
	ok   func(s []int) bool
	mk   func(c *eng.C, y tn, yv ref.T) (root tn, g, gm []float64)
}

func fill(n int, v float64) []float64 { return ref.Full([]int{n}, v).V }

// upstream patterns: distinct positive/negative weights; one-hot; zero; large.
func weightSink(name string, u func(s []int) ref.T, reduce bool) sink {
	return sink{name, func(s []int) bool { return !reduce || len(s) > 0 }, func(c *eng.C, y tn, yv ref.T) (tn, []float64, []float64) {
		w := u(yv.S)
		z, err := y.Mul(mk(c, w, false))
		must(c, "Mul", z, err)
		if reduce {
			z, err = z.SumAlong(len(yv.S) - 1)
			must(c, "SumAlong", z, err)
		}
		return z, w.V, absV(w.V)
	}}
}

var sinks = []sink{
	weightSink("weights", func(s []int) ref.T { return mixed(s, 4) }, false),
	{"direct", always, func(c *eng.C, y tn, yv ref.T) (tn, []float64, []float64) {
		return y, fill(len(yv.V), 1), fill(len(yv.V), 1)
	}},
	weightSink("summed weights", func(s []int) ref.T { return mixed(s, 9) }, true),
	{"Scale(-3)", always, func(c *eng.C, y tn, yv ref.T) (tn, []float64, []float64) {
		return y.Scale(-3), fill(len(yv.V), -3), fill(len(yv.V), 3)
	}},
	{"y+2y", always, func(c *eng.C, y tn, yv ref.T) (tn, []float64, []float64) {
		z, err := y.Add(y.Scale(2))
		must(c, "Add", z, err)
		return z, fill(len(yv.V), 3), fill(len(yv.V), 3)
	}},
	{"zero weights", always, func(c *eng.C, y tn, yv ref.T) (tn, []float64, []float64) {
		return y.Scale(0), fill(len(yv.V), 0), fill(len(yv.V), 0)
	}},
}
