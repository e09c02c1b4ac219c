package checks

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verifmc/eng"
	"verifmc/ref"
)

/* ---------- caller-owned slices ---------- */

// caller is one argument owned by the caller: the ways to mutate it, and a test that the library left it alone.
type caller struct {
	muts []func()
	same func() string // "" while nothing but the mutations changed it
}

// scenario runs one call; at is invoked at every mutation point. The result are the observations.
type scenario struct {
	name string
	run  func(c *eng.C, at func(point int, a caller)) []ref.T
}

// twin runs the scenario unmutated, and once per (mutation point, mutation), and compares the observations.
func twin(c *eng.C, s scenario) {
	points, muts := 0, 0
	base := s.run(c, func(p int, a caller) {
		if p >= points {
			points = p + 1
		}
		muts = len(a.muts)
		if a.same != nil {
			if m := a.same(); m != "" {
				c.Fail("%s: the library changed a slice of its caller: %s", s.name, m)
			}
		}
	})
	for p := 0; p < points; p++ {
		for m := 0; m < muts; m++ {
			c.Beat()
			c.Op("%s: mutation %d at point %d", s.name, m, p)
			got := s.run(c, func(q int, a caller) {
				if q == p {
					a.muts[m]()
				}
			})
			if len(got) != len(base) {
				c.Fail("%s: mutation %d of the argument at point %d changes the number of observations", s.name, m, p)
			}
			for i := range base {
				if !ref.SameShape(base[i].S, got[i].S) {
					c.Fail("%s: mutation %d of the caller's slice at point %d changes shape of observation %d from %v to %v", s.name, m, p, i, base[i].S, got[i].S)
				}
				for k := range base[i].V {
					if !bitsEq(base[i].V[k], got[i].V[k]) {
						c.Fail("%s: mutation %d of the caller's slice at point %d changes observation %d from %v to %v", s.name, m, p, i, trim(base[i].V), trim(got[i].V))
					}
				}
				c.AddValues(len(base[i].V))
			}
			c.Validated()
		}
	}
	c.Outcome(fmt.Sprintf("points %d", points))
}

func bitsEq(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// ownInts makes a caller-owned int slice with guard elements around it.
func ownInts(v []int) ([]int, caller) {
	buf := make([]int, len(v)+6)
	for i := range buf {
		buf[i] = 77
	}
	s := buf[2 : 2+len(v) : 2+len(v)+2]
	copy(s, v)
	var a caller
	for i := range s {
		for _, n := range []int{0, -1, 1, s[i] + 1, 1 << 40} {
			if n != v[i] {
				a.muts = append(a.muts, func() { s[i] = n })
			}
		}
	}
	if len(s) > 1 {
		a.muts = append(a.muts, func() { s[0], s[len(s)-1] = s[len(s)-1], s[0]; s[0]++ })
	}
	a.muts = append(a.muts, func() {
		for i := range buf {
			buf[i] = -9
		}
	})
	want := ref.CopyInts(v)
	a.same = func() string {
		for i := range buf {
			w := 77
			if i >= 2 && i < 2+len(want) {
				w = want[i-2]
			}
			if buf[i] != w {
				return fmt.Sprintf("[]int element %d of %v (with spare capacity) became %d", i-2, want, buf[i])
			}
		}
		return ""
	}
	return s, a
}

func ownRanges(v []ref.Range) ([]tensor.Range, caller) {
	buf := make([]tensor.Range, len(v)+4)
	g := tensor.Range{From: 5, To: 55}
	for i := range buf {
		buf[i] = g
	}
	s := buf[1 : 1+len(v) : 1+len(v)+2]
	for i := range v {
		s[i] = tensor.Range{From: v[i].From, To: v[i].To}
	}
	var a caller
	for i := range s {
		old := s[i]
		for _, n := range []tensor.Range{{}, {From: 0, To: 1}, {From: 1, To: 2}, {From: old.From, To: old.To + 1}, {From: old.From + 1, To: old.To + 1}, {From: -3, To: 100}} {
			if n != old {
				a.muts = append(a.muts, func() { s[i] = n })
			}
		}
	}
	a.muts = append(a.muts, func() {
		for i := range buf {
			buf[i] = tensor.Range{From: -1, To: -2}
		}
	})
	want := append([]tensor.Range{}, s...)
	a.same = func() string {
		for i := range buf {
			w := g
			if i >= 1 && i < 1+len(want) {
				w = want[i-1]
			}
			if buf[i] != w {
				return fmt.Sprintf("[]Range element %d of %v (with spare capacity) became %v", i-1, want, buf[i])
			}
		}
		return ""
	}
	return s, a
}

// observe takes everything visible of the tensors.
func observe(c *eng.C, ts ...tn) (r []ref.T) {
	for _, t := range ts {
		r = append(r, get(c, "tensor", t))
		if g := t.Gradient(); g != nil {
			r = append(r, get(c, "gradient", g))
		} else {
			r = append(r, ref.Of([]int{1}, -1))
		}
	}
	return
}

// graph uses y in two further ways, mutating in between, and back-propagates.
func graph(c *eng.C, y tn, at func(p int, a caller), a caller, more ...tn) []ref.T {
	at(0, a)
	z, err := y.Mul(mk(c, mixed(y.Shape(), 5), false))
	must(c, "Mul", z, err)
	q := z.Scale(1.5)
	at(1, a)
	if err := tensor.BackPropagate(q); err != nil {
		c.Fail("BackPropagate failed after the caller mutated its slice: %v", err)
	}
	o1 := observe(c, append([]tn{y, z, q}, more...)...)
	at(2, a)
	o2 := observe(c, append([]tn{y, z, q}, more...)...)
	return append(o1, o2...)
}

func c10Slices(w *eng.W) {
	run := func(s scenario) {
		w.Case(func() string { return s.name }, func(c *eng.C) { twin(c, s) })
	}
	w.Section("caller slices: dims, shapes and indexes")
	dims := append(shapes(w.Pick(3, 4), []int{1, 2, 3}, w.Pick(12, 24)), []int{17}, []int{65}, []int{2, 33}, []int{1, 2, 1, 2, 1}, []int{2, 1, 1, 1, 2, 1}, []int{1, 1, 1, 1, 1, 1, 1})
	if !w.Thorough() {
		dims = append(dims, []int{1, 1, 1, 1}, []int{2, 1, 2, 1})
	}
	for _, d := range dims {
		run(scenario{fmt.Sprintf("Full/Zeros/Ones(%v)", d), func(c *eng.C, at func(int, caller)) (o []ref.T) {
			for _, f := range []func(d []int) (tn, error){
				func(d []int) (tn, error) { return tensor.Full(d, 2.5, conf(true)) },
				func(d []int) (tn, error) { return tensor.Zeros(d, conf(true)) },
				func(d []int) (tn, error) { return tensor.Ones(d, conf(true)) },
				initializers.NewFull(nil).Init,
			} {
				s, a := ownInts(d)
				y, err := f(s)
				must(c, "constructor", y, err)
				o = append(o, graph(c, y, at, a)...)
			}
			return
		}})
		run(scenario{fmt.Sprintf("random constructors(%v)", d), func(c *eng.C, at func(int, caller)) (o []ref.T) {
			hu, _ := initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: 3})
			xn, _ := initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: 3, FanOut: 2})
			un, _ := initializers.NewUniform(nil)
			no, _ := initializers.NewNormal(nil)
			hn, _ := initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: 3})
			xu, _ := initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: 3, FanOut: 2})
			for _, f := range []func(d []int) (tn, error){
				func(d []int) (tn, error) { return tensor.RandU(d, -1, 1, conf(true)) },
				func(d []int) (tn, error) { return tensor.RandN(d, 0, 1, conf(true)) },
				hu.Init, hn.Init, xu.Init, xn.Init, un.Init, no.Init,
			} {
				s, a := ownInts(d)
				y, err := f(s)
				must(c, "constructor", y, err)
				v := get(c, "random tensor", y)
				at(0, a)
				at(1, a)
				z := y.Scale(2)
				bp(c, "random graph", z)
				g := y.Gradient()
				if g == nil {
					c.Fail("random tensor has no gradient")
				}
				checkBits(c, "random tensor", y, v)
				at(2, a)
				checkBits(c, "random tensor", y, v)
				o = append(o, get(c, "gradient", g), ref.New(y.Shape()))
			}
			return
		}})
		// shape modifiers taking slices
		n := ref.Prod(d)
		targets := factorisations(n, 3)
		if n <= 12 {
			targets = append(factorisations(n, w.Pick(5, 6)), ref.CopyInts(d))
		}
		if len(d) <= 1 {
			for _, t := range dims {
				if ref.Prod(t) == n && len(t) > 5 {
					targets = append(targets, t)
				}
			}
		}
		for _, t := range targets {
			run(scenario{fmt.Sprintf("%v.Reshape(%v)", d, t), func(c *eng.C, at func(int, caller)) []ref.T {
				x := mk(c, mixed(d, 0), true)
				s, a := ownInts(t)
				y, err := x.Reshape(s)
				must(c, "Reshape", y, err)
				return graph(c, y, at, a, x)
			}})
		}
		if n <= 6 || len(d) == 1 {
			for _, t := range append(shapes(len(d)+2, []int{1, 2, 3}, 18), []int{n}, []int{33, n}, []int{2, 17, n}, []int{3, 1, 1, n}, []int{1, 1, 2, 1, n}, []int{1, 1, 1, 1, 1, n}) {
				if len(t) >= 1 && ref.BroadcastOK(d, t) && ref.Prod(t) < 700 {
					run(scenario{fmt.Sprintf("%v.Broadcast(%v)", d, t), func(c *eng.C, at func(int, caller)) []ref.T {
						x := mk(c, mixed(d, 0), true)
						s, a := ownInts(t)
						y, err := x.Broadcast(s)
						must(c, "Broadcast", y, err)
						return graph(c, y, at, a, x)
					}})
				}
			}
		}
		run(scenario{fmt.Sprintf("%v.At", d), func(c *eng.C, at func(int, caller)) (o []ref.T) {
			x := mk(c, mixed(d, 0), true)
			z := make([]int, len(d))
			for i := range z {
				z[i] = d[i] - 1
			}
			s, a := ownInts(z)
			v, err := x.At(s...)
			must2(c, "At", err)
			return append(graph(c, x, at, a), ref.Of([]int{1}, v))
		}})
		// slices handed out
		run(scenario{fmt.Sprintf("Shape() of %v", d), func(c *eng.C, at func(int, caller)) []ref.T {
			x := mk(c, mixed(d, 0), true)
			y := x.Scale(2)
			q, err := x.Add(y)
			must(c, "Add", q, err)
			sx, sy, sq := x.Shape(), y.Shape(), q.Shape()
			var a caller
			for _, s := range [][]int{sx, sy, sq} {
				for i := range s {
					a.muts = append(a.muts, func() { s[i]++ }, func() { s[i] = 0 }, func() { s[i] = -1 })
				}
				a.muts = append(a.muts, func() { _ = append(s, 9); full := s[:cap(s)]; clear(full) })
			}
			r := graph(c, q, at, a, x, y)
			for _, t := range []tn{x, y, q} {
				if !ref.SameShape(t.Shape(), d) || t.NElems() != n {
					c.Fail("mutating what Shape() returned changed the tensor to %v", t.Shape())
				}
			}
			return r
		}})
		if len(d) > 0 && (len(d) <= 3 || n <= 4) {
			w.Section("caller slices: ranges")
			allRanges(d, func(rs []ref.Range) {
				if len(rs) == 0 || n > 9 && !w.Thorough() {
					return
				}
				run(scenario{fmt.Sprintf("%v.Slice(%v)", d, rs), func(c *eng.C, at func(int, caller)) []ref.T {
					x := mk(c, mixed(d, 0), true)
					s, a := ownRanges(rs)
					y, err := x.Slice(s)
					must(c, "Slice", y, err)
					return graph(c, y, at, a, x)
				}})
			})
			if n <= w.Pick(6, 9) {
				allPatches(d, func(rs []ref.Range, p []int) {
					if len(rs) == 0 {
						return
					}
					run(scenario{fmt.Sprintf("%v.Patch(%v, %v)", d, rs, p), func(c *eng.C, at func(int, caller)) []ref.T {
						x, u := mk(c, mixed(d, 0), true), mk(c, mixed(p, 3), true)
						s, a := ownRanges(rs)
						y, err := x.Patch(s, u)
						must(c, "Patch", y, err)
						return graph(c, y, at, a, x, u)
					}})
				})
			}
			w.Section("caller slices: dims, shapes and indexes")
		}
	}
	w.Section("caller slices: nested data")
	for _, d := range append(shapes(4, []int{1, 2, 3}, w.Pick(8, 18)), []int{33}, []int{100}, []int{300}, []int{2, 65}, []int{40, 2}) {
		run(scenario{fmt.Sprintf("TensorOf data of shape %v", d), func(c *eng.C, at func(int, caller)) []ref.T {
			v := mixed(d, 0)
			var a caller
			var y tn
			var err error
			setRow := func(r []float64) {
				for i := range r {
					a.muts = append(a.muts, func() { r[i] = 99 }, func() { r[i] = math.NaN() })
				}
			}
			setMat := func(m [][]float64) {
				for i := range m {
					setRow(m[i])
					a.muts = append(a.muts, func() { m[i] = nil }, func() { m[i] = []float64{7, 7, 7, 7} })
				}
				if len(m) > 1 {
					a.muts = append(a.muts, func() { m[0], m[1] = m[1], m[0] })
				}
			}
			setCube := func(q [][][]float64) {
				for i := range q {
					setMat(q[i])
					a.muts = append(a.muts, func() { q[i] = nil }, func() { q[i][0] = nil })
				}
			}
			want := v
			var back func() ref.T
			switch len(d) {
			case 0:
				y, err = tensor.TensorOf(v.V[0], conf(true))
				a.muts = append(a.muts, func() {})
			case 1:
				r := append(make([]float64, 0, d[0]+3), v.V...)
				setRow(r)
				y, err = tensor.TensorOf(r, conf(true))
				back = func() ref.T { return ref.T{S: []int{len(r)}, V: r} }
			case 2:
				m := nest2(d, v.V)
				setMat(m)
				y, err = tensor.TensorOf(m, conf(true))
				back = func() ref.T { return flat2(m) }
			case 3:
				q := nest3(d, v.V)
				setCube(q)
				y, err = tensor.TensorOf(q, conf(true))
				back = func() ref.T { return flat3(q) }
			case 4:
				h := make([][][][]float64, d[0])
				k := ref.Prod(d[1:])
				for i := range h {
					h[i] = nest3(d[1:], v.V[i*k:(i+1)*k])
				}
				for i := range h {
					setCube(h[i])
					a.muts = append(a.muts, func() { h[i] = nil }, func() { h[i][0] = nil })
				}
				y, err = tensor.TensorOf(h, conf(true))
				back = func() ref.T {
					o := ref.T{S: d}
					for i := range h {
						o.V = append(o.V, flat3(h[i]).V...)
					}
					return o
				}
			}
			must(c, "TensorOf", y, err)
			if back != nil {
				a.same = func() string {
					g := back()
					for i := range want.V {
						if g.V[i] != want.V[i] {
							return fmt.Sprintf("data element %d became %v", i, g.V[i])
						}
					}
					return ""
				}
			}
			return graph(c, y, at, a)
		}})
	}
	w.Section("caller slices: tensor lists")
	for _, s := range [][]int{{2}, {2, 2}, {1, 3}, {2, 1, 2}} {
		for _, in := range instConcat(s, []int{1, 2}, 3) {
			dim := 0
			fmt.Sscanf(in.O.Name, "Concat(%d)", &dim)
			run(scenario{in.String(), func(c *eng.C, at func(int, caller)) []ref.T {
				ts := make([]tn, len(in.In), len(in.In)+2)
				var all []tn
				for i := range ts {
					ts[i] = mk(c, mixed(in.In[i], i), i != 1)
					all = append(all, ts[i])
				}
				full := ts[:cap(ts)]
				var a caller
				for i := range ts {
					a.muts = append(a.muts, func() { ts[i] = nil }, func() { ts[i] = mk(c, mixed([]int{5, 5}, 1), true) }, func() { ts[i] = mk(c, mixed(in.In[i], 9), true) })
				}
				a.muts = append(a.muts, func() { ts[0], ts[1] = ts[1], ts[0] }, func() { clear(full) })
				a.same = func() string {
					for i := range full {
						if i < len(all) && full[i] != all[i] || i >= len(all) && full[i] != nil {
							return fmt.Sprintf("tensor list element %d", i)
						}
					}
					return ""
				}
				y, err := tensor.Concat(ts, dim)
				must(c, "Concat", y, err)
				return graph(c, y, at, a, all...)
			}})
		}
	}
	w.Section("caller slices: components")
	for o := 1; o <= 3; o++ {
		run(scenario{fmt.Sprintf("FC(%d outputs): the slice from Weights(), the argument list, the config", o), func(c *eng.C, at func(int, caller)) []ref.T {
			var kept [][]int
			in := initFunc(func(s []int) (tn, error) { kept = append(kept, s); return tensor.Full(s, 1.5, conf(true)) })
			cf := &layers.FCConfig{Inputs: 2, Outputs: o, Initializers: map[string]layers.Initializer{"Weight": in, "Bias": in}}
			fc, err := layers.NewFC(cf)
			must2(c, "NewFC", err)
			ws := fc.Weights()
			xs := []tn{mk(c, mixed([]int{2, 2}, 0), true)}
			x := xs[0]
			y, err := fc.Forward(xs...)
			must(c, "Forward", y, err)
			var a caller
			a.muts = append(a.muts, func() { ws[0] = layers.Weight{} }, func() { ws[1].Value = nil }, func() { ws[0], ws[1] = ws[1], ws[0] }, func() { xs[0] = nil }, func() { xs[0] = mk(c, mixed([]int{3, 2}, 0), true) },
				func() { cf.Outputs = 9 }, func() { cf.Inputs = -1 }, func() { cf.Initializers["Weight"] = nil })
			for _, k := range kept {
				a.muts = append(a.muts, func() { k[0] = 9 })
			}
			r := graph(c, y, at, a, x, fc.Weight, fc.Bias)
			y2, err := fc.Forward(x)
			must(c, "Forward", y2, err)
			return append(r, get(c, "second Forward", y2))
		}})
	}
	run(scenario{"configs of the other components", func(c *eng.C, at func(int, caller)) (o []ref.T) {
		lc, sc, oc := &activations.LeakyReluConfig{M: 0.5}, &activations.SoftmaxConfig{Dim: 1}, &optimizers.SGDConfig{LearningRate: 0.25}
		fc, tc := &initializers.FullConfig{Value: 3}, conf(true)
		l, o1, in := activations.NewLeakyRelu(lc), optimizers.NewSGD(oc), initializers.NewFull(fc)
		s, err := activations.NewSoftmax(sc)
		must2(c, "NewSoftmax", err)
		x, err := tensor.TensorOf([][]float64{{-1, 2}, {3, -4}}, tc)
		must(c, "TensorOf", x, err)
		a := caller{muts: []func(){func() { lc.M = 9 }, func() { sc.Dim = 0 }, func() { oc.LearningRate = 9 }, func() { fc.Value = 9 }, func() { *tc = tensor.Config{} }}}
		y, err := l.Forward(x)
		must(c, "LeakyRelu", y, err)
		z, err := s.Forward(y)
		must(c, "Softmax", z, err)
		r := graph(c, z, at, a, x)
		w := x
		must2(c, "Update", o1.Update(&w))
		q, err := in.Init([]int{2})
		must(c, "Init", q, err)
		y2, err := l.Forward(mk(c, mixed([]int{2, 2}, 1), false))
		must(c, "LeakyRelu", y2, err)
		z2, err := s.Forward(y2)
		must(c, "Softmax", z2, err)
		return append(r, get(c, "w", w), get(c, "q", q), get(c, "y2", y2), get(c, "z2", z2))
	}})
}

func flat2(m [][]float64) (o ref.T) {
	o.S = []int{len(m), len(m[0])}
	for _, r := range m {
		o.V = append(o.V, r...)
	}
	return
}

func flat3(q [][][]float64) (o ref.T) {
	o.S = []int{len(q), len(q[0]), len(q[0][0])}
	for _, m := range q {
		o.V = append(o.V, flat2(m).V...)
	}
	return
}

/* ---------- immutability of tensors ---------- */

// album remembers every tensor seen, its elements and its gradient.
type album struct {
	ts []tn
	v  []ref.T
	g  []tn
	nm []string
}

func (a *album) add(c *eng.C, name string, t tn) {
	for _, x := range a.ts {
		if x == t {
			return
		}
	}
	a.ts = append(a.ts, t)
	a.v = append(a.v, get(c, name, t))
	a.g = append(a.g, t.Gradient())
	a.nm = append(a.nm, name)
}

// check: no element or shape changed; grads: gradients may be new (after BackPropagate), and are added to the album.
func (a *album) check(c *eng.C, what string, grads bool) {
	n := len(a.ts)
	for i := 0; i < n; i++ {
		v := get(c, a.nm[i], a.ts[i])
		if !ref.SameShape(v.S, a.v[i].S) {
			c.Fail("%s changed the shape of %s from %v to %v", what, a.nm[i], a.v[i].S, v.S)
		}
		for k := range v.V {
			if !bitsEq(v.V[k], a.v[i].V[k]) {
				c.Fail("%s changed %s from %v to %v", what, a.nm[i], trim(a.v[i].V), trim(v.V))
			}
		}
		c.AddValues(len(v.V))
		g := a.ts[i].Gradient()
		if g != a.g[i] {
			if !grads {
				c.Fail("%s assigned or removed the gradient of %s", what, a.nm[i])
			}
			a.g[i] = g
		}
		if g != nil {
			a.add(c, "gradient of "+a.nm[i], g)
		}
	}
}

func c10Ops(w *eng.W) {
	type item struct {
		name string
		vals []ref.T
		lib  func(ts []tn) (tn, error)
	}
	var items []item
	for _, s := range [][]int{{2, 2}, {3}, {1, 2, 3}, {}, {1}, {2, 3}} {
		for _, in := range allInst(s) {
			items = append(items, item{in.String(), instVals(in), in.O.Lib})
		}
		for _, n := range cmpNames {
			items = append(items, item{n + " " + ints(s), []ref.T{tame(s, 0), tame(s, 1)}, func(ts []tn) (tn, error) { return libBin(n, ts[0], ts[1]) }})
		}
		items = append(items, item{"Broadcast to the same shape " + ints(s), []ref.T{tame(s, 0)}, func(ts []tn) (tn, error) { return ts[0].Broadcast(ref.CopyInts(s)) }},
			item{"Reshape to the same shape " + ints(s), []ref.T{tame(s, 0)}, func(ts []tn) (tn, error) { return ts[0].Reshape(ref.CopyInts(s)) }},
			item{"Scale(1) " + ints(s), []ref.T{tame(s, 0)}, func(ts []tn) (tn, error) { return ts[0].Scale(1), nil }},
			item{"Scale(0) " + ints(s), []ref.T{tame(s, 0)}, func(ts []tn) (tn, error) { return ts[0].Scale(0), nil }},
			item{"Pow(1) " + ints(s), []ref.T{tame(s, 0)}, func(ts []tn) (tn, error) { return ts[0].Pow(1), nil }},
			item{"Add zeros " + ints(s), []ref.T{tame(s, 0), ref.New(s)}, func(ts []tn) (tn, error) { return ts[0].Add(ts[1]) }},
			item{"Mul ones " + ints(s), []ref.T{tame(s, 0), ref.Full(s, 1)}, func(ts []tn) (tn, error) { return ts[0].Mul(ts[1]) }},
			item{"queries " + ints(s), []ref.T{tame(s, 0), tame(s, 0)}, func(ts []tn) (tn, error) {
				for _, n := range ref.StatNames {
					libStat(n, ts[0])
				}
				ts[0].NElems()
				ts[0].Shape()
				ts[0].Gradient()
				ts[0].GradContext()
				ts[0].Equals(ts[1])
				ts[0].Equals(nil)
				ts[0].At(9, 9, 9)
				ts[0].Slice([]tensor.Range{{From: 3, To: 1}})
				ts[0].Patch([]tensor.Range{{From: 0, To: 9}}, ts[1])
				ts[0].Reshape([]int{97})
				ts[0].Broadcast([]int{97, 89})
				ts[0].SumAlong(-1)
				ts[0].MatMul(nil)
				ts[0].Add(nil)
				tensor.Concat(ts[:1], 0)
				tensor.Concat(ts, 99)
				return ts[0].Scale(1), nil
			}})
		if len(s) > 0 {
			full := make([]ref.Range, len(s))
			for i := range full {
				full[i] = ref.Range{From: 0, To: s[i]}
			}
			items = append(items, item{"Slice of everything " + ints(s), []ref.T{tame(s, 0)}, func(ts []tn) (tn, error) { return ts[0].Slice(ranges(full)) }},
				item{"Patch of everything " + ints(s), []ref.T{tame(s, 0), tame(s, 1)}, func(ts []tn) (tn, error) { return ts[0].Patch(ranges(full), ts[1]) }},
				item{"Flatten " + ints(s), []ref.T{tame(s, 0)}, func(ts []tn) (tn, error) { return ts[0].Flatten(len(s) - 1) }})
		}
	}
	for _, p := range [][2][]int{{{2, 3}, {3}}, {{3}, {2, 3}}, {{}, {2}}, {{2, 1}, {1, 3}}, {{2, 2}, {}}} {
		for _, n := range []string{"Add", "Sub", "Mul", "Div"} {
			items = append(items, item{fmt.Sprintf("%s %v %v", n, p[0], p[1]), []ref.T{tame(p[0], 0), positive(tame(p[1], 1))}, func(ts []tn) (tn, error) { return libBin(n, ts[0], ts[1]) }})
		}
	}
	items = append(items,
		item{"MatMul [2,2,2] [2,2]", []ref.T{tame([]int{2, 2, 2}, 0), tame([]int{2, 2}, 1)}, func(ts []tn) (tn, error) { return ts[0].MatMul(ts[1]) }},
		item{"MatMul [2,2] [2,2,2]", []ref.T{tame([]int{2, 2}, 0), tame([]int{2, 2, 2}, 1)}, func(ts []tn) (tn, error) { return ts[0].MatMul(ts[1]) }},
		item{"Broadcast [3] -> [2,3]", []ref.T{tame([]int{3}, 0)}, func(ts []tn) (tn, error) { return ts[0].Broadcast([]int{2, 3}) }})
	for _, s := range [][]int{{3}, {2, 3}} {
		sm, _ := activations.NewSoftmax(&activations.SoftmaxConfig{Dim: len(s) - 1})
		items = append(items,
			item{"Relu " + ints(s), []ref.T{mixed(s, 0)}, func(ts []tn) (tn, error) { return activations.NewRelu().Forward(ts[0]) }},
			item{"LeakyRelu " + ints(s), []ref.T{mixed(s, 0)}, func(ts []tn) (tn, error) { return activations.NewLeakyRelu(nil).Forward(ts[0]) }},
			item{"Sigmoid " + ints(s), []ref.T{mixed(s, 0)}, func(ts []tn) (tn, error) { return activations.NewSigmoid().Forward(ts[0]) }},
			item{"Tanh " + ints(s), []ref.T{mixed(s, 0)}, func(ts []tn) (tn, error) { return activations.NewTanh().Forward(ts[0]) }},
			item{"Softmax " + ints(s), []ref.T{mixed(s, 0)}, func(ts []tn) (tn, error) { return sm.Forward(ts[0]) }},
			item{"Softmax of one class", []ref.T{mixed([]int{3, 1}, 0)}, func(ts []tn) (tn, error) {
				s1, _ := activations.NewSoftmax(&activations.SoftmaxConfig{Dim: 1})
				return s1.Forward(ts[0])
			}})
	}
	prob := func(s []int, k int) ref.T { return generic(s, k, 0.15, 0.85) }
	items = append(items,
		item{"FC", []ref.T{tame([]int{2, 3}, 0), tame([]int{2}, 1), tame([]int{2}, 2)}, func(ts []tn) (tn, error) {
			fc := &layers.FC{Weight: ts[1], Bias: ts[2]}
			y, err := fc.Forward(ts[0])
			if fc.Weight != ts[1] || fc.Bias != ts[2] {
				return nil, fmt.Errorf("Forward replaced the parameters")
			}
			return y, err
		}},
		item{"Input", []ref.T{tame([]int{2, 3}, 0)}, func(ts []tn) (tn, error) {
			in := layers.NewInput()
			in.SeedFunc = func() tn { return ts[0] }
			y, err := in.Forward()
			if err != nil {
				return nil, err
			}
			return y.Scale(1), nil
		}},
		item{"MSE", []ref.T{prob([]int{3}, 0), prob([]int{3}, 1)}, func(ts []tn) (tn, error) { return losses.NewMSE().Compute(ts[0], ts[1]) }},
		item{"BCE", []ref.T{mixed([]int{3}, 0), mixed([]int{3}, 1)}, func(ts []tn) (tn, error) { return losses.NewBCE().Compute(ts[0], ts[1]) }},
		item{"CE", []ref.T{mixed([]int{2, 3}, 0), mixed([]int{2, 3}, 1)}, func(ts []tn) (tn, error) { return losses.NewCE().Compute(ts[0], ts[1]) }},
		item{"Accuracy", []ref.T{prob([]int{3}, 0), prob([]int{3}, 1)}, func(ts []tn) (tn, error) {
			a := metrics.NewAccuracy()
			if err := a.Accumulate(ts[0], ts[1]); err != nil {
				return nil, err
			}
			return ts[0].Eq(ts[1])
		}})
	w.Section("every call leaves existing tensors alone")
	for _, it := range items {
		w.Case(func() string { return it.name }, func(c *eng.C) {
			for mask := 0; mask < 1<<len(it.vals); mask++ {
				for variant := 0; variant < 3; variant++ {
					c.Beat()
					c10Case(c, it.name, it.vals, mask, variant, it.lib)
				}
			}
		})
	}
}

// c10Case: operands (leaves or results, tracked by mask), the call, back-propagation, a second graph, updates, resets.
func c10Case(c *eng.C, name string, vals []ref.T, mask, variant int, lib func(ts []tn) (tn, error)) {
	al := &album{}
	ts := make([]tn, len(vals))
	leaves := make([]tn, len(vals))
	tracked := func(i int) bool { return mask>>i&1 == 1 }
	for i := range vals {
		leaves[i] = mk(c, vals[i], tracked(i))
		ts[i] = leaves[i]
		al.add(c, fmt.Sprintf("leaf %d", i), leaves[i])
		if variant == 1 {
			ts[i] = leaves[i].Scale(1)
			al.add(c, fmt.Sprintf("operand %d", i), ts[i])
		}
	}
	any := mask != 0
	c.Op("%s, tracked mask %b, variant %d", name, mask, variant)
	y, err := lib(ts)
	must(c, name, y, err)
	al.check(c, name, false)
	al.add(c, "result", y)
	for i := range ts {
		if y == ts[i] {
			c.Fail("%s returned its operand %d instead of a new tensor", name, i)
		}
	}
	// the call must not have changed the operands' tracking; probe with fresh graphs when the operands are leaves
	if variant == 2 {
		y.ResetGradContext(!any) // resetting the result must not reset an operand
		al.check(c, "ResetGradContext on the result of "+name, false)
		for i := range ts {
			z := ts[i].Scale(2)
			bp(c, "probe", z)
			if (ts[i].Gradient() != nil) != tracked(i) {
				c.Fail("%s (or resetting its result) changed the tracking of operand %d: tracked=%v, was %v", name, i, ts[i].Gradient() != nil, tracked(i))
			}
		}
		al.check(c, "probing", true)
		z := y.Scale(2)
		bp(c, "reset result", z)
		if (y.Gradient() != nil) == any {
			c.Fail("%s: result reset to tracked=%v, but has gradient: %v", name, !any, y.Gradient() != nil)
		}
		c.Validated()
		return
	}
	w := mk(c, mixed(y.Shape(), 3), false)
	z, err := y.Mul(w)
	must(c, "Mul", z, err)
	al.add(c, "weights", w)
	al.add(c, "weighted result", z)
	bp(c, "weighted result", z)
	al.check(c, "BackPropagate through "+name, true)
	// a second back-propagation over shared leaves
	if any && variant == 0 {
		i := 0
		for !tracked(i) {
			i++
		}
		// leaves are spent now; optimizer step on every tracked leaf
		for k := range leaves {
			if tracked(k) && leaves[k].Gradient() != nil {
				p := leaves[k]
				if err := optimizers.NewSGD(nil).Update(&p); err != nil {
					c.Fail("Update failed: %v", err)
				}
				if p == leaves[k] {
					c.Fail("Update did not replace the tensor")
				}
				al.check(c, "SGD.Update", false)
				al.add(c, "updated", p)
				p.ResetGradContext(true)
				al.check(c, "ResetGradContext on the updated tensor", false)
				q := p.Scale(3)
				bp(c, "graph of the updated tensor", q)
				al.check(c, "BackPropagate over the updated tensor", true)
			}
		}
	}
	bp(c, "weighted result again", z)
	al.check(c, "second BackPropagate through "+name, true)
	for i := range leaves {
		leaves[i].ResetGradContext(tracked(i))
		if leaves[i].Gradient() != nil {
			c.Fail("gradient after ResetGradContext")
		}
	}
	al.check(c, "ResetGradContext on the leaves", true)
	y2, err := lib(leaves)
	must(c, name, y2, err)
	checkBits(c, name+" applied again", y2, al.v[indexOf(al.ts, y)])
	bp(c, "second result", y2)
	al.check(c, "BackPropagate of a second result", true)
	c.Validated()
}

func indexOf(ts []tn, t tn) int {
	for i := range ts {
		if ts[i] == t {
			return i
		}
	}
	return -1
}

/* ---------- histories ---------- */

type c10Act struct {
	name string
	in   []int
	f    func(c *eng.C, p *album, ts []tn) tn
}

// c10Histories runs every sequence of actions on a pool of [2,2] tensors and checks after every action that no tensor
// of the pool, and no gradient ever seen, changed.
func c10Histories(w *eng.W, depth int, reduced bool) {
	s := []int{2, 2}
	un := map[string]func(x tn) (tn, error){
		"Transpose": func(x tn) (tn, error) { return x.Transpose() }, "Reshape": func(x tn) (tn, error) { return x.Reshape([]int{2, 2}) }, "Slice": func(x tn) (tn, error) { return x.Slice(nil) },
		"Broadcast": func(x tn) (tn, error) { return x.Broadcast([]int{2, 2}) }, "Scale": func(x tn) (tn, error) { return x.Scale(-1.5), nil },
	}
	unN := []string{"Transpose", "Reshape", "Slice", "Broadcast", "Scale"}
	bi := map[string]func(x, y tn) (tn, error){
		"Add": func(x, y tn) (tn, error) { return x.Add(y) }, "Patch": func(x, y tn) (tn, error) { return x.Patch(nil, y) }, "MatMul": func(x, y tn) (tn, error) { return x.MatMul(y) },
		"Concat+Slice": func(x, y tn) (tn, error) {
			z, err := tensor.Concat([]tn{x, y}, 0)
			if err != nil {
				return nil, err
			}
			return z.Slice([]tensor.Range{{From: 1, To: 3}})
		},
	}
	biN := []string{"Add", "Patch", "MatMul", "Concat+Slice"}
	if reduced {
		unN, biN = []string{"Slice", "Scale"}, []string{"Add", "MatMul"}
		if depth > 4 {
			unN, biN = unN[:1], biN[:1]
		}
	}
	actions := func(n int) (r []c10Act) {
		for i := 0; i < n; i++ {
			for _, o := range unN {
				r = append(r, c10Act{o, []int{i}, func(c *eng.C, p *album, ts []tn) tn { y, err := un[o](ts[0]); must(c, o, y, err); return y }})
			}
			r = append(r, c10Act{"BackPropagate", []int{i}, func(c *eng.C, p *album, ts []tn) tn { bp(c, "t", ts[0]); return nil }},
				c10Act{"Reset(true)", []int{i}, func(c *eng.C, p *album, ts []tn) tn { ts[0].ResetGradContext(true); return nil }},
				c10Act{"Reset(false)", []int{i}, func(c *eng.C, p *album, ts []tn) tn { ts[0].ResetGradContext(false); return nil }},
				c10Act{"SGD", []int{i}, func(c *eng.C, p *album, ts []tn) tn {
					q := ts[0]
					if err := optimizers.NewSGD(nil).Update(&q); err != nil {
						if q != ts[0] {
							c.Fail("failed Update replaced the tensor")
						}
						return nil
					}
					return q
				}})
			for j := 0; j < n; j++ {
				for _, o := range biN {
					r = append(r, c10Act{o, []int{i, j}, func(c *eng.C, p *album, ts []tn) tn { y, err := bi[o](ts[0], ts[1]); must(c, o, y, err); return y }})
				}
			}
		}
		return
	}
	exec := func(c *eng.C, h []c10Act) (pool []tn) {
		al := &album{}
		pool = []tn{mk(c, mixed(s, 0), true), mk(c, mixed(s, 1), false)}
		for i, t := range pool {
			al.add(c, fmt.Sprintf("t%d", i), t)
		}
		for _, a := range h {
			var ts []tn
			for _, i := range a.in {
				ts = append(ts, pool[i])
			}
			c.Op("%s%v", a.name, a.in)
			var g0 []tn
			for _, t := range pool {
				g0 = append(g0, t.Gradient())
			}
			y := a.f(c, al, ts)
			al.check(c, fmt.Sprintf("%s%v", a.name, a.in), a.name == "BackPropagate" || a.name[:2] == "Re")
			if a.name[:3] == "Res" && a.name[3] == 'e' { // Reset touches one tensor only
				for i, t := range pool {
					if i != a.in[0] && t.Gradient() != g0[i] {
						c.Fail("%s%v changed the gradient of t%d", a.name, a.in, i)
					}
				}
			}
			if y != nil {
				for i, t := range al.ts {
					if t == y {
						c.Fail("%s%v returned an existing tensor (%s)", a.name, a.in, al.nm[i])
					}
				}
				al.add(c, fmt.Sprintf("t%d", len(pool)), y)
				pool = append(pool, y)
			}
		}
		c.Validated()
		return
	}
	grows := func(a c10Act) bool {
		return a.name != "BackPropagate" && a.name[:3] != "Res" && a.name != "SGD" || a.name == "Reshape"
	}
	// enumeration needs the pool size; SGD may or may not add: only refer to tensors certain to exist
	var rec func(h []c10Act, n, d int, f func(h []c10Act))
	rec = func(h []c10Act, n, d int, f func(h []c10Act)) {
		if d == 0 {
			f(h)
			return
		}
		for _, a := range actions(n) {
			if w.Stopped() {
				return
			}
			m := n
			if grows(a) {
				m++
			}
			rec(append(h, a), m, d-1, f)
		}
	}
	w.Section(fmt.Sprintf("histories of depth %d, reduced=%v", depth, reduced))
	rec(nil, 2, 1, func(pre []c10Act) {
		pre = append([]c10Act{}, pre...)
		n := 2
		if grows(pre[0]) {
			n++
		}
		for _, b := range actions(n) {
			m := n
			if grows(b) {
				m++
			}
			h := append(append([]c10Act{}, pre...), b)
			w.Case(func() string {
				return fmt.Sprintf("%s%v; %s%v; + every %d actions", h[0].name, h[0].in, h[1].name, h[1].in, depth-2)
			}, func(c *eng.C) {
				rec(h, m, depth-2, func(q []c10Act) {
					c.Beat()
					exec(c, q)
				})
			})
		}
	})
}

/* ---------- histories of element-moving calls on tensors of changing shapes ---------- */

type moveAct struct {
	name string
	in   []int
	o    *Op
}

// moves are the calls that move or regroup elements, on a pool of the given shapes. Results above maxN elements are left out.
func moves(pool []ref.T, maxN int) (r []moveAct) {
	add := func(o *Op, in ...int) { r = append(r, moveAct{fmt.Sprintf("%s%v", o.Name, in), in, o}) }
	for i, x := range pool {
		s := x.S
		n := ref.Prod(s)
		if len(s) < 3 {
			add(opUnSqueeze(0), i)
			add(opUnSqueeze(len(s)), i)
		}
		if 2*n <= maxN && len(s) < 3 {
			add(opBroadcast(append([]int{2}, s...)), i)
		}
		if len(s) > 0 {
			if s[0] > 1 {
				add(opSlice([]ref.Range{{From: 1, To: s[0]}}), i)
				add(opSlice([]ref.Range{{From: 0, To: s[0] - 1}}), i)
				add(opAlong("Sum", 0), i)
			} else {
				add(opSqueeze(0), i)
			}
			add(opFlatten(0), i)
		}
		if len(s) > 1 {
			add(opTranspose(), i)
		}
		for j, y := range pool {
			for d := range s {
				if d < 2 && n+ref.Prod(y.S) <= maxN && ref.ConcatOK([][]int{s, y.S}, d) {
					add(opConcat(d, 2), i, j)
				}
			}
			if len(s) > 0 && ref.PatchOK(s, y.S, nil) {
				add(opPatch(nil), i, j)
				if y.S[0] < s[0] {
					add(opPatch([]ref.Range{{From: s[0] - y.S[0], To: s[0]}}), i, j)
				}
			}
		}
	}
	return
}

var moveStarts = [][]ref.T{
	{ref.Of([]int{3}, 1, 2, 3), ref.Of([]int{2}, 4, 5)},
	{ref.Of([]int{2, 3}, 1, 2, 3, 4, 5, 6), ref.Of([]int{2, 1}, 7, 8)},
	{ref.Of([]int{1, 2, 1}, 1, 2), ref.Of([]int{}, 5)},
	{ref.Of([]int{3}, 1, 2, 3), ref.Of([]int{1}, 4), ref.Of([]int{1}, 5)}, // growth of the first by one leaves room for another
	{ref.Of([]int{1, 3}, 1, 2, 3), ref.Of([]int{1, 1}, 4), ref.Of([]int{1, 1}, 5)},
}

func c10Moves(w *eng.W, start []ref.T, depth, maxN int) {
	// refs of a history
	step := func(pool []ref.T, a moveAct) ref.T {
		in := make([]ref.T, len(a.in))
		for i, k := range a.in {
			in[i] = pool[k]
		}
		o, ok := a.o.Ref(in)
		if !ok {
			panic("moves: " + a.name)
		}
		return o.T
	}
	exec := func(c *eng.C, h []moveAct, want []ref.T) {
		al := &album{}
		var pool []tn
		for i, v := range start {
			t := mk(c, v, i == 0)
			pool = append(pool, t)
			al.add(c, fmt.Sprintf("t%d", i), t)
		}
		for k, a := range h {
			ts := make([]tn, len(a.in))
			for i, j := range a.in {
				ts[i] = pool[j]
			}
			c.Op("t%d = %s", len(pool), a.name)
			y, err := a.o.Lib(ts)
			must(c, a.name, y, err)
			al.check(c, a.name, false)
			checkT(c, a.name, y, want[len(start)+k], nil)
			al.add(c, fmt.Sprintf("t%d", len(pool)), y)
			if len(al.ts) != len(pool)+1 {
				c.Fail("%s returned an existing tensor", a.name)
			}
			pool = append(pool, y)
		}
		bp(c, "the last tensor", pool[len(pool)-1])
		al.check(c, "BackPropagate", true)
		c.Validated()
	}
	w.Section(fmt.Sprintf("histories of %d element-moving calls", depth))
	var rec func(h []moveAct, pool []ref.T, d int, f func(h []moveAct, pool []ref.T))
	rec = func(h []moveAct, pool []ref.T, d int, f func(h []moveAct, pool []ref.T)) {
		if d == 0 {
			f(h, pool)
			return
		}
		for _, a := range moves(pool, maxN) {
			if w.Stopped() {
				return
			}
			rec(append(h[:len(h):len(h)], a), append(pool[:len(pool):len(pool)], step(pool, a)), d-1, f)
		}
	}
	rec(nil, start, min(2, depth-1), func(h []moveAct, pool []ref.T) {
		w.Case(func() string {
			r := ""
			for _, a := range h {
				r += a.name + "; "
			}
			return fmt.Sprintf("%v: %s+ every %d calls", start, r, depth-len(h))
		}, func(c *eng.C) {
			rec(h, pool, depth-len(h), func(h []moveAct, pool []ref.T) {
				c.Beat()
				exec(c, h, pool)
			})
		})
	})
}

func runC10(w *eng.W) {
	c10Slices(w)
	c10Ops(w)
	c10Histories(w, w.Pick(3, 4), false)
	c10Histories(w, w.Pick(4, 5), true)
	for _, st := range moveStarts {
		c10Moves(w, st, w.Pick(3, 4), 16)
	}
	gcPrograms(w, true)
}

func init() {
	register(&eng.Check{ID: "C10", Run: runC10,
		Bounds: func(tier string) string {
			b := "every call taking a slice (constructors, initializers, TensorOf at depth 1-4, Reshape, Broadcast, Slice, Patch, At, Concat, FC) on shapes of rank <=3..4 over {1,2,3} and some of rank up to 7 and up to 300 elements and every range list on them x 3 mutation points (after the call, after further graph construction, after back-propagation) x every single-element mutation letter, with guard elements around the slice; Shape() results likewise; " +
				"every operation, comparison, query, rejected call, activation, loss, layer and metric x tracking masks x {leaves, results, reset result}: all tensors and all gradients ever seen compared bit by bit after every step; garbage collections with finalizers, followed by new allocations, at every point of every program of 1-2 element-moving calls, with every choice of at most 2 surviving tensors; "
			if tier == "thorough" {
				return b + "every history of 4 actions (and of 5 over a reduced alphabet) over a pool of [2,2] tensors; every history of 4 element-moving calls (concatenation, slice, patch, reshape family, broadcast, sum along) over 5 pools of tensors of changing shapes up to 16 elements, results compared with the reference"
			}
			return b + "every history of 3 actions (and of 4 over a reduced alphabet) over a pool of [2,2] tensors; every history of 3 element-moving calls (concatenation, slice, patch, reshape family, broadcast, sum along) over 5 pools of tensors of changing shapes up to 16 elements, results compared with the reference"
		},
		Assumptions: []string{"the initializer map of FCConfig is not a slice: C18 judges layers built from one map"}})
}
