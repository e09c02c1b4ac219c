package checks

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/optimizers"

	"verifmc/eng"
	"verifmc/ref"
)

// fixed is an initializer returning given elements; it checks the shape it is asked for.
func fixed(c *eng.C, v ref.T, tracked bool) initFunc {
	return func(s []int) (tn, error) {
		if !ref.SameShape(s, v.S) {
			c.Fail("initializer called with shape %v, expected %v", s, v.S)
		}
		return mk(c, v, tracked), nil
	}
}

// params finds the weight and bias pointers among Weights().
func params(c *eng.C, fc *layers.FC) (w, b *tn) {
	for _, p := range fc.Weights() {
		if p.Value == nil {
			c.Fail("Weights() holds a nil pointer")
		}
		switch *p.Value {
		case fc.Weight:
			w = p.Value
		case fc.Bias:
			b = p.Value
		default:
			c.Fail("Weights() holds a tensor that is neither Weight nor Bias")
		}
		if !p.Trainable {
			c.Fail("parameter is not trainable")
		}
	}
	if w == nil || b == nil || len(fc.Weights()) != 2 {
		c.Fail("Weights() does not expose Weight and Bias")
	}
	return
}

func newFC(c *eng.C, d int, w, b ref.T, tw, tb bool) *layers.FC {
	cf := &layers.FCConfig{Inputs: d, Outputs: w.S[0], Initializers: map[string]layers.Initializer{"Weight": fixed(c, w, tw), "Bias": fixed(c, b, tb)}}
	fc, err := layers.NewFC(cf)
	must2(c, "NewFC", err)
	cf.Inputs, cf.Outputs, cf.Initializers["Weight"] = d+1, w.S[0]+1, nil // the configuration stays the caller's
	delete(cf.Initializers, "Bias")
	return fc
}

// fcGrad: one forward pass and one back-propagation with the given origins.
func fcGrad(c *eng.C, xv, wv, bv ref.T, sx, sw, sb source, k sink, mask int, via int) {
	if !sx.ok(xv.S) || !sw.ok(wv.S) || !sb.ok(bv.S) {
		return
	}
	c.Beat()
	what := fmt.Sprintf("FC(x %v from %s, W %v from %s, B %v from %s), tracked %03b, consumer %s, construction %d", xv.S, sx.name, wv, sw.name, bv, sb.name, mask, k.name, via)
	c.Op("%s", what)
	x, lx := sx.mk(c, xv, mask&1 != 0)
	w, lw := sw.mk(c, wv, mask&2 != 0)
	b, lb := sb.mk(c, bv, mask&4 != 0)
	var fc *layers.FC
	switch via {
	case 0: // replaced through the pointers
		fc = newFC(c, xv.S[1], ref.Full(wv.S, 9), ref.Full(bv.S, -9), true, true)
		pw, pb := params(c, fc)
		*pw = w
		*pb = b
		if fc.Weight != w || fc.Bias != b {
			c.Fail("the pointers returned by Weights() do not address the layer's parameters")
		}
	case 1: // from initializers
		var err error
		fc, err = layers.NewFC(&layers.FCConfig{Inputs: xv.S[1], Outputs: wv.S[0], Initializers: map[string]layers.Initializer{
			"Weight": initFunc(func([]int) (tn, error) { return w, nil }), "Bias": initFunc(func([]int) (tn, error) { return b, nil })}})
		must2(c, "NewFC", err)
	default:
		fc = &layers.FC{Weight: w, Bias: b}
	}
	y, err := fc.Forward(x)
	must(c, "Forward", y, err)
	want, mag := ref.FC(xv, wv, bv)
	checkT(c, what, y, want, mag)
	if fc.Weight != w || fc.Bias != b {
		c.Fail("%s: Forward replaced a parameter", what)
	}
	root, g, gm := k.mk(c, y, want)
	bp(c, "FC", root)
	gx, gw, gb, mx, mw, mb := ref.FCBack(xv, wv, g, gm)
	ch := func(n string, bit int, t tn, s []int, ls []leafG, g, m []float64) {
		if mask&bit == 0 {
			g = nil
		}
		checkFlow(c, what+": "+n, t, s, ls, g, g, m)
	}
	ch("input", 1, x, xv.S, lx, gx, mx)
	ch("weight", 2, w, wv.S, lw, gw, mw)
	ch("bias", 4, b, bv.S, lb, gb, mb)
	c.Validated()
}

func runC16(w *eng.W) {
	w.Section("sizes")
	n := w.Pick(5, 7)
	type bdo struct{ b, d, o int }
	var ss []bdo
	for b := 1; b <= n; b++ {
		for d := 1; d <= n; d++ {
			for o := 1; o <= n; o++ {
				ss = append(ss, bdo{b, d, o})
			}
		}
	}
	ss = append(ss, bdo{1, 1, 33}, bdo{33, 1, 1}, bdo{1, 33, 1}, bdo{9, 5, 7}, bdo{2, 17, 3}, bdo{17, 2, 3}, bdo{3, 2, 17}, bdo{8, 8, 8}, bdo{16, 16, 16})
	for _, z := range ss {
		w.Case(func() string { return fmt.Sprintf("batch %d, features %d, outputs %d", z.b, z.d, z.o) }, func(c *eng.C) {
			xs, ws := []int{z.b, z.d}, []int{z.o}
			small := z.b*z.d*z.o <= 64
			for mask := 0; mask < 8; mask++ {
				for via := 0; via < 3; via++ {
					for si, s := range sources {
						if !small && si > 1 {
							continue
						}
						fcGrad(c, mixed(xs, si), mixed(ws, mask), mixed(ws, 5), s, sources[0], sources[0], sinks[si%len(sinks)], mask, via)
						if mask == 7 || small && via == 0 {
							fcGrad(c, mixed(xs, si), mixed(ws, mask), mixed(ws, 5), sources[0], s, sources[0], sinks[(si+1)%len(sinks)], mask, via)
							fcGrad(c, mixed(xs, si), mixed(ws, mask), mixed(ws, 5), sources[0], sources[0], s, sinks[(si+2)%len(sinks)], mask, via)
							fcGrad(c, mixed(xs, si), mixed(ws, mask), mixed(ws, 5), s, sources[(si+3)%len(sources)], sources[(si+5)%len(sources)], sinks[0], mask, via)
						}
					}
				}
			}
			// one-hot inputs, weights, biases and upstream gradients
			if small {
				one := func(s []int, i int, v float64) ref.T {
					t := ref.New(s)
					t.V[i] = v
					return t
				}
				for i := 0; i < z.b*z.d; i++ {
					fcGrad(c, one(xs, i, 2), mixed(ws, 1), mixed(ws, 2), sources[0], sources[0], sources[0], sinks[0], 7, 2)
				}
				for i := 0; i < z.o; i++ {
					fcGrad(c, mixed(xs, 1), one(ws, i, 2), ref.New(ws), sources[0], sources[0], sources[0], sinks[0], 7, 2)
					fcGrad(c, mixed(xs, 1), ref.New(ws), one(ws, i, 2), sources[0], sources[0], sources[0], sinks[0], 7, 2)
				}
				for i := 0; i < z.b*z.o; i++ {
					u := one([]int{z.b, z.o}, i, 1)
					fcGrad(c, mixed(xs, 1), mixed(ws, 3), mixed(ws, 4), sources[0], sources[0], sources[0], weightSink("one-hot", func([]int) ref.T { return u }, false), 7, 2)
				}
			}
			c.Outcome("size")
		})
	}
	w.Section("size ladder")
	for _, n := range ladder(16385) {
		q := int(math.Sqrt(float64(n)))
		k := int(math.Cbrt(float64(n)))
		for _, z := range []bdo{{n, 1, 1}, {1, n, 1}, {1, 1, n}, {n, 2, 1}, {2, n, 1}, {1, n, 2}, {2, 1, n}, {n, 1, 2}, {1, 2, n}, {q, q, 1}, {q, 1, q}, {1, q, q}, {q, n / q, 2}, {k, k, k}} {
			if z.b*z.d*z.o > 33000 {
				continue
			}
			w.Case(func() string { return fmt.Sprintf("ladder: batch %d, features %d, outputs %d", z.b, z.d, z.o) }, func(c *eng.C) {
				xs, ws := []int{z.b, z.d}, []int{z.o}
				fcGrad(c, mixed(xs, n), mixed(ws, n+1), mixed(ws, n+2), sources[0], sources[0], sources[0], sinks[0], 7, n%3)
				fcGrad(c, mixed(xs, n+3), mixed(ws, n+1), mixed(ws, n+2), sources[n%len(sources)], sources[(n+2)%len(sources)], sources[(n+4)%len(sources)], sinks[n%len(sinks)], n%8, n%3)
			})
		}
	}
	w.Section("large operands")
	for k, z := range []bdo{{65537, 1, 1}, {1, 65537, 1}, {1, 1, 65537}, {40001, 2, 1}, {2, 40001, 1}, {1, 2, 40001}, {257, 1, 300}, {300, 257, 1}, {1, 300, 257}, {65, 64, 63}} {
		w.Case(func() string { return fmt.Sprintf("large operands: batch %d, features %d, outputs %d", z.b, z.d, z.o) }, func(c *eng.C) {
			fcGrad(c, mixed([]int{z.b, z.d}, k), mixed([]int{z.o}, k+1), mixed([]int{z.o}, k+2), sources[0], sources[0], sources[0], sinks[0], 7, k%3)
		})
	}
	grid(w, false, func(c *eng.C, s []int, k int) {
		if len(s) != 3 {
			return
		}
		fcGrad(c, mixed([]int{s[0], s[1]}, k), mixed([]int{s[2]}, k+1), mixed([]int{s[2]}, k+2), sources[0], sources[0], sources[0], sinks[0], 7, k%3)
	})
	w.Section("letters")
	letters := []float64{0, negZ, 1, -1, 0.5, -2.5, 1e-12, 1e12}
	few := []float64{0, 1, -2.5}
	for _, sh := range []bdo{{1, 1, 1}, {1, 2, 1}, {1, 1, 2}, {2, 1, 1}, {2, 2, 1}, {1, 2, 2}, {2, 1, 2}, {2, 2, 2}} {
		k := sh.b*sh.d + 2*sh.o
		ls := letters
		if k > 3 {
			ls = few
		}
		if k > 6 {
			ls = few[1:]
		}
		if w.Thorough() && k <= 5 {
			ls = letters[:5]
			if k == 3 {
				ls = letters
			}
		}
		for i := range ls {
			w.Case(func() string {
				return fmt.Sprintf("batch %d, features %d, outputs %d, first letter %v", sh.b, sh.d, sh.o, ls[i])
			}, func(c *eng.C) {
				tuples(len(ls), k-1, func(q []int) bool {
					v := []float64{ls[i]}
					for _, j := range q {
						v = append(v, ls[j])
					}
					p, o := sh.b*sh.d, sh.o
					fcGrad(c, ref.Of([]int{sh.b, sh.d}, v[:p]...), ref.Of([]int{o}, v[p:p+o]...), ref.Of([]int{o}, v[p+o:]...), sources[0], sources[0], sources[0], sinks[0], 7, 2)
					return true
				})
			})
		}
	}
	w.Section("initializers")
	for d := 1; d <= w.Pick(4, 8); d++ {
		for o := 1; o <= w.Pick(4, 8); o++ {
			for m := 0; m < 6; m++ {
				w.Case(func() string { return fmt.Sprintf("Inputs %d, Outputs %d, initializers %d", d, o, m) }, func(c *eng.C) { fcInit(c, d, o, m) })
			}
		}
	}
	w.Section("graphs of layers")
	for b := 1; b <= 3; b++ {
		for d := 1; d <= 3; d++ {
			for o := 1; o <= 3; o++ {
				for o2 := 1; o2 <= 3; o2++ {
					w.Case(func() string { return fmt.Sprintf("batch %d: %d -> %d -> %d", b, d, o, o2) }, func(c *eng.C) { fcGraphs(c, b, d, o, o2) })
				}
			}
		}
	}
	objectsFC(w)
	livesFC(w)
	w.Section("parameter histories")
	fcHistories(w, w.Pick(5, 6))
}

func fcInit(c *eng.C, d, o, m int) {
	im := map[string]layers.Initializer{}
	wv, bv := mixed([]int{o}, 1), mixed([]int{o}, 2)
	fullI := initializers.NewFull(&initializers.FullConfig{Value: 0.75})
	wantB, wantW := ref.New([]int{o}), ref.T{}
	switch m {
	case 0:
		im = nil
	case 1:
	case 2:
		im["Weight"] = fixed(c, wv, true)
		wantW = wv
	case 3:
		im["Bias"] = fixed(c, bv, true)
		wantB = bv
	case 4:
		im["Weight"], im["Bias"] = fixed(c, wv, true), fixed(c, bv, true)
		wantW, wantB = wv, bv
	case 5:
		im["Weight"], im["Bias"] = fullI, initializers.NewFull(nil)
		wantW = ref.Full([]int{o}, 0.75)
	}
	fc, err := layers.NewFC(&layers.FCConfig{Inputs: d, Outputs: o, Initializers: im})
	must2(c, "NewFC", err)
	checkT(c, "bias", fc.Bias, wantB, nil)
	wt := get(c, "weight", fc.Weight)
	if !ref.SameShape(wt.S, []int{o}) {
		c.Fail("weight has shape %v, expected [%d]", wt.S, o)
	}
	if wantW.S != nil {
		checkT(c, "weight", fc.Weight, wantW, nil)
	} else {
		lim := math.Sqrt(6 / float64(d+o))
		for _, v := range wt.V {
			if !(v >= -lim && v <= lim) {
				c.Fail("default weight %v outside the Xavier range of fan %d+%d", v, d, o)
			}
		}
	}
	xv := mixed([]int{2, d}, 3)
	y, err := fc.Forward(mk(c, xv, false))
	must(c, "Forward", y, err)
	want, mag := ref.FC(xv, wt, wantB)
	checkT(c, "Forward", y, want, mag)
	bp(c, "y", y)
	_, gw, gb, _, mw, mb := ref.FCBack(xv, wt, fill(2*o, 1), fill(2*o, 1))
	checkFlow(c, "weight", fc.Weight, []int{o}, nil, gw, gw, mw)
	checkFlow(c, "bias", fc.Bias, []int{o}, nil, gb, gb, mb)
	params(c, fc)
	// two layers of one configuration do not share parameters
	fc2, err := layers.NewFC(&layers.FCConfig{Inputs: d, Outputs: o, Initializers: im})
	must2(c, "NewFC", err)
	if fc2.Weight == fc.Weight || fc2.Bias == fc.Bias {
		c.Fail("two layers share a parameter tensor")
	}
	if fc2.Weight.Gradient() != nil {
		c.Fail("fresh layer has a gradient")
	}
	c.Validated()
}

// fcGraphs: a layer applied twice, two layers on one input, two layers in a row.
func fcGraphs(c *eng.C, b, d, o, o2 int) {
	xv := mixed([]int{b, d}, 0)
	w1, b1, w2, b2 := mixed([]int{o}, 1), mixed([]int{o}, 2), mixed([]int{o2}, 3), mixed([]int{o2}, 4)
	one := func(n int) []float64 { return fill(n, 1) }
	// in a row, over an Input layer
	{
		x := mk(c, xv, true)
		in := layers.NewInput()
		in.SeedFunc = func() tn { return x }
		x0, err := in.Forward()
		must(c, "Input", x0, err)
		f1, f2 := newFC(c, d, w1, b1, true, true), newFC(c, o, w2, b2, true, true)
		y1, err := f1.Forward(x0)
		must(c, "Forward", y1, err)
		y2, err := f2.Forward(y1)
		must(c, "Forward", y2, err)
		v1, m1 := ref.FC(xv, w1, b1)
		v2, _ := ref.FC(v1, w2, b2)
		mm := fill(b*o2, (1+maxAbs(w2.V))*float64(o)*(1+maxAbs(m1))+maxAbs(b2.V))
		checkT(c, "second layer", y2, v2, mm)
		u := mixed([]int{b, o2}, 6)
		root, err := y2.Mul(mk(c, u, false))
		must(c, "Mul", root, err)
		bp(c, "two layers", root)
		g1, gw2, gb2, gm1, mw2, mb2 := ref.FCBack(v1, w2, u.V, absV(u.V))
		gx, gw1, gb1, mx, mw1, mb1 := ref.FCBack(xv, w1, g1, gm1)
		sl := 10 * (1 + maxAbs(m1))
		checkFlow(c, "W2", f2.Weight, w2.S, nil, gw2, gw2, addV(mw2, sl))
		checkFlow(c, "B2", f2.Bias, b2.S, nil, gb2, gb2, mb2)
		checkFlow(c, "W1", f1.Weight, w1.S, nil, gw1, gw1, mw1)
		checkFlow(c, "B1", f1.Bias, b1.S, nil, gb1, gb1, mb1)
		checkFlow(c, "x", x, xv.S, nil, gx, gx, mx)
	}
	// two layers on one input, results concatenated along the outputs through weights
	{
		x := mk(c, xv, true)
		f1, f2 := newFC(c, d, w1, b1, true, true), newFC(c, d, w2, b2, true, true)
		y1, err := f1.Forward(x)
		must(c, "Forward", y1, err)
		y2, err := f2.Forward(x)
		must(c, "Forward", y2, err)
		s1, err := y1.SumAlong(1)
		must(c, "SumAlong", s1, err)
		s2, err := y2.SumAlong(1)
		must(c, "SumAlong", s2, err)
		root, err := s1.Sub(s2)
		must(c, "Sub", root, err)
		bp(c, "parallel layers", root)
		ga, gw1, gb1, ma, mw1, mb1 := ref.FCBack(xv, w1, one(b*o), one(b*o))
		gb, gw2, gb2, mb, mw2, mb2 := ref.FCBack(xv, w2, fill(b*o2, -1), one(b*o2))
		for i := range ga {
			ga[i] += gb[i]
			ma[i] += mb[i]
		}
		checkFlow(c, "parallel: W1", f1.Weight, w1.S, nil, gw1, gw1, mw1)
		checkFlow(c, "parallel: B1", f1.Bias, b1.S, nil, gb1, gb1, mb1)
		checkFlow(c, "parallel: W2", f2.Weight, w2.S, nil, gw2, gw2, mw2)
		checkFlow(c, "parallel: B2", f2.Bias, b2.S, nil, gb2, gb2, mb2)
		checkFlow(c, "parallel: x", x, xv.S, nil, ga, ga, ma)
	}
	// one layer applied to two inputs
	{
		x2v := mixed([]int{b + 1, d}, 5)
		x, x2 := mk(c, xv, true), mk(c, x2v, false)
		f := newFC(c, d, w1, b1, true, true)
		y1, err := f.Forward(x)
		must(c, "Forward", y1, err)
		y2, err := f.Forward(x2)
		must(c, "Forward", y2, err)
		s1, err := y1.SumAlong(0)
		must(c, "SumAlong", s1, err)
		s2, err := y2.SumAlong(0)
		must(c, "SumAlong", s2, err)
		root, err := s1.Add(s2.Scale(3))
		must(c, "Add", root, err)
		bp(c, "shared layer", root)
		_, gw, gb, _, mw, mb := ref.FCBack(xv, w1, one(b*o), one(b*o))
		_, hw, hb, _, nw, nb := ref.FCBack(x2v, w1, fill((b+1)*o, 3), fill((b+1)*o, 3))
		for i := range gw {
			gw[i] += hw[i]
			mw[i] += nw[i]
			gb[i] += hb[i]
			mb[i] += nb[i]
		}
		checkFlow(c, "shared: W", f.Weight, w1.S, nil, gw, gw, mw)
		checkFlow(c, "shared: B", f.Bias, b1.S, nil, gb, gb, mb)
		if x2.Gradient() != nil {
			c.Fail("untracked input got a gradient")
		}
	}
	c.Validated()
}

// fcHistories: every sequence of parameter actions, Forward checked against the model after each.
func fcHistories(w *eng.W, depth int) {
	const d, o, b = 2, 3, 2
	type model struct {
		w, b   ref.T
		st     [2]int // 0 untracked, 1 tracked, 2 spent
		grad   [2]*[2][]float64
		fc     *layers.FC
		pw, pb *tn // pointers obtained at the start
		k      int
	}
	ws := []int{o}
	names := []string{"W:=leaf", "B:=leaf", "W:=untracked", "B:=result", "W:=B's tensor", "forward+backward", "SGD W", "SGD B", "reset W", "reset B", "untrack W", "new pointers", "fc.Weight:=leaf"}
	step := func(c *eng.C, m *model, a int) {
		c.Op("%s", names[a])
		m.k++
		fresh := mixed(ws, m.k)
		setW := func(t tn, v ref.T, st int) {
			*m.pw = t
			m.w, m.st[0], m.grad[0] = v, st, nil
		}
		switch names[a] {
		case "W:=leaf":
			setW(mk(c, fresh, true), fresh, 1)
		case "W:=untracked":
			setW(mk(c, fresh, false), fresh, 0)
		case "B:=leaf":
			*m.pb = mk(c, fresh, true)
			m.b, m.st[1], m.grad[1] = fresh, 1, nil
		case "B:=result":
			*m.pb = mk(c, scaled(fresh, 0.5), true).Scale(2)
			m.b, m.st[1], m.grad[1] = fresh, 1, nil
		case "W:=B's tensor":
			if *m.pw != *m.pb {
				setW(mk(c, m.b, true), m.b, 1)
			}
		case "fc.Weight:=leaf":
			m.fc.Weight = mk(c, fresh, true)
			m.w, m.st[0], m.grad[0] = fresh, 1, nil
		case "forward+backward":
			xv := mixed([]int{b, d}, m.k)
			y, err := m.fc.Forward(mk(c, xv, false))
			must(c, "Forward", y, err)
			want, mag := ref.FC(xv, m.w, m.b)
			checkT(c, "Forward", y, want, mag)
			u := mixed([]int{b, o}, m.k)
			root, err := y.Mul(mk(c, u, false))
			must(c, "Mul", root, err)
			bp(c, "y", root)
			if m.st[0] == 2 || m.st[1] == 2 {
				return // no gradient tracking over a spent parameter (C08)
			}
			_, gw, gb, _, mw, mb := ref.FCBack(xv, m.w, u.V, absV(u.V))
			for i, g := range [][2][]float64{{gw, mw}, {gb, mb}} {
				t := []tn{m.fc.Weight, m.fc.Bias}[i]
				if m.st[i] == 0 {
					checkFlow(c, "untracked parameter", t, ws, nil, nil, nil, nil)
					continue
				}
				checkFlow(c, []string{"weight", "bias"}[i], t, ws, nil, g[0], g[0], g[1])
				m.grad[i] = &[2][]float64{g[0], g[1]}
				m.st[i] = 2
			}
		case "SGD W", "SGD B":
			i, p, v := 0, m.pw, &m.w
			if names[a] == "SGD B" {
				i, p, v = 1, m.pb, &m.b
			}
			old := *p
			err := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 0.5}).Update(p)
			if m.grad[i] == nil {
				if err == nil || *p != old {
					c.Fail("Update of a parameter without gradient did not fail cleanly")
				}
				return
			}
			must2(c, "Update", err)
			// take the new value from the tensor after checking it
			nv := mapT(*v, func(k int, x float64) float64 { return x - 0.5*m.grad[i][0][k] })
			checkT(c, "updated parameter", *p, nv, addV(m.grad[i][1], 10))
			*v = get(c, "parameter", *p)
			m.st[i], m.grad[i] = 2, nil
		case "reset W":
			m.fc.Weight.ResetGradContext(true)
			m.st[0], m.grad[0] = 1, nil
		case "reset B":
			m.fc.Bias.ResetGradContext(true)
			m.st[1], m.grad[1] = 1, nil
		case "untrack W":
			m.fc.Weight.ResetGradContext(false)
			m.st[0], m.grad[0] = 0, nil
		case "new pointers":
			m.pw, m.pb = params(c, m.fc)
		}
		if m.fc.Weight != *m.pw || m.fc.Bias != *m.pb {
			c.Fail("the pointers from Weights() no longer address the layer's parameters")
		}
		// probe: an evaluation must use the current parameters
		xv := mixed([]int{b, d}, 11)
		y, err := m.fc.Forward(mk(c, xv, false))
		must(c, "Forward", y, err)
		want, mag := ref.FC(xv, m.w, m.b)
		checkT(c, "Forward after "+names[a], y, want, mag)
		h := eng.NewHasher().Floats(m.w.V).Floats(m.b.V).I(m.st[0]).I(m.st[1])
		c.State(h.Sum())
	}
	for a := range names {
		for b2 := range names {
			w.Case(func() string { return fmt.Sprintf("%s; %s; + every %d actions", names[a], names[b2], depth-2) }, func(c *eng.C) {
				tuples(len(names), depth-2, func(q []int) bool {
					c.Beat()
					m := &model{w: mixed(ws, 20), b: mixed(ws, 21), st: [2]int{1, 1}}
					m.fc = newFC(c, d, m.w, m.b, true, true)
					m.pw, m.pb = params(c, m.fc)
					step(c, m, a)
					step(c, m, b2)
					for _, k := range q {
						step(c, m, k)
					}
					c.Validated()
					return true
				})
			})
		}
	}
}

func init() {
	register(&eng.Check{ID: "C16", Run: runC16,
		Bounds: func(tier string) string {
			th := tier == "thorough"
			n, h := 5, 5
			if th {
				n, h = 7, 6
			}
			return fmt.Sprintf("every batch x features x outputs in 1..%d^3 (and up to 33 in one dimension, 16x16x16, and a ladder of sizes up to 16385 in each dimension), non-uniform parameters, every tracking mask, parameters and input from %d origins, replaced through the pointers / delivered by initializers / set as fields, every one-hot input, parameter and upstream gradient; every assignment of value letters to sizes up to 2x2x2; default and custom initializers for sizes up to %d; layers in a row, in parallel and shared; every history of %d parameter actions out of 13 (replacement, update, reset, back-propagation), Forward compared after each; every sequence of 3 (4) batch sizes back-propagated in every order on one layer; 10001 (66000) calls on one layer",
				n, len(sources), map[bool]int{false: 4, true: 8}[th], h)
		},
		Assumptions: []string{"relative tolerance 1e-9"}})
}
