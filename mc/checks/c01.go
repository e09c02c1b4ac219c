package checks

import (
	"fmt"
	"math"
	"runtime"
	"syscall"
	"time"

	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verifmc/eng"
	"verifmc/ref"
)

// dagSpace enumerates all DAGs with k nodes over the leaves with same-shape unary and binary operations.
// Every node may use any leaf or earlier node (both operands may coincide). With prune, only DAGs in which every
// node is an ancestor of the last one are kept.
func dagSpace(w *eng.W, name string, leaves []ref.T, un, bi []*Op, k int, prune, allRoots bool, masks []int) {
	nl := len(leaves)
	nodes := make([]Node, k)
	run := func(c *eng.C) {
		p := &Prog{Leaves: leaves, Nodes: append([]Node{}, nodes...)}
		for _, m := range masks {
			p.Tracked = make([]bool, nl)
			for i := range p.Tracked {
				p.Tracked[i] = m>>i&1 == 1
			}
			for root := nl + k - 1; root >= 0; root-- {
				if root < nl+k-1 && !allRoots {
					break
				}
				h := eng.NewHasher().S(name).I(m).I(root)
				for _, n := range nodes {
					h.S(n.Op.Name).Ints(n.In)
				}
				c.State(h.Sum())
				progCheck(c, p, root)
			}
		}
	}
	used := func(upto int) bool { // can the unused nodes before upto still be consumed by the remaining ones?
		if !prune {
			return true
		}
		free := 0
		for i := 0; i < upto; i++ {
			u := false
			for j := i + 1; j < upto; j++ {
				for _, x := range nodes[j].In {
					u = u || x == nl+i
				}
			}
			if !u {
				free++
			}
		}
		return free <= 1+(k-upto) // each remaining binary node can absorb one more
	}
	var rec func(i int, f func())
	rec = func(i int, f func()) {
		n := nl + i
		for _, o := range un {
			for a := 0; a < n; a++ {
				nodes[i] = Node{o, []int{a}}
				if used(i + 1) {
					f()
				}
			}
		}
		for _, o := range bi {
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					nodes[i] = Node{o, []int{a, b}}
					if used(i + 1) {
						f()
					}
				}
			}
		}
	}
	var build func(i, stop int, leaf func())
	build = func(i, stop int, leaf func()) {
		if w.Stopped() {
			return
		}
		if i == stop {
			leaf()
			return
		}
		rec(i, func() { build(i+1, stop, leaf) })
	}
	split := k - 1
	if split > 3 {
		split = 3
	}
	build(0, split, func() {
		pre := append([]Node{}, nodes[:split]...)
		w.Case(func() string { return fmt.Sprintf("%s: %v + every completion to %d nodes", name, preS(pre), k) }, func(c *eng.C) {
			copy(nodes, pre)
			build(split, k, func() {
				c.Beat()
				run(c)
			})
		})
	})
}

func preS(ns []Node) (s string) {
	for _, n := range ns {
		s += fmt.Sprintf("%s%v ", n.Op.Name, n.In)
	}
	return
}

func opsOf(names ...string) (r []*Op) {
	for _, n := range names {
		switch n {
		case "Scale":
			r = append(r, opScale(-1.3))
		case "Pow2":
			r = append(r, opPow(2))
		case "Pow3":
			r = append(r, opPow(3))
		case "Transpose":
			r = append(r, opTranspose())
		case "Add", "Sub", "Mul", "Div", "ElMax", "ElMin", "MatMul", "Dot":
			r = append(r, opBin(n))
		case "Softmaxish":
		default:
			r = append(r, opUnary(n))
		}
	}
	return
}

// tame leaf values: around 1, distinct, both signs unless pos.
func tame(s []int, k int) ref.T {
	t := generic(s, k, 0.45, 1.25)
	for i := range t.V {
		if (i+k)%3 == 2 {
			t.V[i] = -t.V[i]
		}
	}
	return t
}

// joinFlat appends nodes joining tensors a and b into one weighted vector root.
func joinFlat(p *Prog, a, b int) *Prog {
	e := p.ref()
	n, m := len(e.Vals[a].V), len(e.Vals[b].V)
	q := &Prog{Leaves: p.Leaves, Tracked: p.Tracked, Nodes: append([]Node{}, p.Nodes...)}
	t := len(e.Vals)
	q.Nodes = append(q.Nodes, Node{opReshape([]int{n}), []int{a}}, Node{opReshape([]int{m}), []int{b}}, Node{opConcat(0, 2), []int{t, t + 1}})
	return q.weighted(3)
}

// applyInst adds an instance on tensor h (shape in.In[pos]) with fresh leaves for the other operands; it returns the
// program (leaves are inserted by index shifting, so h's index is returned too).
type builder struct {
	leaves []ref.T
	tr     []bool
	nodes  []struct {
		o  *Op
		in []int // >=0: node index, <0: leaf -1-i
	}
}

func (b *builder) leaf(v ref.T, tracked bool) int {
	b.leaves = append(b.leaves, v)
	b.tr = append(b.tr, tracked)
	return -len(b.leaves)
}

func (b *builder) node(o *Op, in ...int) int {
	b.nodes = append(b.nodes, struct {
		o  *Op
		in []int
	}{o, in})
	return len(b.nodes) - 1
}

func (b *builder) prog() *Prog {
	p := &Prog{Leaves: b.leaves, Tracked: b.tr}
	for _, n := range b.nodes {
		in := make([]int, len(n.in))
		for i, x := range n.in {
			if x < 0 {
				in[i] = -1 - x
			} else {
				in[i] = len(b.leaves) + x
			}
		}
		p.Nodes = append(p.Nodes, Node{n.o, in})
	}
	return p
}

// inst applies in with operand pos taken from h and fresh operands elsewhere.
func (b *builder) inst(in Inst, pos, h int, q int, tracked bool) int {
	ops := make([]int, len(in.In))
	for k, s := range in.In {
		if k == pos {
			ops[k] = h
			continue
		}
		v := tame(s, q+k)
		if in.O.Pos || in.O.NZ {
			v = positive(v)
		}
		ops[k] = b.leaf(v, tracked)
	}
	return b.node(in.O, ops...)
}

func (b *builder) idx(n int) int {
	if n < 0 {
		return -1 - n
	}
	return len(b.leaves) + n
}

func cpuNow() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

/* ---------- growth families ---------- */

type family struct {
	name string
	// build returns the root of the family's graph of size n over the tracked leaf x
	build func(c *eng.C, x tn, n int) tn
	// quad: the graph itself has O(n^2) edges
	quad bool
}

func fadd(c *eng.C, a, b tn) tn { y, err := a.Add(b); return must(c, "Add", y, err) }
func fmul(c *eng.C, a, b tn) tn { y, err := a.Mul(b); return must(c, "Mul", y, err) }

func act(c *eng.C, l interface {
	Forward(...tensor.Tensor) (tensor.Tensor, error)
}, x tn) tn {
	y, err := l.Forward(x)
	return must(c, "activation", y, err)
}

func families() []family {
	iter := func(f func(c *eng.C, h tn, x tn, i int) tn) func(c *eng.C, x tn, n int) tn {
		return func(c *eng.C, x tn, n int) tn {
			h := x
			for i := 0; i < n; i++ {
				h = f(c, h, x, i)
			}
			return h
		}
	}
	sm, _ := activations.NewSoftmax(nil)
	fs := []family{
		{"chain of Scale", iter(func(c *eng.C, h, _ tn, _ int) tn { return h.Scale(1.0001) }), false},
		{"chain of Tanh", iter(func(c *eng.C, h, _ tn, _ int) tn { return h.Tanh() }), false},
		{"h+h", iter(func(c *eng.C, h, _ tn, _ int) tn { return fadd(c, h, h).Scale(0.5) }), false},
		{"h*h", iter(func(c *eng.C, h, _ tn, _ int) tn { return fmul(c, h, h).Tanh() }), false},
		{"sin(h)*cos(h)", iter(func(c *eng.C, h, _ tn, _ int) tn { return fmul(c, h.Sin(), h.Cos()) }), false},
		{"h+0.5h then tanh", iter(func(c *eng.C, h, _ tn, _ int) tn { return fadd(c, h, h.Scale(0.5)).Tanh() }), false},
		{"three-way", iter(func(c *eng.C, h, _ tn, _ int) tn { return fadd(c, fadd(c, h.Sin(), h.Cos()), h.Scale(0.1)).Tanh() }), false},
		{"skip to the leaf", iter(func(c *eng.C, h, x tn, _ int) tn { return fmul(c, fadd(c, h, x), h).Tanh() }), false},
		{"Div and Sub", iter(func(c *eng.C, h, x tn, _ int) tn {
			y, err := h.Sub(h.Scale(0.25))
			must(c, "Sub", y, err)
			z, err := y.Div(fadd(c, fmul(c, h, h), constLike(c, h, 1)))
			return must(c, "Div", z, err)
		}), false},
		{"Concat and Slice", iter(func(c *eng.C, h, _ tn, _ int) tn {
			y, err := tensor.Concat([]tn{h, h}, 0)
			must(c, "Concat", y, err)
			n := h.Shape()[0]
			z, err := y.Slice([]tensor.Range{{From: 1, To: n + 1}})
			return must(c, "Slice", z, err)
		}), false},
		{"Patch into itself", iter(func(c *eng.C, h, _ tn, _ int) tn {
			s, err := h.Slice([]tensor.Range{{From: 1, To: 2}})
			must(c, "Slice", s, err)
			y, err := h.Patch([]tensor.Range{{From: 0, To: 1}}, s)
			return must(c, "Patch", y, err)
		}), false},
		{"ElMax of two branches", iter(func(c *eng.C, h, _ tn, _ int) tn {
			y, err := h.Scale(0.5).ElMax(h.Scale(0.25))
			must(c, "ElMax", y, err)
			return fadd(c, y, h.Scale(0.5))
		}), false},
		{"implicit expansion of a mean", iter(func(c *eng.C, h, _ tn, _ int) tn {
			m, err := h.MeanAlong(0)
			must(c, "MeanAlong", m, err)
			y, err := h.Sub(m)
			return must(c, "Sub", y, err)
		}), false},
		{"Softmax stack", iter(func(c *eng.C, h, _ tn, _ int) tn { return act(c, sm, h) }), false},
		{"Relu stack", iter(func(c *eng.C, h, _ tn, _ int) tn { return act(c, activations.NewRelu(), h) }), false},
		{"LeakyRelu stack", iter(func(c *eng.C, h, _ tn, _ int) tn { return act(c, activations.NewLeakyRelu(nil), h) }), false},
		{"Sigmoid stack", iter(func(c *eng.C, h, _ tn, _ int) tn { return act(c, activations.NewSigmoid(), h) }), false},
		{"Fibonacci", func(c *eng.C, x tn, n int) tn {
			a, b := x, x.Sin()
			for i := 0; i < n; i++ {
				a, b = b, fadd(c, a, b).Scale(0.5)
			}
			return b
		}, false},
		{"two interleaved rails", func(c *eng.C, x tn, n int) tn {
			a, b := x.Sin(), x.Cos()
			for i := 0; i < n; i++ {
				a, b = fadd(c, a, b).Tanh(), fmul(c, a, b)
			}
			return fadd(c, a, b)
		}, false},
		{"fan-out", func(c *eng.C, x tn, n int) tn {
			h := x.Sin()
			var s tn = h
			for i := 0; i < n; i++ {
				s = fadd(c, s, h.Scale(float64(i+1)/float64(n)))
			}
			return s
		}, false},
		{"fan-out through one Concat", func(c *eng.C, x tn, n int) tn {
			h := x.Sin()
			ts := []tn{h, h}
			for i := 0; i < n; i++ {
				ts = append(ts, h.Scale(0.5))
			}
			y, err := tensor.Concat(ts, 0)
			return must(c, "Concat", y, err)
		}, true},
		{"binary tree over one leaf", func(c *eng.C, x tn, n int) tn {
			ts := []tn{}
			for i := 0; i < n+1; i++ {
				ts = append(ts, x.Scale(1/float64(i+1)))
			}
			for len(ts) > 1 {
				var nx []tn
				for i := 0; i+1 < len(ts); i += 2 {
					nx = append(nx, fadd(c, ts[i], ts[i+1]))
				}
				if len(ts)%2 == 1 {
					nx = append(nx, ts[len(ts)-1])
				}
				ts = nx
			}
			return ts[0]
		}, false},
		{"dense: every node adds up all earlier ones", func(c *eng.C, x tn, n int) tn {
			ts := []tn{x}
			for i := 0; i < n; i++ {
				s := ts[0]
				for _, t := range ts[1:] {
					s = fadd(c, s, t)
				}
				ts = append(ts, s.Scale(1/float64(i+2)).Tanh())
			}
			return ts[len(ts)-1]
		}, true},
		{"dense through running sums", func(c *eng.C, x tn, n int) tn {
			sum := x
			for i := 0; i < n; i++ {
				t := sum.Tanh()
				sum = fadd(c, sum, t).Scale(0.9)
			}
			return sum
		}, false},
	}
	return fs
}

func constLike(c *eng.C, h tn, v float64) tn {
	x, err := tensor.Full(h.Shape(), v, nil)
	return must(c, "Full", x, err)
}

// growth runs one family: gradients must exist and be finite; the work of a back-propagation must not grow
// super-polynomially, and (for families with O(n) edges) not faster than about linearly in allocations.
func growth(c *eng.C, f family, max int) {
	x0 := ref.Of([]int{3}, 0.7, -0.3, 0.45)
	measure := func(n int) (allocs float64, cpu time.Duration) {
		x := mk(c, x0, true)
		root := f.build(c, x, n)
		c.Op("%s, n=%d: BackPropagate", f.name, n)
		c.Beat()
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		t0 := cpuNow()
		if err := bpErr(root); err != nil {
			c.Fail("%s n=%d: BackPropagate failed: %v", f.name, n, err)
		}
		cpu = cpuNow() - t0
		runtime.ReadMemStats(&m1)
		g := x.Gradient()
		if g == nil {
			c.Fail("%s n=%d: no gradient on the leaf", f.name, n)
		}
		if v := get(c, "gradient", g); !ref.SameShape(v.S, x0.S) || !finite(v.V) {
			c.Fail("%s n=%d: gradient %v", f.name, n, v)
		}
		c.Validated()
		return float64(m1.Mallocs - m0.Mallocs), cpu
	}
	prev := map[int]float64{}
	for n := 2; n <= 28; n += 2 {
		a, cpu := measure(n)
		prev[n] = a
		if cpu > 2*time.Second {
			c.Fail("%s: back-propagating a graph of size %d takes %v of CPU time: exponential in the number of shared sub-expressions", f.name, n, cpu)
		}
		if n >= 12 {
			lim := 3.2
			if f.quad {
				lim = 6
			}
			if r := a / prev[n/2/2*2]; r > lim*1.35 {
				c.Fail("%s: work of one back-propagation grows by a factor of %.1f from n=%d to n=%d (%.0f allocations): backward rules are applied an unbounded number of times", f.name, r, n/2/2*2, n, a)
			}
		}
	}
	last := 0.0
	for n := 32; n <= max; n *= 2 {
		if f.quad && n > 128 {
			break
		}
		a, cpu := measure(n)
		lim := 3.2
		if f.quad {
			lim = 6
		}
		if last > 0 && a/last > lim {
			c.Fail("%s: work of one back-propagation grows by a factor of %.1f from n=%d to n=%d", f.name, a/last, n/2, n)
		}
		if cpu > 20*time.Second {
			c.Fail("%s: n=%d takes %v", f.name, n, cpu)
		}
		last = a
	}
}

/* ---------- back-propagation sequences over shared leaves ---------- */

type tmpl struct {
	name  string
	build func(x, y int, b *builder) int
}

func templates() []tmpl {
	bin := func(n string) tmpl {
		return tmpl{"x" + n + "y", func(x, y int, b *builder) int { return b.node(opBin(n), x, y) }}
	}
	return []tmpl{
		{"x", func(x, y int, b *builder) int { return x }},
		{"y", func(x, y int, b *builder) int { return y }},
		{"sin x", func(x, y int, b *builder) int { return b.node(opUnary("Sin"), x) }},
		{"scale y", func(x, y int, b *builder) int { return b.node(opScale(-1.5), y) }},
		bin("Add"), bin("Sub"), bin("Mul"), bin("Div"),
		{"x*x", func(x, y int, b *builder) int { return b.node(opBin("Mul"), x, x) }},
		{"(x+y)*x", func(x, y int, b *builder) int { return b.node(opBin("Mul"), b.node(opBin("Add"), x, y), x) }},
		{"h*h, h=x-y", func(x, y int, b *builder) int {
			h := b.node(opBin("Sub"), x, y)
			return b.node(opBin("Mul"), h, h)
		}},
		{"sum y", func(x, y int, b *builder) int { return b.node(opAlong("Sum", 0), y) }},
		{"slice x", func(x, y int, b *builder) int {
			return b.node(opSlice([]ref.Range{{From: 0, To: 1}}), b.node(opScale(2), x))
		}},
		{"concat", func(x, y int, b *builder) int { return b.node(opConcat(0, 2), x, y) }},
		{"dot", func(x, y int, b *builder) int { return b.node(opBin("Dot"), y, x) }},
		{"mean*y", func(x, y int, b *builder) int { return b.node(opBin("Mul"), b.node(opAlong("Mean", 0), x), y) }},
		{"exp(tanh x)+x", func(x, y int, b *builder) int {
			return b.node(opBin("Add"), b.node(opUnary("Exp"), b.node(opUnary("Tanh"), x)), x)
		}},
		{"diamond", func(x, y int, b *builder) int {
			h := b.node(opBin("Mul"), x, y)
			return b.node(opBin("Mul"), b.node(opUnary("Sin"), h), b.node(opUnary("Cos"), h))
		}},
	}
}

func c01Sequence(c *eng.C, ts []tmpl, mask int, order []int) {
	b := &builder{}
	x := b.leaf(tame([]int{2}, 1), mask&1 == 1)
	y := b.leaf(tame([]int{2}, 2), mask&2 == 2)
	roots := make([]int, len(ts))
	for i, t := range ts {
		roots[i] = t.build(x, y, b)
	}
	p := b.prog()
	e := p.ref()
	if !e.Smooth {
		return
	}
	tsr := p.lib(c)
	g := make([][]float64, len(e.Vals))
	m := make([][]float64, len(e.Vals))
	for _, i := range order {
		r := b.idx(roots[i])
		bp(c, fmt.Sprintf("t%d (%s)", r, ts[i].name), tsr[r])
		p.grads(e, r, g, m)
		checkGrads(c, e, tsr, g, m)
	}
	c.Validated()
}

func runC01(w *eng.W) {
	m22 := []ref.T{tame([]int{2, 2}, 1), tame([]int{2, 2}, 4)}
	sc := []ref.T{ref.Of(nil, 0.8), ref.Of(nil, -1.15)}
	all2 := []int{1, 2, 3}
	w.Section("all DAGs, wide alphabet on [2,2]")
	un := opsOf("Scale", "Pow2", "Sin", "Tanh", "Transpose", "Exp")
	bi := opsOf("Add", "Sub", "Mul", "Div", "ElMax", "ElMin", "MatMul")
	dagSpace(w, "wide", m22, un, bi, 1, false, true, all2)
	dagSpace(w, "wide", m22, un, bi, 2, false, true, all2)
	if w.Thorough() {
		dagSpace(w, "wide", m22, un, bi, 3, true, true, all2)
	} else {
		dagSpace(w, "wide", m22, opsOf("Scale", "Sin", "Transpose"), opsOf("Sub", "Mul", "ElMax", "MatMul"), 3, true, true, all2)
	}
	w.Section("all DAGs of 3 nodes including unused consumers")
	dagSpace(w, "consumers", sc, opsOf("Scale", "Tanh"), opsOf("Sub", "Mul"), 3, false, true, all2)
	w.Section("all DAGs of 4 nodes")
	dagSpace(w, "four", sc, opsOf("Scale", "Tanh"), opsOf("Sub", "Mul"), 4, !w.Thorough(), w.Thorough(), []int{3, 1})
	w.Section("all DAGs of 5 nodes")
	dagSpace(w, "five", sc[:1], opsOf("Tanh"), opsOf("Sub", "Mul"), 5, true, false, []int{1})
	dagSpace(w, "five2", sc, opsOf("Sin"), opsOf("Mul"), 5, true, false, []int{3, 1})
	if w.Thorough() {
		w.Section("all DAGs of 6 nodes")
		dagSpace(w, "six", sc[:1], opsOf("Tanh"), opsOf("Mul"), 6, true, false, []int{1})
		dagSpace(w, "six add", sc[:1], nil, opsOf("Sub"), 6, true, false, []int{1})
	}
	w.Section("all arithmetic DAGs with implicit expansion")
	bl := []ref.T{tame([]int{2, 1}, 1), tame([]int{3}, 2), ref.Of(nil, 0.9)}
	for i := range bl {
		bl[i] = positive(bl[i])
	}
	for k := 1; k <= 3; k++ {
		ms := []int{1, 2, 3, 4, 5, 6, 7}
		if k == 3 && !w.Thorough() {
			ms = []int{7, 5, 2}
		}
		ar := opsOf("Add", "Sub", "Mul", "Div")
		if k == 3 && !w.Thorough() {
			ar = opsOf("Sub", "Mul", "Div")
		}
		dagSpace(w, "expand", bl, nil, ar, k, true, false, ms)
	}
	w.Section("op1 then op2 and op3, reconverging")
	for _, s := range [][]int{{2, 2}, {1, 3}, {2, 1, 2}, {2}} {
		if len(s) == 3 && !w.Thorough() {
			continue
		}
		for _, i1 := range allInst(s) {
			for pos := range i1.In {
				s, i1, pos := s, i1, pos
				if pos > 0 && ref.SameShape(i1.In[0], i1.In[pos]) && !w.Thorough() && len(s) != 2 {
					continue
				}
				_ = s
				h, ok := i1.O.Ref(instVals(i1))
				if !ok {
					panic("harness")
				}
				next := allInst(h.S)
				for _, i2 := range next {
					i2 := i2
					w.Case(func() string { return fmt.Sprintf("%s@%d then %s and every op3", i1, pos, i2) }, func(c *eng.C) {
						for q3, i3 := range next {
							b := &builder{}
							v := tame(i1.In[pos], 1)
							if i1.O.Pos || i1.O.NZ {
								v = positive(v)
							}
							x := b.leaf(v, true)
							hh := b.inst(i1, pos, x, 2, q3%2 == 0)
							a := b.inst(i2, 0, hh, 3, q3%3 == 0)
							d := b.inst(i3, len(i3.In)-1, hh, 5, q3%2 == 1)
							if !ref.SameShape(i3.In[len(i3.In)-1], h.S) {
								b.nodes = b.nodes[:len(b.nodes)-1]
								d = b.inst(i3, 0, hh, 5, true)
							}
							p := b.prog()
							e := p.ref()
							if !e.Smooth {
								c.Outcome("skipped: not differentiable here")
								continue
							}
							jp := joinFlat(p, b.idx(a), b.idx(d))
							progCheck(c, jp, len(jp.Leaves)+len(jp.Nodes)-1)
						}
					})
				}
			}
		}
	}
	w.Section("back-propagation sequences over shared leaves")
	tm := templates()
	for n := 1; n <= w.Pick(3, 3); n++ {
		tuples(len(tm), n, func(t []int) bool {
			sel := make([]tmpl, n)
			nm := ""
			for i := range sel {
				sel[i] = tm[t[i]]
				nm += sel[i].name + "; "
			}
			w.Case(func() string { return "sequence " + nm }, func(c *eng.C) {
				for mask := 1; mask < 4; mask++ {
					if n == 3 {
						c01Sequence(c, sel, mask, []int{0, 1, 2})
						c01Sequence(c, sel, mask, []int{2, 0, 1})
					} else {
						for _, o := range permutations(n) {
							c01Sequence(c, sel, mask, o)
						}
					}
				}
			})
			return !w.Stopped()
		})
	}
	if w.Thorough() {
		w.Section("back-propagation sequences of four graphs")
		tuples(len(tm), 4, func(t []int) bool {
			sel := make([]tmpl, 4)
			nm := ""
			for i := range sel {
				sel[i] = tm[t[i]]
				nm += sel[i].name + "; "
			}
			w.Case(func() string { return "sequence " + nm }, func(c *eng.C) { c01Sequence(c, sel, 3, []int{1, 3, 0, 2}) })
			return !w.Stopped()
		})
	}
	w.Section("two operations over the same operands, back-propagated one after the other")
	for _, s := range [][]int{{2}, {2, 2}, {}, {1, 3}, {2, 1, 2}} {
		if len(s) < 3 || w.Thorough() {
			sharedAll(w, s)
		}
	}
	w.Section("accumulation counts: k graphs on one leaf, k consumers of one tensor")
	for k := 1; k <= w.Pick(40, 80); k++ {
		k := k
		w.Case(func() string { return fmt.Sprintf("k=%d", k) }, func(c *eng.C) {
			for variant := 0; variant < 3; variant++ {
				b := &builder{}
				x := b.leaf(tame([]int{2}, 1), true)
				src := x
				if variant > 0 {
					src = b.node(opUnary("Sin"), x)
				}
				var parts []int
				for i := 0; i < k; i++ {
					parts = append(parts, b.node(opScale(0.1+float64(i)/7), src))
				}
				if variant == 0 { // separate back-propagations
					p := b.prog()
					e := p.ref()
					ts := p.lib(c)
					g := make([][]float64, len(e.Vals))
					m := make([][]float64, len(e.Vals))
					for i := range parts {
						r := b.idx(parts[(i*7)%k])
						if k%7 == 0 {
							r = b.idx(parts[i])
						}
						bp(c, "part", ts[r])
						p.grads(e, r, g, m)
						checkGrads(c, e, ts, g, m)
					}
					c.Validated()
					continue
				}
				if variant == 1 && k >= 2 {
					b.node(opConcat(0, k), parts...)
				} else {
					s := parts[0]
					for _, q := range parts[1:] {
						s = b.node(opBin("Add"), s, q)
					}
				}
				p := b.prog()
				progCheck(c, p, last(p))
			}
		})
	}
	w.Section("accumulation counts: ladder")
	for _, k := range ladder(w.Pick(10001, 16385)) {
		for variant := 0; variant < 5; variant++ {
			if k <= 40 || variant == 0 && k > 1100 {
				continue
			}
			w.Case(func() string { return fmt.Sprintf("k=%d, variant %d", k, variant) }, func(c *eng.C) {
				b := &builder{}
				x := b.leaf(ref.Of([]int{1}, 0.3), true)
				src := x
				if variant%2 == 0 {
					src = b.node(opUnary("Sin"), x)
				}
				part := func(i int) int { return b.node(opScale(0.1+float64(i%100)/70), src) }
				switch variant {
				case 0: // k graphs on one leaf, back-propagated one after the other
					t := mk(c, ref.Of([]int{1}, 0.3), true)
					ys := make([]tn, k)
					sum := 0.0
					for i := range ys {
						f := 0.1 + float64(i%100)/70
						ys[i] = t.Scale(f)
					}
					for i := range ys {
						f := 0.1 + float64((i*7%k)%100)/70
						if k%7 == 0 {
							f = 0.1 + float64(i%100)/70
							bp(c, "part", ys[i])
						} else {
							bp(c, "part", ys[i*7%k])
						}
						sum += f
						checkT(c, "accumulated gradient", t.Gradient(), ref.Of([]int{1}, sum), []float64{sum})
					}
					c.Validated()
					return
				case 1, 2: // k consumers joined by one Concat
					var parts []int
					for i := 0; i < k; i++ {
						parts = append(parts, part(i))
					}
					b.node(opConcat(0, k), parts...)
				case 3, 4: // k consumers joined in a chain
					s := part(0)
					for i := 1; i < k; i++ {
						s = b.node(opBin([]string{"Add", "Sub"}[i%2]), s, part(i))
					}
				}
				p := b.prog()
				if !progCheck(c, p, last(p)) {
					c.Fail("harness: program skipped")
				}
			})
		}
	}
	w.Section("growth of the work with the graph size")
	for _, f := range families() {
		f := f
		w.Case(func() string { return "growth: " + f.name }, func(c *eng.C) { growth(c, f, w.Pick(4096, 32768)) })
	}
	w.Section("deep graphs with exact expectation")
	for _, n := range []int{1, 2, 3, 5, 8, 13, 21, 34, 60, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 512, 1000, 1024, 1500, 2000} {
		n := n
		w.Case(func() string { return fmt.Sprintf("deep n=%d", n) }, func(c *eng.C) {
			type mkNode func(b *builder, h, x int, i int) int
			for fi, f := range []mkNode{
				func(b *builder, h, x, i int) int {
					return b.node(opBin("Sub"), b.node(opScale(1.0001), h), b.node(opScale(1e-4), h))
				},
				func(b *builder, h, x, i int) int {
					return b.node(opUnary("Tanh"), b.node(opBin("Add"), h, b.node(opBin("Mul"), h, x)))
				},
				func(b *builder, h, x, i int) int { return b.node(opBin("Mul"), b.node(opUnary("Cos"), h), h) },
				func(b *builder, h, x, i int) int { return b.node(opScale(1-1e-3), h) },
				func(b *builder, h, x, i int) int {
					y := b.node(opConcat(0, 2), h, h)
					return b.node(opAlong("Mean", 0), b.node(opReshape([]int{2, 2}), y))
				},
			} {
				b := &builder{}
				x := b.leaf(ref.Of([]int{2}, 0.31, -0.52), true)
				h := x
				for i := 0; i < n; i++ {
					h = f(b, h, x, i)
				}
				p := b.prog()
				if !progCheck(c, p, last(p)) && fi == 0 {
					c.Fail("harness: deep program skipped")
				}
				c.Beat()
			}
		})
	}
	w.Section("long chains")
	for _, n := range []int{4097, 16385, 65537, w.Pick(131073, 524289)} {
		for k := 0; k < 4; k++ {
			w.Case(func() string { return fmt.Sprintf("chain of %d, kind %d", n, k) }, func(c *eng.C) { longChain(c, n, k) })
		}
	}
	gcPrograms(w, false)
}

// longChain: n operations in a row whose derivative is exact (the factors are powers of two), checked on every tensor of it.
func longChain(c *eng.C, n, kind int) {
	x := mk(c, ref.Of([]int{2}, 1.5, -2.5), true)
	one := mk(c, ref.Of([]int{2}, 1, 1), kind%2 == 0)
	ts, f := []tn{x}, []float64{1}
	c.Op("chain of %d", n)
	for i := 0; i < n; i++ {
		h := ts[len(ts)-1]
		var y tn
		var err error
		q := 1.0
		switch kind {
		case 0: // shape only
			y, err = h.Reshape([][]int{{2}, {1, 2}, {2, 1}}[i%3])
		case 1: // scaling up and down
			q = []float64{2, 0.5, -1}[i%3]
			y = h.Scale(q)
		case 2: // a binary operation with a constant
			y, err = h.Mul(one)
		case 3: // diamonds: h + h, halved
			if y, err = h.Add(h); err == nil {
				y = y.Scale(0.5)
			}
		}
		must(c, "chain", y, err)
		ts, f = append(ts, y), append(f, q)
		if i%1024 == 0 {
			c.Beat()
		}
	}
	last := ts[len(ts)-1]
	if kind == 0 {
		y, err := last.Reshape([]int{2})
		must(c, "Reshape", y, err)
		ts, f = append(ts, y), append(f, 1)
		last = y
	}
	c.Beat()
	bp(c, "chain", last)
	d := 1.0
	for i := len(ts) - 1; i >= 0; i-- {
		if i%1024 == 0 {
			c.Beat()
		}
		g := ts[i].Gradient()
		if g == nil {
			c.Fail("tensor %d of a chain of %d has no gradient", i, n)
		}
		if i%64 == 0 || i < 100 || i > len(ts)-100 {
			s := ts[i].Shape()
			checkT(c, fmt.Sprintf("gradient of tensor %d of %d", i, n), g, ref.Full(s, d), ref.Full(s, math.Abs(d)).V)
		}
		d *= f[i]
	}
	c.Validated()
}

func instVals(in Inst) []ref.T {
	r := make([]ref.T, len(in.In))
	for k, s := range in.In {
		r[k] = tame(s, k)
		if in.O.Pos || in.O.NZ {
			r[k] = positive(r[k])
		}
	}
	return r
}

func init() {
	register(&eng.Check{ID: "C01", Run: runC01, CPULimit: 60,
		Bounds: func(tier string) string {
			b := "every DAG of 1-2 nodes over 2 leaves of shape [2,2] with 6 unary and 7 binary ops, all roots, all leaf trackings; 3 nodes with 3+4 ops; every DAG (also with dead consumers) of 3 nodes and every connected DAG of 4 nodes with 2+2 ops, of 5 nodes with 1+2 and 1+1 ops; every arithmetic DAG of <=3 nodes over leaves [2,1],[3],[] (implicit expansion); " +
				"every triple op1 -> (op2, op3) of the catalogue of all differentiable ops on 3 shapes, reconverging with generic weights; every sequence of <=3 back-propagations over 18 graph templates sharing leaves; every ordered pair of catalogue and expanding operations (4 shapes, thorough 5) over the same operand objects, back-propagated in both orders and in steps with resets; 1..40 consumers / graphs per leaf, and a ladder of counts up to 10001 (back-propagations per leaf: 1025); 24 graph families up to size 4096 with bounded work growth; 5 deep families up to 2000 levels compared with the reference; chains of up to 131073 operations; garbage collections (with finalizers) at every point of every program of 1-2 operations of a 12-operation alphabet, with every choice of at most 2 surviving tensors"
			if tier == "thorough" {
				b += "; thorough: 3 nodes with 6+7 ops, 4 nodes unpruned with all roots, 6 nodes, 4 shapes of triples, sequences of 4, growth to 32768, chains to 524289"
			}
			return b
		},
		Assumptions: []string{"programs that hit a non-differentiable point (ties) or leave the range 1e12 are skipped and counted", "explicit Broadcast calls with repetition are excluded here: they are the known finding of C07; implicit expansion is included"}})
}
