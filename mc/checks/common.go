// Package checks holds one bounded-exhaustive exploration per property. Everything here talks to qeep through its
// public API only; the oracle is package ref.
package checks

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verifmc/eng"
	"verifmc/ref"
)

// All are the registered checks.
var All = map[string]*eng.Check{}

func register(c *eng.Check) {
	if more := further[c.ID]; more != "" && c.Bounds != nil {
		b := c.Bounds
		c.Bounds = func(tier string) string { return b(tier) + more }
	}
	All[c.ID] = c
}

func IDs() (r []string) {
	for id := range All {
		r = append(r, id)
	}
	sort.Strings(r)
	return
}

type tn = tensor.Tensor

func conf(tracked bool) *tensor.Config {
	return &tensor.Config{Device: tensor.CPU, GradTrack: tracked}
}

/* ---------- moving values in and out of the library ---------- */

// mk builds a leaf holding t. Up to rank 4 it is TensorOf; above, TensorOf + Reshape + ResetGradContext.
func mk(c *eng.C, t ref.T, tracked bool) tn {
	var x tn
	var err error
	s, v := t.S, t.V
	switch len(s) {
	case 0:
		x, err = tensor.TensorOf(v[0], conf(tracked))
	case 1:
		x, err = tensor.TensorOf(append([]float64{}, v...), conf(tracked))
	case 2:
		x, err = tensor.TensorOf(nest2(s, v), conf(tracked))
	case 3:
		x, err = tensor.TensorOf(nest3(s, v), conf(tracked))
	case 4:
		d := make([][][][]float64, s[0])
		n := ref.Prod(s[1:])
		for i := range d {
			d[i] = nest3(s[1:], v[i*n:(i+1)*n])
		}
		x, err = tensor.TensorOf(d, conf(tracked))
	default:
		x, err = tensor.TensorOf(append([]float64{}, v...), conf(false))
		if err == nil {
			x, err = x.Reshape(ref.CopyInts(s))
		}
		if err == nil {
			x.ResetGradContext(tracked)
		}
	}
	if err != nil {
		c.Fail("building an input of shape %v failed: %v", s, err)
	}
	return x
}

func nest2(s []int, v []float64) [][]float64 {
	d := make([][]float64, s[0])
	for i := range d {
		d[i] = append([]float64{}, v[i*s[1]:(i+1)*s[1]]...)
	}
	return d
}

func nest3(s []int, v []float64) [][][]float64 {
	d := make([][][]float64, s[0])
	n := s[1] * s[2]
	for i := range d {
		d[i] = nest2(s[1:], v[i*n:(i+1)*n])
	}
	return d
}

// get reads a tensor back element by element through At.
func get(c *eng.C, what string, x tn) ref.T {
	if x == nil {
		c.Fail("%s is nil", what)
	}
	s := x.Shape()
	for _, d := range s {
		if d <= 0 {
			c.Fail("%s has shape %v", what, s)
		}
	}
	t := ref.New(s)
	if n := x.NElems(); n != len(t.V) {
		c.Fail("%s: NElems %d does not match shape %v", what, n, s)
	}
	ix := make([]int, len(s))
	for p := range t.V {
		ref.Unravel(p, s, ix)
		v, err := x.At(ix...)
		if err != nil {
			c.Fail("%s: At(%v) failed on shape %v: %v", what, ix, s, err)
		}
		t.V[p] = v
	}
	return t
}

const rtol = 1e-9

// eqF: equal up to a tolerance relative to mag (0 means exact).
func eqF(got, want, mag float64) bool {
	if got == want {
		return true
	}
	if math.IsNaN(want) {
		return math.IsNaN(got)
	}
	if math.IsInf(want, 0) || math.IsNaN(got) || math.IsInf(got, 0) {
		return false
	}
	return math.Abs(got-want) <= rtol*mag
}

func same(got, want float64) bool {
	return got == want || math.IsNaN(got) && math.IsNaN(want)
}

// checkT compares a library tensor with the expected one; mag nil: exact.
func checkT(c *eng.C, what string, x tn, want ref.T, mag []float64) {
	if x == nil {
		c.Fail("%s is nil, expected shape %v", what, want.S)
	}
	g := get(c, what, x)
	if !ref.SameShape(g.S, want.S) {
		c.Fail("%s has shape %v, expected %v", what, g.S, want.S)
	}
	for i := range want.V {
		m := 0.0
		if mag != nil {
			m = mag[i]
		}
		if !eqF(g.V[i], want.V[i], m) {
			c.Fail("%s (shape %v) element %d: got %v, expected %v\n got      %v\n expected %v", what, g.S, i, g.V[i], want.V[i], trim(g.V), trim(want.V))
		}
	}
	c.AddValues(len(want.V))
}

func trim(v []float64) string {
	if len(v) > 40 {
		return fmt.Sprintf("%v... (%d)", v[:40], len(v))
	}
	return fmt.Sprint(v)
}

func absV(v []float64) []float64 {
	r := make([]float64, len(v))
	for i := range v {
		r[i] = math.Abs(v[i])
	}
	return r
}

func maxAbs(v []float64) float64 {
	m := 0.0
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

func finite(v []float64) bool {
	for _, x := range v {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}

/* ---------- enumerations ---------- */

// shapes of exactly the given rank with the given dimension sizes and at most maxN elements, in lexicographic order.
func shapesOf(rank int, dims []int, maxN int) (r [][]int) {
	var rec func(s []int, n int)
	rec = func(s []int, n int) {
		if len(s) == rank {
			r = append(r, ref.CopyInts(s))
			return
		}
		for _, d := range dims {
			if n*d <= maxN {
				rec(append(s, d), n*d)
			}
		}
	}
	rec(nil, 1)
	return
}

func shapes(maxRank int, dims []int, maxN int) (r [][]int) {
	for k := 0; k <= maxRank; k++ {
		r = append(r, shapesOf(k, dims, maxN)...)
	}
	return
}

// tuples enumerates k-tuples over 0..n-1.
func tuples(n, k int, f func(t []int) bool) {
	t := make([]int, k)
	for {
		if !f(t) {
			return
		}
		i := k - 1
		for i >= 0 {
			t[i]++
			if t[i] < n {
				break
			}
			t[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

func permutations(n int) (r [][]int) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			r = append(r, ref.CopyInts(p))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return
}

/* ---------- value patterns: all deterministic, all elements distinct unless stated ---------- */

// ramp gives 1, -2, 3, -4, ... scaled so that every position is recognisable.
func ramp(s []int) ref.T {
	t := ref.New(s)
	for i := range t.V {
		t.V[i] = float64(i + 1)
		if i%2 == 1 {
			t.V[i] = -t.V[i]
		}
	}
	return t
}

// generic gives distinct irregular values in (lo, hi); k selects one of several sequences.
func generic(s []int, k int, lo, hi float64) ref.T {
	t := ref.New(s)
	for i := range t.V {
		f := math.Mod(0.137*float64(k+1)+0.6180339887498949*float64(i+1), 1)
		t.V[i] = lo + (hi-lo)*f
	}
	return t
}

// mixed gives distinct values of both signs, away from zero.
func mixed(s []int, k int) ref.T {
	t := generic(s, k, 0.35, 2.15)
	for i := range t.V {
		if (i+k)%3 == 1 {
			t.V[i] = -t.V[i]
		}
	}
	return t
}

func constV(s []int, v float64) ref.T { return ref.Full(s, v) }

func mapT(t ref.T, f func(i int, v float64) float64) ref.T {
	r := ref.New(t.S)
	for i, v := range t.V {
		r.V[i] = f(i, v)
	}
	return r
}

/* ---------- operations ---------- */

// Op is one differentiable operation with fixed arguments.
type Op struct {
	Name string
	N    int  // operands; 0: any number
	Pos  bool // needs positive operand values (Log, fractional Pow)
	NZ   bool // needs a non-zero last operand
	Lib  func(ts []tn) (tn, error)
	Ref  func(ts []ref.T) (ref.Out, bool)
}

func un(name string, lib func(x tn) tn, rf func(x ref.T) ref.Out) *Op {
	return &Op{Name: name, N: 1, Lib: func(ts []tn) (tn, error) { return lib(ts[0]), nil },
		Ref: func(ts []ref.T) (ref.Out, bool) { return rf(ts[0]), true }}
}

func opScale(a float64) *Op {
	return un(fmt.Sprintf("Scale(%v)", a), func(x tn) tn { return x.Scale(a) }, func(x ref.T) ref.Out { return ref.Scale(x, a) })
}

func opPow(a float64) *Op {
	o := un(fmt.Sprintf("Pow(%v)", a), func(x tn) tn { return x.Pow(a) }, func(x ref.T) ref.Out { return ref.Pow(x, a) })
	o.Pos = a != math.Trunc(a)
	return o
}

func libUnary(name string, x tn) tn {
	switch name {
	case "Exp":
		return x.Exp()
	case "Log":
		return x.Log()
	case "Sin":
		return x.Sin()
	case "Cos":
		return x.Cos()
	case "Tan":
		return x.Tan()
	case "Sinh":
		return x.Sinh()
	case "Cosh":
		return x.Cosh()
	case "Tanh":
		return x.Tanh()
	}
	panic(name)
}

func opUnary(name string) *Op {
	o := un(name, func(x tn) tn { return libUnary(name, x) }, func(x ref.T) ref.Out { return ref.Unary(name, x) })
	o.Pos = name == "Log"
	return o
}

func libBin(name string, a, b tn) (tn, error) {
	switch name {
	case "Add":
		return a.Add(b)
	case "Sub":
		return a.Sub(b)
	case "Mul":
		return a.Mul(b)
	case "Div":
		return a.Div(b)
	case "ElMax":
		return a.ElMax(b)
	case "ElMin":
		return a.ElMin(b)
	case "Dot":
		return a.Dot(b)
	case "MatMul":
		return a.MatMul(b)
	case "Eq":
		return a.Eq(b)
	case "Ne":
		return a.Ne(b)
	case "Gt":
		return a.Gt(b)
	case "Ge":
		return a.Ge(b)
	case "Lt":
		return a.Lt(b)
	case "Le":
		return a.Le(b)
	}
	panic(name)
}

// refBin computes a binary operation; ok says whether the shapes are valid for it.
func refBin(name string, a, b ref.T) (o ref.Out, ok bool) {
	switch name {
	case "Dot":
		if !ref.DotOK(a.S, b.S) {
			return
		}
		return ref.Dot(a, b), true
	case "MatMul":
		if !ref.MatMulOK(a.S, b.S) {
			return
		}
		return ref.MatMul(a, b), true
	case "Add", "Sub", "Mul", "Div":
		if _, ok := ref.BroadcastShapes(a.S, b.S); !ok {
			return o, false
		}
	default:
		if !ref.SameShape(a.S, b.S) {
			return o, false
		}
	}
	switch name {
	case "Add":
		o = ref.Add(a, b)
	case "Sub":
		o = ref.Sub(a, b)
	case "Mul":
		o = ref.Mul(a, b)
	case "Div":
		o = ref.Div(a, b)
	case "ElMax":
		o = ref.ElMax(a, b)
	case "ElMin":
		o = ref.ElMin(a, b)
	default:
		o.T = ref.Compare(name, a, b)
	}
	return o, true
}

func opBin(name string) *Op {
	return &Op{Name: name, N: 2, NZ: name == "Div", Lib: func(ts []tn) (tn, error) { return libBin(name, ts[0], ts[1]) },
		Ref: func(ts []ref.T) (ref.Out, bool) { return refBin(name, ts[0], ts[1]) }}
}

func ranges(rs []ref.Range) []tensor.Range {
	if rs == nil {
		return nil
	}
	r := make([]tensor.Range, len(rs))
	for i, x := range rs {
		r[i] = tensor.Range{From: x.From, To: x.To}
	}
	return r
}

func opSlice(rs []ref.Range) *Op {
	return &Op{Name: fmt.Sprintf("Slice(%v)", rs), N: 1, Lib: func(ts []tn) (tn, error) { return ts[0].Slice(ranges(rs)) },
		Ref: func(ts []ref.T) (o ref.Out, ok bool) {
			if !ref.SliceOK(ts[0].S, rs) {
				return
			}
			return ref.Slice(ts[0], rs), true
		}}
}

func opPatch(rs []ref.Range) *Op {
	return &Op{Name: fmt.Sprintf("Patch(%v)", rs), N: 2, Lib: func(ts []tn) (tn, error) { return ts[0].Patch(ranges(rs), ts[1]) },
		Ref: func(ts []ref.T) (o ref.Out, ok bool) {
			if !ref.PatchOK(ts[0].S, ts[1].S, rs) {
				return
			}
			return ref.Patch(ts[0], ts[1], rs), true
		}}
}

func opTranspose() *Op {
	return &Op{Name: "Transpose", N: 1, Lib: func(ts []tn) (tn, error) { return ts[0].Transpose() },
		Ref: func(ts []ref.T) (o ref.Out, ok bool) {
			if len(ts[0].S) < 2 {
				return
			}
			return ref.Transpose(ts[0]), true
		}}
}

func opReshape(s []int) *Op {
	return &Op{Name: fmt.Sprintf("Reshape(%v)", s), N: 1, Lib: func(ts []tn) (tn, error) { return ts[0].Reshape(ref.CopyInts(s)) },
		Ref: func(ts []ref.T) (o ref.Out, ok bool) {
			if ref.Prod(s) != len(ts[0].V) {
				return
			}
			return ref.Reshape(ts[0], s), true
		}}
}

func opUnSqueeze(d int) *Op {
	return &Op{Name: fmt.Sprintf("UnSqueeze(%d)", d), N: 1, Lib: func(ts []tn) (tn, error) { return ts[0].UnSqueeze(d) },
		Ref: func(ts []ref.T) (o ref.Out, ok bool) {
			if d > len(ts[0].S) {
				return
			}
			return ref.Reshape(ts[0], ref.UnSqueezeDims(ts[0].S, d)), true
		}}
}

func opSqueeze(d int) *Op {
	return &Op{Name: fmt.Sprintf("Squeeze(%d)", d), N: 1, Lib: func(ts []tn) (tn, error) { return ts[0].Squeeze(d) },
		Ref: func(ts []ref.T) (o ref.Out, ok bool) {
			if d >= len(ts[0].S) || ts[0].S[d] != 1 {
				return
			}
			return ref.Reshape(ts[0], ref.DropDim(ts[0].S, d)), true
		}}
}

func opFlatten(d int) *Op {
	return &Op{Name: fmt.Sprintf("Flatten(%d)", d), N: 1, Lib: func(ts []tn) (tn, error) { return ts[0].Flatten(d) },
		Ref: func(ts []ref.T) (o ref.Out, ok bool) {
			if d >= len(ts[0].S) {
				return
			}
			return ref.Reshape(ts[0], ref.FlattenDims(ts[0].S, d)), true
		}}
}

func opBroadcast(s []int) *Op {
	return &Op{Name: fmt.Sprintf("Broadcast(%v)", s), N: 1, Lib: func(ts []tn) (tn, error) { return ts[0].Broadcast(ref.CopyInts(s)) },
		Ref: func(ts []ref.T) (o ref.Out, ok bool) {
			if !ref.BroadcastOK(ts[0].S, s) {
				return
			}
			return ref.Broadcast(ts[0], s), true
		}}
}

func libAlong(name string, x tn, d int) (tn, error) {
	switch name {
	case "Sum":
		return x.SumAlong(d)
	case "Max":
		return x.MaxAlong(d)
	case "Min":
		return x.MinAlong(d)
	case "Avg":
		return x.AvgAlong(d)
	case "Var":
		return x.VarAlong(d)
	case "Std":
		return x.StdAlong(d)
	case "Mean":
		return x.MeanAlong(d)
	}
	panic(name)
}

func opAlong(name string, d int) *Op {
	return &Op{Name: fmt.Sprintf("%sAlong(%d)", name, d), N: 1, Lib: func(ts []tn) (tn, error) { return libAlong(name, ts[0], d) },
		Ref: func(ts []ref.T) (o ref.Out, ok bool) {
			if d >= len(ts[0].S) {
				return
			}
			return ref.Along(name, ts[0], d), true
		}}
}

func opConcat(d, n int) *Op {
	return &Op{Name: fmt.Sprintf("Concat(%d)", d), N: n, Lib: func(ts []tn) (tn, error) { return tensor.Concat(append([]tn{}, ts...), d) },
		Ref: func(ts []ref.T) (o ref.Out, ok bool) {
			ss := make([][]int, len(ts))
			for i := range ts {
				ss[i] = ts[i].S
			}
			if !ref.ConcatOK(ss, d) {
				return
			}
			return ref.Concat(ts, d), true
		}}
}

// concatPool calls f with three operands for Concat along d and every sequence of 2..maxN of them.
func concatPool(s []int, d, maxN int, short bool, f func(vs []ref.T, q []int)) {
	vs := make([]ref.T, 3)
	for i, n := range []int{s[d], s[d] + 1, 1} {
		q := ref.CopyInts(s)
		q[d] = n
		vs[i] = mixed(q, 5*i+1)
	}
	if short {
		maxN = 3
	}
	for n := 2; n <= maxN; n++ {
		tuples(3, n, func(q []int) bool { f(vs, q); return true })
	}
}

/* ---------- programs: DAGs of operations over leaves ---------- */

type Node struct {
	Op *Op
	In []int // tensor indices: leaves first, then earlier nodes
}

type Prog struct {
	Leaves  []ref.T
	Tracked []bool // per leaf
	Nodes   []Node
}

func (p *Prog) String() string {
	var b strings.Builder
	for i, l := range p.Leaves {
		tr := ""
		if p.Tracked[i] {
			tr = "*"
		}
		fmt.Fprintf(&b, "t%d%s=%v ", i, tr, l.S)
	}
	for i, n := range p.Nodes {
		fmt.Fprintf(&b, "t%d=%s%v ", len(p.Leaves)+i, n.Op.Name, n.In)
	}
	return strings.TrimSpace(b.String())
}

// Eval is the reference evaluation of a program.
type Eval struct {
	Vals    []ref.T
	Outs    []ref.Out // per node
	Tracked []bool
	OK      bool // all shapes valid
	Smooth  bool // differentiable and numerically tame everywhere
}

func (p *Prog) ref() *Eval {
	e := &Eval{OK: true, Smooth: true}
	e.Vals = append(e.Vals, p.Leaves...)
	e.Tracked = append(e.Tracked, p.Tracked...)
	for _, n := range p.Nodes {
		in := make([]ref.T, len(n.In))
		tr := false
		for i, k := range n.In {
			in[i] = e.Vals[k]
			tr = tr || e.Tracked[k]
		}
		o, ok := n.Op.Ref(in)
		if !ok {
			e.OK = false
			return e
		}
		if o.ND || !finite(o.V) || maxAbs(o.V) > 1e12 {
			e.Smooth = false
		}
		for _, row := range o.J {
			for _, t := range row {
				if !(math.Abs(t.C) <= 1e12) {
					e.Smooth = false
				}
			}
		}
		e.Outs = append(e.Outs, o)
		e.Vals = append(e.Vals, o.T)
		e.Tracked = append(e.Tracked, tr)
	}
	return e
}

// grads accumulates the derivative of sum(tensor root) onto g/m (per tensor, nil if none yet).
func (p *Prog) grads(e *Eval, root int, g, m [][]float64) {
	if !e.Tracked[root] {
		return
	}
	nl := len(p.Leaves)
	loc := make([][]float64, len(e.Vals))
	lm := make([][]float64, len(e.Vals))
	loc[root] = ref.Full(e.Vals[root].S, 1).V
	lm[root] = ref.Full(e.Vals[root].S, 1).V
	for k := root; k >= 0; k-- {
		if loc[k] == nil {
			continue
		}
		if g[k] == nil {
			g[k], m[k] = make([]float64, len(loc[k])), make([]float64, len(loc[k]))
		}
		for i := range loc[k] {
			g[k][i] += loc[k][i]
			m[k][i] += lm[k][i]
		}
		if k < nl {
			continue
		}
		n := p.Nodes[k-nl]
		in := make([]ref.T, len(n.In))
		for i, j := range n.In {
			in[i] = e.Vals[j]
		}
		gs, ms := ref.VJP(e.Outs[k-nl], in, loc[k], lm[k])
		for i, j := range n.In {
			if !e.Tracked[j] {
				continue
			}
			if loc[j] == nil {
				loc[j], lm[j] = make([]float64, len(gs[i])), make([]float64, len(gs[i]))
			}
			for q := range gs[i] {
				loc[j][q] += gs[i][q]
				lm[j][q] += ms[i][q]
			}
		}
	}
}

// lib builds the program in the library.
func (p *Prog) lib(c *eng.C) []tn {
	ts := make([]tn, 0, len(p.Leaves)+len(p.Nodes))
	for i, l := range p.Leaves {
		c.Op("t%d = TensorOf(%v) tracked=%v", i, l, p.Tracked[i])
		ts = append(ts, mk(c, l, p.Tracked[i]))
	}
	return p.libNodes(c, ts)
}

func (p *Prog) libNodes(c *eng.C, ts []tn) []tn {
	for _, n := range p.Nodes {
		in := make([]tn, len(n.In))
		for i, k := range n.In {
			in[i] = ts[k]
		}
		c.Op("t%d = %s%v", len(ts), n.Op.Name, n.In)
		y, err := n.Op.Lib(in)
		if err != nil {
			c.Fail("t%d = %s%v failed: %v", len(ts), n.Op.Name, n.In, err)
		}
		if y == nil {
			c.Fail("t%d = %s%v returned nil", len(ts), n.Op.Name, n.In)
		}
		ts = append(ts, y)
	}
	return ts
}

// checkGrads compares every tensor's Gradient with the expectation (nil: must be nil).
func checkGrads(c *eng.C, e *Eval, ts []tn, g, m [][]float64) {
	for k, t := range ts {
		gr := t.Gradient()
		if g[k] == nil {
			if gr != nil {
				c.Fail("t%d got a gradient although it is untracked or not part of the back-propagated graph", k)
			}
			continue
		}
		if gr == nil {
			c.Fail("t%d is tracked and part of the back-propagated graph but has no gradient", k)
		}
		checkT(c, fmt.Sprintf("gradient of t%d", k), gr, ref.T{S: e.Vals[k].S, V: g[k]}, m[k])
	}
}

func bp(c *eng.C, what string, t tn) {
	c.Op("BackPropagate(%s)", what)
	if err := tensor.BackPropagate(t); err != nil {
		c.Fail("BackPropagate(%s) failed: %v", what, err)
	}
}

func ints(s []int) string { return strings.ReplaceAll(fmt.Sprint(s), " ", ",") }

func bpErr(t tn) error { return tensor.BackPropagate(t) }
