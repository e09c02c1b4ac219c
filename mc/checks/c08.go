package checks

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verifmc/eng"
	"verifmc/ref"
)

/* ---------- the tracking machine (model) ---------- */

// status of a tensor. sTaint: untracked for certain, but computed from spent tensors by a comparison, or a gradient
// tensor; the specification does not say whether mixing it with a fresh tracked tensor is tracked. sAmb: such a mix.
type status byte

const (
	sU status = iota // untracked
	sT               // tracked
	sS               // tracked, already part of a back-propagation
	sD               // computed from a spent tensor
	sTaint
	sAmb
)

var statusName = []string{"untracked", "tracked", "spent", "of-spent", "tainted", "ambiguous"}

type gradSt byte

const (
	gNone gradSt = iota
	gKnown
	gUnknown // non-nil, value not specified
)

type tact struct {
	kind    string
	a, b    int
	tracked bool
}

func (a tact) String() string {
	switch a.kind {
	case "new":
		return fmt.Sprintf("new(tracked=%v)", a.tracked)
	case "reset":
		return fmt.Sprintf("t%d.ResetGradContext(%v)", a.a, a.tracked)
	case "bp":
		return fmt.Sprintf("BackPropagate(t%d)", a.a)
	case "grad":
		return fmt.Sprintf("take t%d.Gradient()", a.a)
	case "scale":
		return fmt.Sprintf("t%d.Scale", a.a)
	}
	return fmt.Sprintf("%s(t%d,t%d)", a.kind, a.a, a.b)
}

func actsS(h []tact) (s string) {
	for i, a := range h {
		if i > 0 {
			s += "; "
		}
		s += a.String()
	}
	return
}

type tnode struct {
	st     status
	op     string
	in     [2]int8
	nin    int8
	etr    [2]bool // operand was tracked when the result was computed
	edges  bool    // the graph below is reachable
	isGrad bool
	v      [2]float64
	g      gradSt
	gv     [2]float64
	gm     [2]float64
}

type tmach struct{ n []tnode }

const leafK = 0.61803398875

func leafV(i int) [2]float64 {
	return [2]float64{0.6 + math.Mod(float64(i+1)*leafK, 0.9), -0.5 - math.Mod(float64(i+2)*leafK, 0.9)}
}

func (m *tmach) clone() *tmach { return &tmach{append(make([]tnode, 0, len(m.n)+1), m.n...)} }

// enabled actions; maxT bounds the pool.
func (m *tmach) enabled(maxT int, f func(a tact)) {
	n := len(m.n)
	for i := 0; i < n; i++ {
		if m.n[i].st != sAmb && !m.stale(i) {
			f(tact{kind: "bp", a: i})
		}
		if !m.n[i].isGrad {
			f(tact{kind: "reset", a: i, tracked: true})
			f(tact{kind: "reset", a: i, tracked: false})
		}
	}
	if n >= maxT {
		return
	}
	for i := 0; i < n; i++ {
		f(tact{kind: "scale", a: i})
		for j := 0; j < n; j++ {
			f(tact{kind: "mul", a: i, b: j})
			if j > i {
				f(tact{kind: "gt", a: i, b: j})
			}
		}
		if m.n[i].g != gNone {
			dup := false
			for _, x := range m.n {
				if x.op == "grad" && int(x.in[0]) == i && x.g == gNone {
					dup = dup || x.v == m.n[i].gv
				}
			}
			if !dup {
				f(tact{kind: "grad", a: i})
			}
		}
	}
	f(tact{kind: "new", tracked: true})
	f(tact{kind: "new", tracked: false})
}

// stale: back-propagating from root would meet a tensor that was untracked when its result was computed and tracked
// by a later ResetGradContext(true). Whether it takes part is not specified.
func (m *tmach) stale(root int) bool {
	tr := func(i int) bool { return m.n[i].st == sT || m.n[i].st == sS || m.n[i].st == sAmb }
	x := &m.n[root]
	if !tr(root) || !x.edges {
		return false
	}
	for q := 0; q < int(x.nin); q++ {
		if j := int(x.in[q]); tr(j) && (!x.etr[q] || m.stale(j)) {
			return true
		}
	}
	return false
}

func (m *tmach) tracked(i int) bool { return m.n[i].st == sT || m.n[i].st == sS }

func (m *tmach) resultStatus(cmp bool, in ...int) status {
	bad, taint, amb, tr := false, false, false, false
	for _, i := range in {
		switch m.n[i].st {
		case sS, sD:
			bad = true
		case sTaint:
			taint = true
		case sAmb:
			amb = true
		case sT:
			tr = true
		}
	}
	switch {
	case cmp && (bad || taint || amb):
		return sTaint
	case cmp:
		return sU
	case bad:
		return sD
	case amb, taint && tr:
		return sAmb
	case tr:
		return sT
	case taint:
		return sTaint
	}
	return sU
}

// apply performs the model transition.
func (m *tmach) apply(a tact) {
	switch a.kind {
	case "new":
		st := sU
		if a.tracked {
			st = sT
		}
		m.n = append(m.n, tnode{st: st, op: "leaf", v: leafV(len(m.n))})
	case "reset":
		x := &m.n[a.a]
		x.st = sU
		if a.tracked {
			x.st = sT
		}
		x.edges = false
		x.g, x.gv, x.gm = gNone, [2]float64{}, [2]float64{}
	case "scale":
		x := m.n[a.a]
		st := m.resultStatus(false, a.a)
		m.n = append(m.n, tnode{st: st, op: "scale", in: [2]int8{int8(a.a)}, nin: 1, etr: [2]bool{m.tracked(a.a)}, edges: st == sT || st == sAmb, v: [2]float64{-1.25 * x.v[0], -1.25 * x.v[1]}})
	case "mul", "gt":
		x, y := m.n[a.a], m.n[a.b]
		st := m.resultStatus(a.kind == "gt", a.a, a.b)
		nd := tnode{st: st, op: a.kind, in: [2]int8{int8(a.a), int8(a.b)}, nin: 2, etr: [2]bool{m.tracked(a.a), m.tracked(a.b)}, edges: st == sT || st == sAmb}
		for k := range nd.v {
			if a.kind == "mul" {
				nd.v[k] = x.v[k] * y.v[k]
			} else if math.IsNaN(x.v[k]) || math.IsNaN(y.v[k]) {
				nd.v[k] = math.NaN()
			} else if x.v[k] > y.v[k] {
				nd.v[k] = 1
			}
		}
		m.n = append(m.n, nd)
	case "grad":
		x := m.n[a.a]
		m.n = append(m.n, tnode{st: sTaint, op: "grad", in: [2]int8{int8(a.a)}, isGrad: true, v: x.gv})
		if x.g == gUnknown {
			m.n[len(m.n)-1].v = [2]float64{math.NaN(), math.NaN()}
		}
	case "bp":
		m.bp(a.a)
	}
}

func (m *tmach) bp(root int) {
	tr := func(i int) bool { return m.n[i].st == sT || m.n[i].st == sS }
	if !tr(root) {
		return
	}
	// reachable tracked tensors, and per tensor the derivative
	n := len(m.n)
	reach := make([]bool, n)
	unk := make([]bool, n)
	d := make([][2]float64, n)
	mg := make([][2]float64, n)
	reach[root] = true
	d[root], mg[root] = [2]float64{1, 1}, [2]float64{1, 1}
	for i := root; i >= 0; i-- {
		if !reach[i] {
			continue
		}
		x := m.n[i]
		if x.edges && x.g != gNone {
			unk[i] = true // already had a gradient and passes it on: value unspecified
		}
		if !x.edges {
			continue
		}
		for q := 0; q < int(x.nin); q++ {
			j := int(x.in[q])
			if !tr(j) {
				continue
			}
			reach[j] = true
			unk[j] = unk[j] || unk[i]
			for k := range d[j] {
				f := -1.25
				if x.op == "mul" {
					f = m.n[x.in[1-q]].v[k]
				}
				unk[j] = unk[j] || math.IsNaN(f)
				d[j][k] += f * d[i][k]
				mg[j][k] += math.Abs(f) * mg[i][k]
			}
		}
	}
	for i := range reach {
		if !reach[i] {
			continue
		}
		x := &m.n[i]
		x.st = sS
		switch {
		case unk[i] || x.g == gUnknown:
			x.g, x.gv, x.gm = gUnknown, [2]float64{}, [2]float64{}
		default:
			x.g = gKnown
			for k := range x.gv {
				x.gv[k] += d[i][k]
				x.gm[k] += mg[i][k]
			}
		}
	}
}

func (m *tmach) hash() uint64 {
	h := eng.NewHasher()
	for _, x := range m.n {
		h.I(int(x.st)).S(x.op).I(int(x.in[0])).I(int(x.in[1])).I(int(x.g))
		if x.edges {
			h.I(7)
			for _, b := range x.etr {
				if b {
					h.I(1)
				} else {
					h.I(2)
				}
			}
		}
		if x.g == gKnown {
			h.F(x.gv[0]).F(x.gv[1])
		}
		if x.op == "grad" {
			h.F(x.v[0])
		}
	}
	return h.Sum()
}

/* ---------- the implementation under the same actions ---------- */

type tlib struct {
	t []tn
	v [][2]float64 // forward values when created
}

func (l *tlib) apply(c *eng.C, a tact) {
	c.Op("%v", a)
	var y tn
	var err error
	switch a.kind {
	case "new":
		v := leafV(len(l.t))
		y, err = tensor.TensorOf([]float64{v[0], v[1]}, conf(a.tracked))
	case "reset":
		l.t[a.a].ResetGradContext(a.tracked)
		return
	case "bp":
		if err := tensor.BackPropagate(l.t[a.a]); err != nil {
			c.Fail("BackPropagate(t%d) failed: %v", a.a, err)
		}
		return
	case "scale":
		y = l.t[a.a].Scale(-1.25)
	case "mul":
		y, err = l.t[a.a].Mul(l.t[a.b])
	case "gt":
		y, err = l.t[a.a].Gt(l.t[a.b])
	case "grad":
		y = l.t[a.a].Gradient()
		if y == nil {
			c.Fail("t%d has no gradient", a.a)
		}
	}
	if err != nil {
		c.Fail("%v failed: %v", a, err)
	}
	if y == nil {
		c.Fail("%v returned nil", a)
	}
	l.t = append(l.t, y)
	l.v = append(l.v, val2(c, y))
}

func val2(c *eng.C, y tn) (v [2]float64) {
	var e0, e1 error
	v[0], e0 = y.At(0)
	v[1], e1 = y.At(1)
	if e0 != nil || e1 != nil || y.NElems() != 2 {
		c.Fail("expected a tensor of shape [2], got %v", y.Shape())
	}
	return
}

// compare checks every observable of every tensor against the model.
func (l *tlib) compare(c *eng.C, m *tmach) {
	for i := range m.n {
		x := &m.n[i]
		v := val2(c, l.t[i])
		if v != l.v[i] && !(math.IsNaN(v[0]) || math.IsNaN(v[1])) {
			c.Fail("t%d changed its elements from %v to %v", i, l.v[i], v)
		}
		if !math.IsNaN(x.v[0]) {
			for k := range v {
				if math.Abs(v[k]-x.v[k]) > 1e-9*(1+math.Abs(x.v[k])) {
					if x.op != "grad" {
						c.Fail("t%d (%s) holds %v, expected %v", i, x.op, v, x.v)
					}
				}
			}
		} else {
			x.v = v // a gradient whose value is unspecified: take what it is
		}
		gr := l.t[i].Gradient()
		switch {
		case x.isGrad:
			if gr != nil {
				c.Fail("t%d is a gradient tensor and must be untracked, but it has a gradient", i)
			}
		case x.g == gNone:
			if gr != nil {
				c.Fail("t%d (%s) must not have a gradient", i, statusName[x.st])
			}
		case gr == nil:
			c.Fail("t%d must have a gradient: it is tracked and the back-propagated result was computed from it", i)
		default:
			g := val2(c, gr)
			if x.g == gKnown {
				for k := range g {
					if !eqF(g[k], x.gv[k], x.gm[k]) {
						c.Fail("t%d has gradient %v, expected %v", i, g, x.gv)
					}
				}
			}
			if gr.Gradient() != nil {
				c.Fail("the gradient tensor of t%d has a gradient itself", i)
			}
		}
	}
	c.AddValues(len(m.n))
}

func runHist(c *eng.C, init []tact, h []tact, each bool) {
	m, l := &tmach{}, &tlib{}
	all := append(append([]tact{}, init...), h...)
	for i, a := range all {
		m.apply(a)
		l.apply(c, a)
		if each && i >= len(init) || i == len(all)-1 {
			l.compare(c, m)
		}
	}
	c.Validated()
}

// allHist runs every history of exactly depth actions (no state merging).
func allHist(w *eng.W, name string, init []tact, maxT, depth int) {
	base := &tmach{}
	for _, a := range init {
		base.apply(a)
	}
	var rec func(m *tmach, h []tact, d int, f func(h []tact))
	rec = func(m *tmach, h []tact, d int, f func(h []tact)) {
		if d == 0 {
			f(h)
			return
		}
		m.enabled(maxT, func(a tact) {
			if w.Stopped() {
				return
			}
			m2 := m.clone()
			m2.apply(a)
			rec(m2, append(h, a), d-1, f)
		})
	}
	split := 2
	if depth < 3 {
		split = 1
	}
	rec(base, nil, split, func(pre []tact) {
		pre = append([]tact{}, pre...)
		w.Case(func() string { return fmt.Sprintf("%s: %s; + every %d actions", name, actsS(pre), depth-split) }, func(c *eng.C) {
			m := base.clone()
			for _, a := range pre {
				m.apply(a)
			}
			rec(m, append([]tact{}, pre...), depth-split, func(h []tact) {
				c.Beat()
				runHist(c, init, h, true)
				c.Outcome("histories")
			})
		})
	})
}

// bfs explores the model's reachable states up to depth with merging of equal states and replays every transition.
func bfs(w *eng.W, name string, init []tact, maxT, depth, maxStates int) {
	base := &tmach{}
	for _, a := range init {
		base.apply(a)
	}
	type rec struct {
		parent int32
		a      tact
	}
	recs := []rec{{-1, tact{}}}
	seen := map[uint64]bool{base.hash(): true}
	path := func(i int32) (h []tact) {
		for ; recs[i].parent >= 0; i = recs[i].parent {
			h = append(h, recs[i].a)
		}
		for x, y := 0, len(h)-1; x < y; x, y = x+1, y-1 {
			h[x], h[y] = h[y], h[x]
		}
		return
	}
	model := func(h []tact) *tmach {
		m := base.clone()
		for _, a := range h {
			m.apply(a)
		}
		return m
	}
	frontier := []int32{0}
	for d := 0; d < depth && len(frontier) > 0; d++ {
		var next []int32
		for _, f := range frontier {
			if w.Stopped() {
				return
			}
			h := path(f)
			m := model(h)
			var as []tact
			m.enabled(maxT, func(a tact) { as = append(as, a) })
			w.Case(func() string { return fmt.Sprintf("%s: every action after [%s]", name, actsS(h)) }, func(c *eng.C) {
				c.State(m.hash())
				for _, a := range as {
					runHist(c, init, append(append([]tact{}, h...), a), false)
					m2 := m.clone()
					m2.apply(a)
					c.State(m2.hash())
				}
				c.Outcome("states expanded")
			})
			if d == depth-1 {
				continue
			}
			for _, a := range as {
				m2 := m.clone()
				m2.apply(a)
				k := m2.hash()
				if !seen[k] {
					seen[k] = true
					if len(recs) >= maxStates {
						w.Incomplete(fmt.Sprintf("%s: state limit %d reached at depth %d", name, maxStates, d+1))
						return
					}
					recs = append(recs, rec{f, a})
					next = append(next, int32(len(recs)-1))
				}
			}
		}
		frontier = next
	}
}

/* ---------- every operation x operand statuses ---------- */

// operand builds an operand of the wanted kind and the tensors that stand for its old and new graph.
type operand struct {
	x       tn
	tracked bool // counts as tracked
	spoilt  bool // spent or computed from spent
	live    []tn // get a gradient when a result computed from x is back-propagated
	dead    []tn // must keep exactly their gradient
	deadG   []ref.T
}

var operandKinds = []string{"untracked leaf", "untracked result", "tracked leaf", "tracked result", "tracked result of a mix", "spent leaf", "spent result", "result of spent",
	"comparison result", "reset to tracked", "reset to untracked", "spent result reset to tracked", "spent root reset to untracked"}

func mkOperand(c *eng.C, kind int, v ref.T) (o operand) {
	half := mapT(v, func(_ int, x float64) float64 { return x / 2 })
	dead := func(ts ...tn) {
		for _, t := range ts {
			o.dead = append(o.dead, t)
			if g := t.Gradient(); g != nil {
				o.deadG = append(o.deadG, get(c, "gradient", g))
			} else {
				o.deadG = append(o.deadG, ref.T{})
			}
		}
	}
	switch kind {
	case 0:
		o.x = mk(c, v, false)
		dead(o.x)
	case 1:
		l := mk(c, half, false)
		o.x = l.Scale(2)
		dead(o.x, l)
	case 2:
		o.x, o.tracked = mk(c, v, true), true
		o.live = []tn{o.x}
	case 3:
		l := mk(c, half, true)
		o.x, o.tracked = l.Scale(2), true
		o.live = []tn{o.x, l}
	case 4:
		l, u := mk(c, half, true), mk(c, half, false)
		x, err := l.Add(u)
		must(c, "Add", x, err)
		o.x, o.tracked = x, true
		o.live = []tn{o.x, l}
		dead(u)
	case 5:
		o.x, o.spoilt = mk(c, v, true), true
		y := o.x.Scale(3)
		bp(c, "old graph", y)
		dead(o.x, y)
	case 6:
		l := mk(c, half, true)
		o.x, o.spoilt = l.Scale(2), true
		y := o.x.Scale(3)
		bp(c, "old graph", y)
		dead(o.x, y, l)
	case 7:
		l := mk(c, half, true)
		y := l.Scale(3)
		bp(c, "old graph", y)
		o.x, o.spoilt = l.Scale(2), true
		dead(o.x, y, l)
	case 8: // (x >= x) * value: the comparison result has all ones
		l := mk(c, v, true)
		cm, err := l.Ge(l)
		must(c, "Ge", cm, err)
		y, err := cm.Mul(mk(c, v, false))
		must(c, "Mul", y, err)
		o.x = y
		dead(o.x, cm, l)
	case 9:
		o.x, o.tracked = mk(c, v, false), true
		o.x.ResetGradContext(true)
		o.live = []tn{o.x}
	case 10:
		l := mk(c, half, true)
		o.x = l.Scale(2)
		o.x.ResetGradContext(false)
		dead(o.x, l)
	case 11:
		l := mk(c, half, true)
		o.x, o.tracked = l.Scale(2), true
		bp(c, "old graph", o.x.Scale(3))
		o.x.ResetGradContext(true)
		if o.x.Gradient() != nil {
			c.Fail("gradient survives ResetGradContext(true)")
		}
		o.live = []tn{o.x}
		dead(l)
	case 12:
		l := mk(c, half, true)
		o.x = l.Scale(2)
		bp(c, "old graph", o.x)
		o.x.ResetGradContext(false)
		if o.x.Gradient() != nil {
			c.Fail("gradient survives ResetGradContext(false)")
		}
		dead(o.x, l)
	}
	return
}

func (o *operand) check(c *eng.C, what string, bped bool) {
	for i, t := range o.live {
		g := t.Gradient()
		if bped && g == nil {
			c.Fail("%s: tracked tensor %d of the graph got no gradient", what, i)
		}
		if !bped && g != nil {
			c.Fail("%s: tensor %d got a gradient without a back-propagation through it", what, i)
		}
		if g != nil {
			if !ref.SameShape(g.Shape(), t.Shape()) {
				c.Fail("%s: gradient shape %v on a tensor of shape %v", what, g.Shape(), t.Shape())
			}
			if err := tensor.BackPropagate(g); err != nil || g.Gradient() != nil {
				c.Fail("%s: gradient tensors must be untracked (err %v)", what, err)
			}
		}
	}
	for i, t := range o.dead {
		g := t.Gradient()
		if (g == nil) != (o.deadG[i].V == nil) {
			c.Fail("%s: tensor %d outside the graph: gradient nil-ness changed (now nil: %v)", what, i, g == nil)
		}
		if g != nil {
			checkBits(c, what+": gradient outside the graph", g, o.deadG[i])
		}
	}
}

// statusCase applies lib to operands of the given kinds and checks what the result's tracking does. cmp: the result is
// untracked in any case.
func statusCase(c *eng.C, name string, vals []ref.T, kinds []int, cmp bool, lib func(ts []tn) (tn, error), base *ref.T) {
	os := make([]operand, len(vals))
	ts := make([]tn, len(vals))
	tr, sp := false, false
	for i := range vals {
		os[i] = mkOperand(c, kinds[i], vals[i])
		ts[i] = os[i].x
		tr = tr || os[i].tracked
		sp = sp || os[i].spoilt
	}
	names := make([]string, len(kinds))
	for i, k := range kinds {
		names[i] = operandKinds[k]
	}
	what := fmt.Sprintf("%s on (%v)", name, names)
	c.Op("%s", what)
	y, err := lib(ts)
	must(c, what, y, err)
	out := get(c, what, y)
	if base.V == nil {
		*base = out
	} else {
		checkBits(c, what+": tracking changes the forward value", y, *base)
	}
	if y.Gradient() != nil {
		c.Fail("%s: the result has a gradient before any back-propagation", what)
	}
	for i := range os {
		os[i].check(c, what+" before BackPropagate", false)
	}
	tracked := tr && !sp && !cmp
	// one op further, to see that tracking goes on
	z := y.Scale(1.5)
	c.Op("BackPropagate(result.Scale)")
	if err := tensor.BackPropagate(z); err != nil {
		c.Fail("%s: BackPropagate failed: %v", what, err)
	}
	if (y.Gradient() != nil) != tracked || (z.Gradient() != nil) != tracked {
		c.Fail("%s: result tracked=%v, and a result of it tracked=%v; expected %v", what, y.Gradient() != nil, z.Gradient() != nil, tracked)
	}
	for i := range os {
		os[i].check(c, what, tracked)
	}
	if tracked {
		// now spent: a new result is untracked and reaches nothing
		var before []tn
		for i := range os {
			for _, t := range os[i].live {
				before = append(before, t.Gradient())
			}
		}
		y2, err := lib(ts)
		must(c, what, y2, err)
		checkBits(c, what+": second application", y2, out)
		if err := tensor.BackPropagate(y2); err != nil || y2.Gradient() != nil {
			c.Fail("%s applied again to the now spent operands: result must be untracked (err %v)", what, err)
		}
		k := 0
		for i := range os {
			for _, t := range os[i].live {
				if t.Gradient() != before[k] {
					c.Fail("%s: a result of spent tensors reached the old graph", what)
				}
				k++
			}
		}
	}
	// a reset result is a fresh leaf
	y.ResetGradContext(true)
	if y.Gradient() != nil {
		c.Fail("%s: gradient survives ResetGradContext", what)
	}
	var gb []tn
	for i := range os {
		for _, t := range append(append([]tn{}, os[i].live...), os[i].dead...) {
			gb = append(gb, t.Gradient())
		}
	}
	z = y.Scale(1.5)
	if err := tensor.BackPropagate(z); err != nil {
		c.Fail("%s: BackPropagate from a reset result failed: %v", what, err)
	}
	if y.Gradient() == nil || z.Gradient() == nil {
		c.Fail("%s: result reset to a tracked leaf gets no gradient", what)
	}
	k := 0
	for i := range os {
		for _, t := range append(append([]tn{}, os[i].live...), os[i].dead...) {
			if t.Gradient() != gb[k] {
				c.Fail("%s: back-propagation from a reset result reached its old graph", what)
			}
			k++
		}
	}
	checkBits(c, what+": forward value after all this", y, out)
	c.Validated()
	if tracked {
		c.Outcome("result tracked")
	} else {
		c.Outcome("result untracked")
	}
}

var cmpNames = []string{"Eq", "Ne", "Gt", "Ge", "Lt", "Le"}

func statusMatrix(w *eng.W) {
	type item struct {
		name string
		vals []ref.T
		cmp  bool
		lib  func(ts []tn) (tn, error)
	}
	sm, _ := activations.NewSoftmax(nil)
	var items []item
	for _, s := range [][]int{{2, 2}, {1}, {2, 1, 3}, {}} {
		for _, in := range allInst(s) {
			items = append(items, item{in.String(), instVals(in), false, in.O.Lib})
		}
		for _, n := range cmpNames {
			n := n
			items = append(items, item{n + " " + ints(s), []ref.T{tame(s, 0), tame(s, 1)}, true, func(ts []tn) (tn, error) { return libBin(n, ts[0], ts[1]) }})
		}
	}
	// neutral operands: a result is a tensor of its own even where it has the value of an operand
	for _, s := range [][]int{{2, 2}, {3}, {}} {
		con := func(v float64) ref.T { return mapT(tame(s, 0), func(int, float64) float64 { return v }) }
		for _, q := range []struct {
			op string
			v  float64
		}{{"Add", 0}, {"Sub", 0}, {"Mul", 1}, {"Mul", 0}, {"Div", 1}, {"ElMax", -100}, {"ElMin", 100}, {"ElMax", 100}, {"ElMin", -100}} {
			f := func(ts []tn) (tn, error) { return libBin(q.op, ts[0], ts[1]) }
			items = append(items, item{fmt.Sprintf("%s %v by %v", q.op, s, q.v), []ref.T{tame(s, 0), con(q.v)}, false, f})
			items = append(items, item{fmt.Sprintf("%s %v by %v, swapped", q.op, s, q.v), []ref.T{con(q.v), positive(tame(s, 0))}, false, f})
		}
	}
	eye := ref.Of([]int{2, 2}, 1, 0, 0, 1)
	items = append(items,
		item{"MatMul by the identity", []ref.T{tame([]int{2, 2}, 0), eye}, false, func(ts []tn) (tn, error) { return ts[0].MatMul(ts[1]) }},
		item{"MatMul of the identity", []ref.T{eye, tame([]int{2, 2}, 0)}, false, func(ts []tn) (tn, error) { return ts[0].MatMul(ts[1]) }},
		item{"Broadcast to the own shape", []ref.T{tame([]int{2, 3}, 0)}, false, func(ts []tn) (tn, error) { return ts[0].Broadcast([]int{2, 3}) }},
		item{"Broadcast of a scalar to []", []ref.T{tame(nil, 0)}, false, func(ts []tn) (tn, error) { return ts[0].Broadcast(nil) }},
		item{"Slice of everything by explicit ranges", []ref.T{tame([]int{2, 3}, 0)}, false, func(ts []tn) (tn, error) { return ts[0].Slice([]tensor.Range{{From: 0, To: 2}, {From: 0, To: 3}}) }},
	)
	for _, v := range []float64{0, 1, -1} {
		items = append(items, item{fmt.Sprintf("Relu of constants %v", v), []ref.T{ref.Of([]int{2}, v, v)}, false, func(ts []tn) (tn, error) { return activations.NewRelu().Forward(ts[0]) }},
			item{fmt.Sprintf("LeakyRelu(1) of constants %v", v), []ref.T{ref.Of([]int{2}, v, v)}, false, func(ts []tn) (tn, error) {
				return activations.NewLeakyRelu(&activations.LeakyReluConfig{M: 1}).Forward(ts[0])
			}},
			item{fmt.Sprintf("Softmax of one, %v", v), []ref.T{ref.Of([]int{1}, v)}, false, func(ts []tn) (tn, error) { return sm.Forward(ts[0]) }})
	}
	// implicit expansion
	for _, p := range [][2][]int{{{2, 3}, {3}}, {{3}, {2, 3}}, {{}, {2}}, {{2, 1}, {1, 3}}, {{1}, {2, 2}}} {
		for _, n := range []string{"Add", "Sub", "Mul", "Div"} {
			n := n
			items = append(items, item{fmt.Sprintf("%s %v %v", n, p[0], p[1]), []ref.T{tame(p[0], 0), positive(tame(p[1], 1))}, false, func(ts []tn) (tn, error) { return libBin(n, ts[0], ts[1]) }})
		}
	}
	items = append(items,
		item{"MatMul [2,2,2] [2,2]", []ref.T{tame([]int{2, 2, 2}, 0), tame([]int{2, 2}, 1)}, false, func(ts []tn) (tn, error) { return ts[0].MatMul(ts[1]) }},
		item{"MatMul [2,2] [2,2,2]", []ref.T{tame([]int{2, 2}, 0), tame([]int{2, 2, 2}, 1)}, false, func(ts []tn) (tn, error) { return ts[0].MatMul(ts[1]) }},
		item{"Dot [3] [2,3]", []ref.T{tame([]int{3}, 0), tame([]int{2, 3}, 1)}, false, func(ts []tn) (tn, error) { return ts[0].Dot(ts[1]) }},
		item{"Broadcast [3] -> [2,3]", []ref.T{tame([]int{3}, 0)}, false, func(ts []tn) (tn, error) { return ts[0].Broadcast([]int{2, 3}) }},
		item{"Concat of 3", []ref.T{tame([]int{2, 2}, 0), tame([]int{1, 2}, 1), tame([]int{3, 2}, 2)}, false, func(ts []tn) (tn, error) { return tensor.Concat(ts, 0) }},
	)
	// components
	actItem := func(name string, f func(xs ...tn) (tn, error), s []int) {
		items = append(items, item{name, []ref.T{tame(s, 0)}, false, func(ts []tn) (tn, error) { return f(ts[0]) }})
	}
	sm1, _ := activations.NewSoftmax(&activations.SoftmaxConfig{Dim: 1})
	for _, s := range [][]int{{3}, {2, 3}} {
		actItem("Relu", activations.NewRelu().Forward, s)
		actItem("LeakyRelu", activations.NewLeakyRelu(nil).Forward, s)
		actItem("Sigmoid", activations.NewSigmoid().Forward, s)
		actItem("Tanh", activations.NewTanh().Forward, s)
		actItem("Softmax", sm.Forward, s)
	}
	actItem("Softmax(1)", sm1.Forward, []int{2, 3})
	items = append(items, item{"FC(x, W, B)", []ref.T{tame([]int{2, 3}, 0), tame([]int{2}, 1), tame([]int{2}, 2)}, false, func(ts []tn) (tn, error) {
		fc := &layers.FC{Weight: ts[1], Bias: ts[2]}
		return fc.Forward(ts[0])
	}})
	prob := func(s []int, k int) ref.T { return generic(s, k, 0.15, 0.85) }
	items = append(items,
		item{"MSE", []ref.T{prob([]int{3}, 0), prob([]int{3}, 1)}, false, func(ts []tn) (tn, error) { return losses.NewMSE().Compute(ts[0], ts[1]) }},
		item{"BCE", []ref.T{prob([]int{3}, 0), prob([]int{3}, 1)}, false, func(ts []tn) (tn, error) { return losses.NewBCE().Compute(ts[0], ts[1]) }},
		item{"CE", []ref.T{prob([]int{2, 3}, 0), prob([]int{2, 3}, 1)}, false, func(ts []tn) (tn, error) { return losses.NewCE().Compute(ts[0], ts[1]) }})

	w.Section("every operation x operand statuses")
	for _, it := range items {
		it := it
		w.Case(func() string { return it.name }, func(c *eng.C) {
			var base ref.T
			nk := len(operandKinds)
			kinds := make([]int, len(it.vals))
			tuples(nk, len(it.vals), func(t []int) bool {
				if len(t) == 3 { // three operands: a reduced set of kinds
					for _, k := range t {
						if k != 0 && k != 2 && k != 3 && k != 5 && k != 7 && k != 11 {
							return true
						}
					}
				}
				copy(kinds, t)
				c.Beat()
				statusCase(c, it.name, it.vals, kinds, it.cmp, it.lib, &base)
				return true
			})
			if len(it.vals) == 2 && ref.SameShape(it.vals[0].S, it.vals[1].S) { // the same tensor twice
				var b2 ref.T
				for k := range operandKinds {
					statusCase(c, it.name+" twice the same", it.vals[:1], []int{k}, it.cmp, func(ts []tn) (tn, error) { return it.lib([]tn{ts[0], ts[0]}) }, &b2)
				}
			}
		})
	}
}

// creation: every constructor with GradTrack set, unset, and a nil config.
func c08Constructors(w *eng.W) {
	type ctor struct {
		name string
		f    func(cf *tensor.Config) (tn, error)
	}
	ctors := []ctor{
		{"Full", func(cf *tensor.Config) (tn, error) { return tensor.Full([]int{2}, 3, cf) }},
		{"Zeros", func(cf *tensor.Config) (tn, error) { return tensor.Zeros([]int{2, 2}, cf) }},
		{"Ones", func(cf *tensor.Config) (tn, error) { return tensor.Ones(nil, cf) }},
		{"Eye", func(cf *tensor.Config) (tn, error) { return tensor.Eye(2, cf) }},
		{"RandU", func(cf *tensor.Config) (tn, error) { return tensor.RandU([]int{2}, 0, 1, cf) }},
		{"RandN", func(cf *tensor.Config) (tn, error) { return tensor.RandN([]int{2}, 0, 1, cf) }},
		{"TensorOf 0", func(cf *tensor.Config) (tn, error) { return tensor.TensorOf(1.5, cf) }},
		{"TensorOf 1", func(cf *tensor.Config) (tn, error) { return tensor.TensorOf([]float64{1}, cf) }},
		{"TensorOf 2", func(cf *tensor.Config) (tn, error) { return tensor.TensorOf([][]float64{{1}}, cf) }},
		{"TensorOf 3", func(cf *tensor.Config) (tn, error) { return tensor.TensorOf([][][]float64{{{1}}}, cf) }},
		{"TensorOf 4", func(cf *tensor.Config) (tn, error) { return tensor.TensorOf([][][][]float64{{{{1}}}}, cf) }},
	}
	w.Section("constructors")
	for _, ct := range ctors {
		for mode := 0; mode < 3; mode++ {
			ct, mode := ct, mode
			w.Case(func() string { return fmt.Sprintf("%s mode %d", ct.name, mode) }, func(c *eng.C) {
				var cf *tensor.Config
				want := false
				if mode > 0 {
					want = mode == 2
					cf = conf(want)
				}
				x, err := ct.f(cf)
				must(c, ct.name, x, err)
				if x.Gradient() != nil {
					c.Fail("%s: new tensor has a gradient", ct.name)
				}
				y := x.Scale(2)
				bp(c, "x.Scale(2)", y)
				if (x.Gradient() != nil) != want || (y.Gradient() != nil) != want {
					c.Fail("%s with config %v: tracked=%v, expected %v", ct.name, cf, x.Gradient() != nil, want)
				}
				// a tensor is its own root
				x2, err := ct.f(cf)
				must(c, ct.name, x2, err)
				if cf != nil {
					cf.GradTrack = !cf.GradTrack // the config is the caller's
				}
				bp(c, "x itself", x2)
				if (x2.Gradient() != nil) != want {
					c.Fail("%s with config %v: back-propagating from the leaf itself: tracked=%v, expected %v", ct.name, cf, x2.Gradient() != nil, want)
				}
				c.Validated()
			})
		}
	}
}

func runC08(w *eng.W) {
	c08Constructors(w)
	statusMatrix(w)
	tu := []tact{{kind: "new", tracked: true}, {kind: "new"}}
	ttu := []tact{{kind: "new", tracked: true}, {kind: "new", tracked: true}, {kind: "new"}}
	w.Section("every action history (no merging)")
	allHist(w, "T,U", tu, 6, w.Pick(4, 5))
	w.Section("reachable states (merged)")
	bfs(w, "T,T,U", ttu, w.Pick(6, 7), w.Pick(4, 5), 3_000_000)
	bfs(w, "T only", tu[:1], w.Pick(4, 5), w.Pick(7, 6), 3_000_000)
	bfs(w, "T,U", tu, w.Pick(4, 5), w.Pick(6, 6), 3_000_000)
	// long reset cycles on a tiny pool
	bfs(w, "pool of 3", tu[:1], 3, w.Pick(10, 13), 3_000_000)
}

func init() {
	register(&eng.Check{ID: "C08", Run: runC08,
		Bounds: func(tier string) string {
			b := "state machine over {new tracked/untracked, Scale, Mul, Gt, BackPropagate, ResetGradContext(true/false), take gradient}: "
			if tier == "thorough" {
				b += "every history of 5 actions from {tracked, untracked} without state merging; reachable states (merged) to depth 5 from 3 leaves (7 tensors), depth 6 from 1 leaf (5 tensors), depth 6 from 2 leaves (5 tensors), depth 13 with 3 tensors"
			} else {
				b += "every history of 4 actions from {tracked, untracked} without state merging; reachable states (merged) to depth 4 from 3 leaves (6 tensors), depth 7 from 1 leaf (4 tensors), depth 6 from 2 leaves (4 tensors), depth 10 with 3 tensors"
			}
			return b + "; every transition replayed on the implementation and every gradient's presence and specified value compared for every tensor; every operation of the catalogue, comparison, activation, loss and FC x 13 operand kinds per operand; every constructor x config"
		},
		Assumptions: []string{"whether a mix of a gradient tensor (or a comparison of spent tensors) with a fresh tracked tensor is tracked is not specified; such mixes are not used as back-propagation roots",
			"whether a tensor that was untracked when a result was computed and is reset to tracked afterwards takes part in that result's back-propagation is not specified; such roots are skipped",
			"gradient values after back-propagating twice over a shared intermediate result are not specified (only their presence is checked)"}})
}
