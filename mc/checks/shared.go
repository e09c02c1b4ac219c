package checks

import (
	"fmt"

	"verifmc/eng"
	"verifmc/ref"
)

/* Several results over the same operand objects, back-propagated one after the other: whatever a tensor keeps from one
operation (or from one back-propagation) must not reach the next. */

// sharedLeaves builds the instances over one pool of leaves: operand k of shape s is the same leaf in all of them.
func sharedLeaves(is []Inst, mask int) (*builder, []int) {
	b := &builder{}
	pos := false
	for _, i := range is {
		pos = pos || i.O.Pos || i.O.NZ
	}
	pool := map[string]int{}
	roots := make([]int, len(is))
	for k, i := range is {
		ops := make([]int, len(i.In))
		for j, s := range i.In {
			key := fmt.Sprint(j, s)
			x, ok := pool[key]
			if !ok {
				v := tame(s, len(pool)+1)
				if pos {
					v = positive(v)
				}
				x = b.leaf(v, mask>>len(pool)&1 == 1)
				pool[key] = x
			}
			ops[j] = x
		}
		roots[k] = b.node(i.O, ops...)
	}
	return b, roots
}

// sharedOrders: all results first, then their back-propagations in every order; the gradients add up on the operands.
func sharedOrders(c *eng.C, is []Inst, mask int) {
	b, roots := sharedLeaves(is, mask)
	p := b.prog()
	e := p.ref()
	if !e.OK {
		panic("harness: invalid program " + p.String())
	}
	if !e.Smooth {
		c.Outcome("skipped: not differentiable here")
		return
	}
	for _, o := range permutations(len(is)) {
		c.Beat()
		ts := p.lib(c)
		g := make([][]float64, len(e.Vals))
		m := make([][]float64, len(e.Vals))
		for _, k := range o {
			r := b.idx(roots[k])
			bp(c, fmt.Sprintf("t%d (%s)", r, is[k]), ts[r])
			p.grads(e, r, g, m)
			checkGrads(c, e, ts, g, m)
		}
		c.Validated()
	}
	c.Outcome("several results of one operand")
}

// sharedSteps: one result after the other, each back-propagated at once, the operands reset in between.
func sharedSteps(c *eng.C, is []Inst, mask int) {
	b, _ := sharedLeaves(is, mask)
	p := b.prog()
	if e := p.ref(); !e.Smooth {
		return
	}
	var leaves []tn
	for i, l := range p.Leaves {
		leaves = append(leaves, mk(c, l, p.Tracked[i]))
	}
	for k, n := range p.Nodes {
		c.Op("step %d: %s", k, is[k])
		q := &Prog{Leaves: p.Leaves, Tracked: p.Tracked, Nodes: []Node{n}}
		e := q.ref()
		ts := q.libNodes(c, append([]tn{}, leaves...))
		g := make([][]float64, len(e.Vals))
		m := make([][]float64, len(e.Vals))
		r := len(e.Vals) - 1
		bp(c, fmt.Sprintf("step %d", k), ts[r])
		q.grads(e, r, g, m)
		checkGrads(c, e, ts, g, m)
		for i, l := range leaves {
			l.ResetGradContext(p.Tracked[i])
		}
	}
	c.Validated()
}

// expandInst: implicitly expanding operations of which x with shape s is the first operand.
func expandInst(s []int) (r []Inst) {
	var others [][]int
	others = append(others, nil, append([]int{2}, s...))
	for d := range s {
		if s[d] != 1 {
			o := ref.CopyInts(s)
			o[d] = 1
			others = append(others, o)
		}
	}
	if len(s) > 1 {
		others = append(others, s[1:])
	}
	for _, o := range others {
		for _, n := range []string{"Add", "Sub", "Mul", "Div"} {
			r = append(r, Inst{opBin(n), [][]int{s, o}})
			r = append(r, Inst{opBin(n), [][]int{o, s}})
		}
		if len(o) > 0 && ref.DotOK(s, o) && !ref.SameShape(s, o) {
			r = append(r, Inst{opBin("Dot"), [][]int{s, o}})
		}
	}
	if len(s) >= 2 {
		b := []int{2, s[len(s)-1], 2}
		if ref.MatMulOK(s, b) {
			r = append(r, Inst{opBin("MatMul"), [][]int{s, b}})
		}
	}
	return
}

// sharedAll: every pair of instances on shape s.
func sharedAll(w *eng.W, s []int) {
	all := append(allInst(s), expandInst(s)...)
	for _, a := range all {
		w.Case(func() string { return fmt.Sprintf("%s and every other operation on %v", a, s) }, func(c *eng.C) {
			for k, b := range all {
				mask := 7
				if k%3 == 1 {
					mask = []int{1, 2, 5}[k/3%3]
				}
				sharedOrders(c, []Inst{a, b}, mask)
				sharedSteps(c, []Inst{a, b}, mask)
			}
		})
	}
}
