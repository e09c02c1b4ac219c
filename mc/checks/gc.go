package checks

import (
	"fmt"
	mbits "math/bits"
	"runtime"
	"time"

	"verifmc/eng"
	"verifmc/ref"
)

/* Garbage collection is part of the environment: it may happen at any point, frees what the caller dropped, runs
finalizers and clears pools. gcCases lets it happen at the chosen points of a program, with every choice of dropped
tensors, and then allocates new tensors which would reuse whatever was recycled wrongly. */

type sentinel struct{ p *int }

// collect runs the collector and waits for the finalizers of what it freed.
func collect() {
	for r := 0; r < 2; r++ {
		done := make(chan struct{})
		func() {
			s := &sentinel{new(int)}
			runtime.SetFinalizer(s, func(*sentinel) { close(done) })
		}()
		runtime.GC()
		select {
		case <-done:
		case <-time.After(100 * time.Millisecond):
		}
		runtime.Gosched()
	}
}

// noise creates tensors of the given shapes and a few results, which stay alive as long as the returned slice.
func noise(c *eng.C, ss [][]int) (r []tn) {
	for i, s := range ss {
		x := mk(c, ref.Full(s, float64(1000+i)), i%2 == 0)
		y := x.Scale(-3)
		z, err := y.Reshape([]int{ref.Prod(s)})
		must(c, "Reshape", z, err)
		r = append(r, x, y, z)
		if len(s) > 0 {
			q, err := x.SumAlong(0)
			must(c, "SumAlong", q, err)
			r = append(r, q)
		}
		if len(s) > 1 {
			q, err := x.Transpose()
			must(c, "Transpose", q, err)
			r = append(r, q)
		}
	}
	return
}

// gcItem is a program and the set of its tensors which stay referenced.
type gcItem struct {
	p    *Prog
	e    *Eval
	keep int
	ts   []tn
	snap []ref.T
	root int
}

// gcCases builds every program, drops every tensor outside keep, collects, allocates, and checks what is left: its
// elements, its gradients after a back-propagation from the last kept tensor, and both again after another collection.
func gcCases(c *eng.C, items []*gcItem, grads bool) {
	var ss [][]int
	seen := map[string]bool{}
	for _, it := range items {
		it.ts = it.p.lib(c)
		it.snap = make([]ref.T, len(it.ts))
		for k := range it.ts {
			what := fmt.Sprintf("%v: t%d", it.p, k)
			it.snap[k] = get(c, what, it.ts[k])
			checkT(c, what, it.ts[k], it.e.Vals[k], ref.Full(it.e.Vals[k].S, maxAbs(it.e.Vals[k].V)).V)
			if s := it.e.Vals[k].S; !seen[ints(s)] {
				seen[ints(s)] = true
				ss = append(ss, s)
			}
			if it.keep>>k&1 == 1 {
				it.root = k
			} else {
				it.ts[k] = nil
			}
		}
	}
	check := func(what string) {
		c.Beat()
		for _, it := range items {
			for k, t := range it.ts {
				if t != nil {
					checkBits(c, fmt.Sprintf("%v, all but %b dropped: t%d %s", it.p, it.keep, k, what), t, it.snap[k])
				}
			}
		}
	}
	// many times the shapes of what was dropped
	ss = append(ss, ss...)
	ss = append(ss, ss...)
	c.Op("drop tensors; collect garbage; allocate")
	collect()
	n1 := noise(c, ss)
	check("after a garbage collection")
	for _, it := range items {
		bp(c, fmt.Sprintf("t%d", it.root), it.ts[it.root])
	}
	check("after the back-propagation")
	c.Op("collect garbage; allocate")
	collect()
	n2 := noise(c, ss)
	check("after a second garbage collection")
	for _, it := range items {
		c.Validated()
		if !grads {
			continue
		}
		g, m := make([][]float64, len(it.ts)), make([][]float64, len(it.ts))
		it.p.grads(it.e, it.root, g, m)
		for k, t := range it.ts {
			if t == nil {
				continue
			}
			gr := t.Gradient()
			if (gr == nil) != (g[k] == nil) {
				c.Fail("%v, all but %b dropped: t%d has a gradient: %v, expected %v", it.p, it.keep, k, gr != nil, g[k] != nil)
			}
			if gr != nil {
				checkT(c, fmt.Sprintf("%v, all but %b dropped: gradient of t%d", it.p, it.keep, k), gr, ref.T{S: it.e.Vals[k].S, V: g[k]}, m[k])
			}
		}
	}
	runtime.KeepAlive(n1)
	runtime.KeepAlive(n2)
}

// gcPrograms enumerates all programs of one or two operations on a pool, with every keep set of one, two or all (thorough: any number of) tensors.
func gcPrograms(w *eng.W, moved bool) {
	ops := func(pool []ref.T) (r []Node) {
		if moved {
			for _, a := range moves(pool, 16) {
				r = append(r, Node{a.o, a.in})
			}
			return
		}
		for i, x := range pool {
			s := x.S
			r = append(r, Node{opScale(2), []int{i}}, Node{opPow(2), []int{i}}, Node{opUnary("Tanh"), []int{i}}, Node{opSlice(nil), []int{i}}, Node{opReshape([]int{1, ref.Prod(s)}), []int{i}})
			if len(s) > 0 {
				r = append(r, Node{opAlong("Sum", 0), []int{i}}, Node{opAlong("Max", 0), []int{i}}, Node{opAlong("Std", len(s)-1), []int{i}})
			}
			if len(s) > 1 {
				r = append(r, Node{opTranspose(), []int{i}})
			}
			for j, y := range pool {
				for _, n := range []string{"Add", "Mul", "Div", "Dot", "MatMul", "ElMax"} {
					if _, ok := refBin(n, x, y); ok {
						r = append(r, Node{opBin(n), []int{i, j}})
					}
				}
				if len(s) > 0 && ref.ConcatOK([][]int{s, y.S}, 0) {
					r = append(r, Node{opConcat(0, 2), []int{i, j}})
				}
			}
		}
		return
	}
	w.Section("garbage collection at every point")
	starts := [][]ref.T{{mixed([]int{2, 2}, 0), mixed([]int{2, 2}, 1)}}
	if moved {
		starts = moveStarts
	} else if w.Thorough() {
		starts = append(starts, []ref.T{mixed([]int{3}, 0), mixed([]int{2, 3}, 1)}, []ref.T{mixed([]int{}, 0), mixed([]int{4}, 1)})
	}
	add := func(r []*gcItem, p *Prog) []*gcItem {
		e := p.ref()
		if !e.OK || !e.Smooth {
			return r
		}
		n := len(e.Vals)
		for keep := 1; keep < 1<<n; keep++ {
			if k := mbits.OnesCount(uint(keep)); k <= 2 || k == n || w.Thorough() {
				r = append(r, &gcItem{p: p, e: e, keep: keep})
			}
		}
		return r
	}
	for _, st := range starts {
		tr := make([]bool, len(st))
		for i := range tr {
			tr[i] = true
		}
		for _, a := range ops(st) {
			p1 := &Prog{Leaves: st, Tracked: tr, Nodes: []Node{a}}
			w.Case(func() string { return p1.String() + " ..." }, func(c *eng.C) {
				items := add(nil, p1)
				if e := p1.ref(); e.OK {
					for _, b := range ops(e.Vals) {
						items = add(items, &Prog{Leaves: st, Tracked: tr, Nodes: []Node{a, b}})
					}
				}
				gcCases(c, items, !moved)
			})
		}
	}
}
