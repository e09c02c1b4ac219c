package checks

import (
	"fmt"

	"verifmc/eng"
	"verifmc/ref"
)

/* One component object, several forward passes, back-propagations in every order: whatever an object keeps between calls
must neither reach an earlier result nor a later one. */

// pass is one forward pass and what its back-propagation has to deliver.
type pass struct {
	root  tn
	check func() // after its back-propagation
}

// everyOrder runs the forward passes made by mks, then the back-propagations in every order.
func everyOrder(c *eng.C, mks []func(k int) pass) {
	for _, perm := range permutations(len(mks)) {
		c.Beat()
		c.Op("back-propagations in order %v", perm)
		ps := make([]pass, len(mks))
		for k, f := range mks {
			ps[k] = f(k)
		}
		for i, k := range perm {
			bp(c, fmt.Sprintf("pass %d", k), ps[k].root)
			for _, j := range perm[:i+1] {
				ps[j].check()
			}
		}
		c.Validated()
	}
}

// actPass: forward of a over fresh leaves, weighted.
func actPass(c *eng.C, a actObj, v ref.T, src source, k sink) pass {
	x, ls := src.mk(c, v, true)
	y, err := a.obj.Forward(x)
	must(c, a.name, y, err)
	want := a.Forward(v)
	checkT(c, a.name, y, want, fill(len(want.V), 1+maxAbs(want.V)))
	root, g, gm := k.mk(c, y, want)
	return pass{root, func() {
		lo, hi, mag := a.Back(v, g, gm)
		if a.Kind == "Softmax" {
			mag = addV(mag, 1e-290)
		}
		checkFlow(c, fmt.Sprintf("%s on %v", a.name, v.S), x, v.S, ls, lo, hi, mag)
	}}
}

// lossPass: loss over fresh predictions.
func lossPass(c *eng.C, kind string, l lossI, p, t ref.T, src source) pass {
	x, ls := src.mk(c, p, true)
	r, err := l.Compute(x, mk(c, t, false))
	must(c, kind, r, err)
	want, mag := ref.Loss(kind, p, t)
	checkT(c, kind, r, ref.Of(nil, want), []float64{mag})
	return pass{r, func() {
		g, m, _ := ref.LossBack(kind, p, t)
		checkFlow(c, fmt.Sprintf("%s on %v", kind, p.S), x, p.S, ls, g, g, m)
	}}
}

// shapeSeqs calls f with every sequence of n shapes.
func shapeSeqs(ss [][]int, n int, f func(seq [][]int)) {
	tuples(len(ss), n, func(q []int) bool {
		r := make([][]int, n)
		for i, k := range q {
			r[i] = ss[k]
		}
		f(r)
		return true
	})
}

// counts are the numbers of calls on one object after which the results are looked at in full.
func counts(w *eng.W) []int { return []int{w.Pick(10001, 66000)} }

func objectsActs(w *eng.W) {
	w.Section("one object: forward passes, then back-propagations in every order")
	ss := [][]int{{1}, {3}, {2, 2}, {1, 3}, {2, 1, 2}}
	shapeSeqs(ss, w.Pick(2, 3), func(seq [][]int) {
		rank := 5
		for _, s := range seq {
			rank = min(rank, len(s))
		}
		w.Case(func() string { return fmt.Sprint("shapes ", seq) }, func(c *eng.C) {
			for _, a := range append(pointActs(), softmaxes(rank)...) {
				for si, src := range sources {
					ok := true
					var mks []func(k int) pass
					for _, s := range seq {
						ok = ok && src.ok(s)
						mks = append(mks, func(k int) pass { return actPass(c, a, mixed(s, si+k), src, sinks[(si+k)%len(sinks)]) })
					}
					if ok {
						everyOrder(c, mks)
					}
				}
			}
		})
	})
	w.Section("one object: many calls")
	for _, n := range counts(w) {
		for ai := range append(pointActs()[:5], softmaxes(2)...) {
			w.Case(func() string { return fmt.Sprintf("%d calls of activation %d", n, ai) }, func(c *eng.C) {
				a := append(pointActs()[:5], softmaxes(2)...)[ai]
				var early pass
				for i := 0; i < n; i++ {
					p := actPass(c, a, mixed([]int{1 + i%2, 1 + i/2%2}, i), sources[0], sinks[i%2])
					if i == 0 {
						early = p // back-propagated at the very end
						continue
					}
					if i%64 == 0 {
						c.Beat()
					}
					bp(c, "pass", p.root)
					p.check()
				}
				bp(c, "the first pass", early.root)
				early.check()
				c.Validated()
			})
		}
	}
}

func objectsLoss(w *eng.W, kind string) {
	w.Section(kind + ": one object: losses, then back-propagations in every order")
	ss := [][]int{{1}, {2}, {3}, {5}}
	if kind == "CE" {
		ss = [][]int{{1, 1}, {2, 1}, {1, 3}, {3, 2}}
	}
	shapeSeqs(ss, w.Pick(2, 3), func(seq [][]int) {
		w.Case(func() string { return fmt.Sprint(kind, " shapes ", seq) }, func(c *eng.C) {
			l := newLoss(kind)
			for si, src := range sources {
				ok := true
				var mks []func(k int) pass
				for _, s := range seq {
					ok = ok && src.ok(s)
					mks = append(mks, func(k int) pass {
						return lossPass(c, kind, l, generic(s, si+k, 0.05, 0.95), generic(s, si+k+3, 0, 1), src)
					})
				}
				if ok {
					everyOrder(c, mks)
				}
			}
		})
	})
	w.Section(kind + ": one object: many calls")
	for _, n := range counts(w) {
		w.Case(func() string { return fmt.Sprintf("%d calls of %s", n, kind) }, func(c *eng.C) {
			l := newLoss(kind)
			var early pass
			for i := 0; i < n; i++ {
				s := ss[i/3%len(ss)]
				p := lossPass(c, kind, l, generic(s, i, 0.05, 0.95), generic(s, i+3, 0, 1), sources[0])
				if i == 0 {
					early = p
					continue
				}
				if i%64 == 0 {
					c.Beat()
				}
				bp(c, "loss", p.root)
				p.check()
			}
			bp(c, "the first loss", early.root)
			early.check()
			c.Validated()
		})
	}
}

// objectsFC: one layer, several batches; gradients add up on the parameters.
func objectsFC(w *eng.W) {
	w.Section("one layer: batches, then back-propagations in every order")
	const d, o = 2, 3
	wv, bv := mixed([]int{o}, 1), mixed([]int{o}, 2)
	tuples(4, w.Pick(3, 4), func(q []int) bool {
		bs := ref.CopyInts(q)
		w.Case(func() string { return fmt.Sprintf("batch sizes %v", bs) }, func(c *eng.C) {
			for _, perm := range permutations(len(bs)) {
				c.Beat()
				c.Op("batches %v, order %v", bs, perm)
				f := newFC(c, d, wv, bv, true, true)
				xs, ys, vs := make([]tn, len(bs)), make([]tn, len(bs)), make([]ref.T, len(bs))
				for k, b := range bs {
					vs[k] = mixed([]int{b + 1, d}, 3*k)
					xs[k] = mk(c, vs[k], k%2 == 0)
					y, err := f.Forward(xs[k])
					must(c, "Forward", y, err)
					ys[k] = y.Scale(float64(k + 1))
				}
				gw, gb, mw, mb := fill(o, 0), fill(o, 0), fill(o, 0), fill(o, 0)
				for _, k := range perm {
					bp(c, fmt.Sprintf("batch %d", k), ys[k])
					u := fill((bs[k]+1)*o, float64(k+1))
					gx, a1, a2, mx, m1, m2 := ref.FCBack(vs[k], wv, u, u)
					for i := range gw {
						gw[i] += a1[i]
						gb[i] += a2[i]
						mw[i] += m1[i]
						mb[i] += m2[i]
					}
					checkFlow(c, "W", f.Weight, wv.S, nil, gw, gw, mw)
					checkFlow(c, "B", f.Bias, bv.S, nil, gb, gb, mb)
					if k%2 != 0 {
						gx = nil
					}
					checkFlow(c, "x", xs[k], vs[k].S, nil, gx, gx, mx)
				}
				c.Validated()
			}
		})
		return !w.Stopped()
	})
	w.Section("one layer: many calls")
	for _, n := range counts(w) {
		for mode := 0; mode < 3; mode++ {
			w.Case(func() string { return fmt.Sprintf("%d calls, mode %d", n, mode) }, func(c *eng.C) {
				f := newFC(c, d, wv, bv, true, true)
				wcur := wv
				for i := 0; i < n; i++ {
					if i%64 == 0 {
						c.Beat()
					}
					xv := mixed([]int{1 + i%3, d}, i)
					x := mk(c, xv, i%2 == 0)
					y, err := f.Forward(x)
					must(c, "Forward", y, err)
					want, mag := ref.FC(xv, wcur, bv)
					checkT(c, fmt.Sprintf("call %d", i), y, want, mag)
					if mode == 1 && i < n-10 { // mostly evaluation
						continue
					}
					bp(c, "y", y)
					u := fill(len(want.V), 1)
					_, gw, gb, _, mw, mb := ref.FCBack(xv, wcur, u, u)
					checkFlow(c, fmt.Sprintf("W, call %d", i), f.Weight, wv.S, nil, gw, gw, mw)
					checkFlow(c, fmt.Sprintf("B, call %d", i), f.Bias, bv.S, nil, gb, gb, mb)
					pw, pb := params(c, f)
					if mode == 2 { // replaced
						wcur = mixed([]int{o}, i)
						*pw = mk(c, wcur, true)
					} else {
						(*pw).ResetGradContext(true)
					}
					(*pb).ResetGradContext(true)
				}
				c.Validated()
			})
		}
	}
}
