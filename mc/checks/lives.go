package checks

import (
	"fmt"

	"verifmc/eng"
	"verifmc/ref"
)

/* One component object and one input object through several rounds of a training loop: the input is reset (as tracked or
untracked) between the rounds and must be treated as the tensor it is now, not as the one it was. */

// life: a component seen through one input object.
type life struct {
	name  string
	in    ref.T
	fwd   func(x tn) tn
	want  func(in ref.T) (ref.T, []float64)
	back  func(in ref.T, g, gm []float64) (lo, hi, mag []float64)
	after func(in ref.T, g []float64) // the parameters' gradients after a back-propagation
	alter func(k int)                 // replaces a parameter
}

var lifeSteps = []string{"reset tracked, forward, back-propagate", "reset untracked, forward, back-propagate", "reset tracked, forward only", "another input object, forward, back-propagate", "replace a parameter"}

func (l *life) round(c *eng.C, x tn, in ref.T, tracked, back bool, k int) {
	y := l.fwd(x)
	want, mag := l.want(in)
	checkT(c, l.name, y, want, mag)
	if !back {
		return
	}
	u := mixed(want.S, k+1)
	root, err := y.Mul(mk(c, u, false))
	must(c, "weighting the result", root, err)
	bp(c, l.name, root)
	var lo, hi, m []float64
	if tracked {
		lo, hi, m = l.back(in, u.V, absV(u.V))
	}
	checkFlow(c, l.name+": input", x, in.S, nil, lo, hi, m)
	if l.after != nil {
		l.after(in, u.V)
	}
}

// lives runs every sequence of n rounds.
func lives(c *eng.C, mkLife func() *life, n int) {
	tuples(len(lifeSteps), n, func(q []int) bool {
		l := mkLife()
		for _, s := range q {
			if s == 4 && l.alter == nil {
				return true
			}
		}
		c.Beat()
		x := mk(c, l.in, q[0]%2 == 0)
		for k, s := range q {
			c.Op("%s: round %d: %s", l.name, k, lifeSteps[s])
			switch s {
			case 0, 1, 2:
				if k > 0 {
					x.ResetGradContext(s != 1)
				}
				l.round(c, x, l.in, s != 1, s != 2, k)
			case 3:
				o := mapT(mixed(l.in.S, k+11), func(i int, v float64) float64 { return v / 4 })
				l.round(c, mk(c, o, true), o, true, true, k)
			default:
				l.alter(k)
			}
		}
		c.Validated()
		return true
	})
	c.Outcome("rounds over one input object")
}

func livesActs(w *eng.W) {
	w.Section("one object, one input object: every sequence of rounds")
	for _, s := range [][]int{{}, {1}, {4}, {2, 3}, {3, 1}, {2, 1, 2}} {
		for ai := range append(pointActs(), softmaxes(len(s))...) {
			w.Case(func() string { return fmt.Sprintf("rounds on %v, activation %d", s, ai) }, func(c *eng.C) {
				lives(c, func() *life {
					a := append(pointActs(), softmaxes(len(s))...)[ai]
					return &life{name: a.name, in: mixed(s, ai),
						fwd: func(x tn) tn {
							y, err := a.obj.Forward(x)
							must(c, a.name, y, err)
							return y
						},
						want: func(in ref.T) (ref.T, []float64) {
							y := a.Forward(in)
							return y, fill(len(y.V), 1+maxAbs(y.V))
						},
						back: func(in ref.T, g, gm []float64) (lo, hi, mag []float64) {
							lo, hi, mag = a.Back(in, g, gm)
							return lo, hi, addV(mag, 1e-290)
						}}
				}, w.Pick(4, 5))
			})
		}
	}
}

func livesLoss(w *eng.W, kind string) {
	w.Section(kind + ": one object, one prediction object: every sequence of rounds")
	ss := [][]int{{1}, {3}}
	if kind == "CE" {
		ss = [][]int{{1, 1}, {2, 1}, {2, 3}}
	}
	for _, s := range ss {
		for same := 0; same < 2; same++ {
			w.Case(func() string { return fmt.Sprintf("%s rounds on %v, one target object: %v", kind, s, same == 1) }, func(c *eng.C) {
				lives(c, func() *life {
					o := newLoss(kind)
					k := 0
					tv := generic(s, 5, 0, 1)
					t := mk(c, tv, false)
					return &life{name: kind, in: generic(s, 2, 0.05, 0.95),
						fwd: func(x tn) tn {
							if same == 0 {
								k++
								tv = generic(s, 5+k, 0, 1)
								t = mk(c, tv, false)
							}
							y, err := o.Compute(x, t)
							must(c, kind, y, err)
							return y
						},
						want: func(in ref.T) (ref.T, []float64) {
							v, m := ref.Loss(kind, in, tv)
							return ref.Of(nil, v), []float64{m}
						},
						back: func(in ref.T, g, gm []float64) (lo, hi, mag []float64) {
							d, m, _ := ref.LossBack(kind, in, tv)
							lo, mag = make([]float64, len(d)), make([]float64, len(d))
							for i := range d {
								lo[i], mag[i] = d[i]*g[0], m[i]*gm[0]
							}
							return lo, lo, mag
						}}
				}, w.Pick(4, 6))
			})
		}
	}
}

func livesFC(w *eng.W) {
	w.Section("one layer, one input object: every sequence of rounds")
	for _, s := range [][]int{{1, 1}, {2, 1}, {1, 2}, {3, 2}} {
		for _, o := range []int{1, 2, 3} {
			for mask := 0; mask < 4; mask++ {
				w.Case(func() string { return fmt.Sprintf("rounds on %v, %d outputs, parameters tracked %02b", s, o, mask) }, func(c *eng.C) {
					lives(c, func() *life {
						tw, tb := mask&1 != 0, mask&2 != 0
						wv, bv := mixed([]int{o}, 3), mixed([]int{o}, 4)
						f := newFC(c, s[1], wv, bv, tw, tb)
						return &life{name: "FC", in: mixed(s, o),
							fwd: func(x tn) tn {
								y, err := f.Forward(x)
								must(c, "Forward", y, err)
								return y
							},
							want: func(in ref.T) (ref.T, []float64) { return ref.FC(in, wv, bv) },
							back: func(in ref.T, g, gm []float64) (lo, hi, mag []float64) {
								gx, _, _, mx, _, _ := ref.FCBack(in, wv, g, gm)
								return gx, gx, mx
							},
							after: func(in ref.T, g []float64) {
								_, gw, gb, _, mw, mb := ref.FCBack(in, wv, g, absV(g))
								if !tw {
									gw = nil
								}
								if !tb {
									gb = nil
								}
								checkFlow(c, "FC: weight", f.Weight, wv.S, nil, gw, gw, mw)
								checkFlow(c, "FC: bias", f.Bias, bv.S, nil, gb, gb, mb)
								f.Weight.ResetGradContext(tw)
								f.Bias.ResetGradContext(tb)
							},
							alter: func(k int) {
								pw, pb := params(c, f)
								if k%2 == 0 {
									wv = mixed([]int{o}, 20+k)
									*pw = mk(c, wv, tw)
								} else {
									bv = mixed([]int{o}, 20+k)
									*pb = mk(c, bv, tb)
								}
							}}
					}, w.Pick(3, 5))
				})
			}
		}
	}
}
