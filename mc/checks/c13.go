package checks

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verifmc/eng"
	"verifmc/ref"
)

// scalar sinks: what happens to the loss value before back-propagation; gives dRoot/dLoss.
type scalarSink struct {
	name string
	mk   func(c *eng.C, l tn, v float64) (root tn, k float64)
}

var scalarSinks = []scalarSink{
	{"loss", func(c *eng.C, l tn, v float64) (tn, float64) { return l, 1 }},
	{"-2.5*loss", func(c *eng.C, l tn, v float64) (tn, float64) { return l.Scale(-2.5), -2.5 }},
	{"loss+loss", func(c *eng.C, l tn, v float64) (tn, float64) {
		z, err := l.Add(l)
		must(c, "Add", z, err)
		return z, 2
	}},
	{"loss*loss", func(c *eng.C, l tn, v float64) (tn, float64) {
		z, err := l.Mul(l)
		must(c, "Mul", z, err)
		return z, 2 * v
	}},
	{"weighted over a vector", func(c *eng.C, l tn, v float64) (tn, float64) {
		z, err := l.Mul(mk(c, ref.Of([]int{3}, 1, -0.5, 2), false))
		must(c, "Mul", z, err)
		return z, 2.5
	}},
}

// lossGrad checks the gradient for one batch: predictions from source si (tracked by mask bit 0), targets tracked by bit 1,
// the loss consumed by sink ki; extra: the predictions are used once more outside the loss.
func lossGrad(c *eng.C, kind string, l lossI, p, t ref.T, s source, mask, ki int, extra int) {
	if !s.ok(p.S) || !s.exact(p) || extra != 0 && ki == 4 {
		return
	}
	c.Beat()
	k := scalarSinks[ki]
	what := fmt.Sprintf("%s gradient, predictions %v (%s), targets %v, tracked mask %b, root %s, extra use %d", kind, p, s.name, t, mask, k.name, extra)
	c.Op("%s", what)
	tracked := mask&1 == 1
	x, ls := s.mk(c, p, tracked)
	y := mk(c, t, mask&2 == 2)
	r, err := l.Compute(x, y)
	must(c, kind+".Compute", r, err)
	v, _ := ref.Loss(kind, p, t)
	g, mag, bound := ref.LossBack(kind, p, t)
	root, f := k.mk(c, r, v)
	for i := range g {
		g[i] *= f
		mag[i] *= math.Abs(f)
	}
	if ki == 3 { // the factor 2*loss is itself rounded
		_, lm := ref.Loss(kind, p, t)
		_, m0, _ := ref.LossBack(kind, p, t)
		for i := range mag {
			mag[i] = math.Max(mag[i], 2*lm*m0[i])
		}
	}
	switch extra {
	case 1: // a further consumer, added to the loss
		u := mixed(p.S, 6)
		z, err := x.Mul(mk(c, u, false))
		must(c, "Mul", z, err)
		root, err = z.Add(root.Scale(1))
		must(c, "Add", root, err)
		// adding a scalar to n elements: each carries the loss once
		n := float64(len(p.V))
		for i := range g {
			g[i] = n*g[i] + u.V[i]
			mag[i] = n*mag[i] + math.Abs(u.V[i])
		}
	case 2: // a second loss over the same predictions
		{
			k2 := "MSE"
			xf, err := x.Reshape([]int{len(p.V)})
			must(c, "Reshape", xf, err)
			t2 := generic([]int{len(p.V)}, 8, 0, 1)
			r2, err := newLoss(k2).Compute(xf, mk(c, t2, false))
			must(c, "second loss", r2, err)
			root, err = root.Add(r2)
			must(c, "Add", root, err)
			g2, m2, _ := ref.LossBack(k2, ref.T{S: []int{len(p.V)}, V: p.V}, t2)
			for i := range g {
				g[i] += g2[i]
				mag[i] += m2[i]
			}
		}
	case 3: // the same loss again, other targets
		t2 := generic(p.S, 8, 0, 1)
		r2, err := l.Compute(x, mk(c, t2, false))
		must(c, "second loss", r2, err)
		root, err = r2.Sub(root)
		must(c, "Sub", root, err)
		g2, m2, _ := ref.LossBack(kind, p, t2)
		for i := range g {
			g[i] = g2[i] - g[i]
			mag[i] += m2[i]
		}
	}
	bp(c, "loss", root)
	if !tracked {
		checkFlow(c, what, x, p.S, ls, nil, nil, nil)
		return
	}
	if y.Gradient() != nil && mask&2 == 0 {
		c.Fail("%s: untracked target got a gradient", what)
	}
	lo, hi := g, append([]float64{}, g...)
	anyB := false
	for i := range bound {
		if bound[i] { // nothing is specified on the bound, beyond being finite
			lo = append([]float64{}, lo...)
			lo[i], hi[i] = math.Inf(-1), math.Inf(1)
			anyB = true
		}
	}
	if anyB {
		mag = fill(len(mag), math.MaxFloat64/1e12)
	}
	checkFlow(c, what, x, p.S, ls, lo, hi, mag)
	c.Validated()
}

func runC13(w *eng.W) {
	inUnit := func(v []float64) (r []float64) {
		for _, x := range v {
			if x >= 0 && x <= 1 {
				r = append(r, x)
			}
		}
		return
	}
	preds := append(inUnit(predAll), -1.5, -1e-12, up(1), 1+1e-12, 1.5, 1e6)
	targs := append(inUnit(targAll)[:0:0], 1e-250)
	for _, t := range inUnit(targAll) {
		if t == 0 || t > 1e-300 { // a subnormal target makes a subnormal gradient: rounding only
			targs = append(targs, t)
		}
	}
	mid := []float64{0, 5e-13, 2e-12, 0.25, 0.8, 1 - 2e-12, 1}
	tmid := []float64{0, 0.3, 1}
	for _, kind := range lossKinds {
		l := newLoss(kind)
		w.Section(kind + ": single elements")
		eachPairs(preds, targs, 1, func(p, t []float64) bool {
			pp, tt := p[0], t[0]
			w.Case(func() string { return fmt.Sprintf("%s p=%v t=%v", kind, pp, tt) }, func(c *eng.C) {
				for _, s := range lossShapes(kind, 1) {
					for _, src := range sources {
						for mask := 0; mask < 4; mask++ {
							for k := range scalarSinks {
								for e := 0; e < 4; e++ {
									lossGrad(c, kind, l, ref.Of(s, pp), ref.Of(s, tt), src, mask, k, e)
								}
							}
						}
					}
				}
				c.Outcome(kind)
			})
			return !w.Stopped()
		})
		for k := 2; k <= w.Pick(3, 4); k++ {
			ps, ts := mid, tmid
			switch {
			case k == 2 && w.Thorough():
				ps, ts = preds, targs
			case k == 2:
				ps, ts = preds, tmid
			case k == 4:
				ps, ts = []float64{0, 2e-12, 0.4, 1}, tmid
			}
			w.Section(fmt.Sprintf("%s: batches of %d elements", kind, k))
			eachPairs(ps, ts, k-1, func(p, t []float64) bool {
				p1, t1 := append([]float64{}, p...), append([]float64{}, t...)
				w.Case(func() string { return fmt.Sprintf("%s p=%v+ t=%v+", kind, p1, t1) }, func(c *eng.C) {
					q := 0
					eachPairs(ps, ts, 1, func(p, t []float64) bool {
						for _, s := range lossShapes(kind, k) {
							q++
							pv, tv := ref.T{S: s, V: append(append([]float64{}, p1...), p...)}, ref.T{S: s, V: append(append([]float64{}, t1...), t...)}
							lossGrad(c, kind, l, pv, tv, sources[0], 1, 0, 0)
							lossGrad(c, kind, l, pv, tv, sources[1+q%(len(sources)-1)], 1+2*(q%2), q%len(scalarSinks), q%4)
						}
						return true
					})
				})
				return !w.Stopped()
			})
		}
		w.Section(kind + ": sizes")
		var ss [][]int
		if kind == "CE" {
			for b := 1; b <= w.Pick(7, 12); b++ {
				for k := 1; k <= w.Pick(7, 12); k++ {
					ss = append(ss, []int{b, k})
				}
			}
			ss = append(ss, []int{1, 70}, []int{70, 1})
		} else {
			for b := 1; b <= w.Pick(24, 70); b++ {
				ss = append(ss, []int{b})
			}
			ss = append(ss, []int{129})
		}
		for _, s := range ss {
			w.Case(func() string { return fmt.Sprintf("%s %v", kind, s) }, func(c *eng.C) {
				for q := 0; q < 2; q++ {
					p, t := mapT(generic(s, q, -0.1, 1.1), func(i int, v float64) float64 { return math.Max(0, math.Min(1, v)) }), mapT(generic(s, q+5, -0.1, 1.1), func(i int, v float64) float64 { return math.Max(0, math.Min(1, v)) })
					for _, src := range sources {
						for mask := 0; mask < 4; mask++ {
							for k := range scalarSinks {
								for e := 0; e < 4; e++ {
									if ref.Prod(s) > 16 && (k > 1 || e > 1 || mask == 2) {
										continue
									}
									lossGrad(c, kind, l, p, t, src, mask, k, e)
								}
							}
						}
					}
				}
				n := ref.Prod(s)
				for i := 0; i < n && n <= 49; i++ {
					hot := ref.New(s)
					hot.V[i] = 1
					lossGrad(c, kind, l, generic(s, 1, 0.05, 0.95), hot, sources[i%len(sources)], 1, 0, 0)
					lossGrad(c, kind, l, hot, hot, sources[(i+1)%len(sources)], 1, 0, 0)
					lossGrad(c, kind, l, hot, generic(s, 1, 0.05, 0.95), sources[(i+2)%len(sources)], 1, 0, 0)
				}
			})
		}
		w.Section(kind + ": size ladder")
		for _, n := range ladder(16385) {
			for _, s := range lossLadder(kind, n) {
				w.Case(func() string { return fmt.Sprintf("%s ladder %v", kind, s) }, func(c *eng.C) {
					p, t := mapT(generic(s, n, -0.1, 1.1), clip01), mapT(generic(s, n+5, -0.1, 1.1), clip01)
					lossGrad(c, kind, l, p, t, sources[0], 1, 0, 0)
					lossGrad(c, kind, l, p, t, sources[n%len(sources)], 3, n%len(scalarSinks), n%2*2)
				})
			}
		}
		giantsLoss(w, kind, func(c *eng.C, s []int, n int) {
			lossGrad(c, kind, l, mapT(generic(s, n, -0.1, 1.1), clip01), mapT(generic(s, n+5, -0.1, 1.1), clip01), sources[0], 1, 0, 0)
		})
		if kind == "CE" {
			gridLoss(w, func(c *eng.C, s []int, k int) {
				p, t := mapT(generic(s, k, -0.1, 1.1), clip01), mapT(generic(s, k+5, -0.1, 1.1), clip01)
				lossGrad(c, kind, l, p, t, sources[k%len(sources)], 3, 0, 0)
			})
		}
		c13Chains(w, kind, l)
	}
}

// c13Chains: predictions computed by non-linear upstream graphs; the gradient must appear at the prediction tensor and be
// carried on to the leaf by the chain rule.
func c13Chains(w *eng.W, kind string, l lossI) {
	objectsLoss(w, kind)
	livesLoss(w, kind)
	w.Section(kind + ": upstream activations and histories")
	acts := []ref.Act{{Kind: "Sigmoid"}, {Kind: "Softmax", Dim: 0}, {Kind: "Relu"}, {Kind: "Tanh"}, {Kind: "LeakyRelu", M: 0.25}}
	ss := [][]int{{1}, {2}, {3}, {5}}
	if kind == "CE" {
		ss = [][]int{{1, 1}, {1, 3}, {2, 1}, {2, 3}, {3, 2}}
		acts = append(acts, ref.Act{Kind: "Softmax", Dim: 1})
	}
	for _, s := range ss {
		for _, a := range acts {
			for _, rep := range []int{1, 2, 3} {
				w.Case(func() string { return fmt.Sprintf("%s of %s %v, %d losses in a row", kind, actName(a), s, rep) }, func(c *eng.C) {
					for _, src := range sources {
						if !src.ok(s) {
							continue
						}
						xv := mixed(s, 1)
						x, ls := src.mk(c, xv, true)
						// rep back-propagations in a row on fresh graphs over the same input would accumulate on a spent
						// input; use one graph whose root is the sum of rep losses
						var root tn
						tot, totM := fill(len(xv.V), 0), fill(len(xv.V), 0)
						pv := a.Forward(xv)
						var ps []tn
						for k := 0; k < rep; k++ {
							p, err := actLib(a).Forward(x)
							must(c, actName(a), p, err)
							tv := generic(s, 3+k, 0, 1)
							r, err := l.Compute(p, mk(c, tv, false))
							must(c, kind, r, err)
							if root == nil {
								root = r
							} else {
								root, err = root.Add(r)
								must(c, "Add", root, err)
							}
							ps = append(ps, p)
							g, m, _ := ref.LossBack(kind, pv, tv)
							gx, _, mx := a.Back(xv, g, m)
							for i := range gx {
								tot[i] += gx[i]
								totM[i] += mx[i] + m[i]*1e-3
							}
						}
						bp(c, "loss", root)
						for k := 0; k < rep; k++ {
							g, m, _ := ref.LossBack(kind, pv, generic(s, 3+k, 0, 1))
							checkT(c, fmt.Sprintf("%s gradient at the output of %s", kind, actName(a)), ps[k].Gradient(), ref.T{S: s, V: g}, addV(m, 1e-3*(1+maxAbs(g))))
						}
						checkFlow(c, fmt.Sprintf("%s of %s over %s", kind, actName(a), src.name), x, s, ls, tot, tot, totM)
						c.Validated()
						// next step: reset everything behind the input, and do it again with the same objects
						for _, q := range ls {
							q.t.ResetGradContext(true)
						}
						y := ls[0].t.Scale(1)
						_ = tensor.BackPropagate(y)
					}
				})
			}
		}
	}
}

func clip01(i int, v float64) float64 { return math.Max(0, math.Min(1, v)) }

func addV(v []float64, k float64) []float64 {
	r := make([]float64, len(v))
	for i := range v {
		r[i] = v[i] + k
	}
	return r
}

func actName(a ref.Act) string {
	switch a.Kind {
	case "Softmax":
		return fmt.Sprintf("Softmax(%d)", a.Dim)
	case "LeakyRelu":
		return fmt.Sprintf("LeakyRelu(%v)", a.M)
	}
	return a.Kind
}

func init() {
	register(&eng.Check{ID: "C13", Run: runC13,
		Bounds: func(tier string) string {
			return fmt.Sprintf("MSE, BCE, CE: every prediction letter in [0,1] (with both clipping bounds, their floating-point neighbours, 0 and 1) and six outside x every target letter in [0,1] as a single element x %d origins of the predictions (leaf or result) x tracking masks x %d consumers of the loss x {alone, predictions used elsewhere, second loss, same loss twice}; %s; all sizes up to the stated limits (batches 1..%d, CE up to %dx%d) with positional values and one-hot targets, a ladder of sizes up to 16385 elements; upstream activations with 1-3 losses in one graph; losses over all pairs (thorough: triples) of 4 shapes from one object, back-propagated in every order; 10001 (66000) calls on one object",
				len(sources), len(scalarSinks), map[bool]string{false: "all 2-element batches over 26x3 letters, 3-element over 7x3", true: "all 2-element batches over all letters, 3-element over 7x3, 4-element over 4x3"}[tier == "thorough"],
				map[bool]int{false: 24, true: 70}[tier == "thorough"], map[bool]int{false: 7, true: 12}[tier == "thorough"], map[bool]int{false: 7, true: 12}[tier == "thorough"])
		},
		Assumptions: []string{"predictions exactly on a clipping bound: only finiteness is required", "relative tolerance 1e-9"}})
}
