package checks

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/losses"

	"verifmc/eng"
	"verifmc/ref"
)

type lossI interface {
	Compute(yp, yt tn) (tn, error)
}

func newLoss(kind string) lossI {
	switch kind {
	case "MSE":
		return losses.NewMSE()
	case "BCE":
		return losses.NewBCE()
	}
	return losses.NewCE()
}

var lossKinds = []string{"MSE", "BCE", "CE"}

var (
	up   = func(v float64) float64 { return math.Nextafter(v, 2) }
	down = func(v float64) float64 { return math.Nextafter(v, -2) }
	negZ = math.Copysign(0, -1)

	// predictions: clipped on both sides, on, next to and inside the bounds
	predAll = []float64{-1e6, -1.5, -1, -1e-12, -5e-324, negZ, 0, 5e-324, 1e-300, 5e-13, down(1e-12), 1e-12, up(1e-12), 1.5e-12, 1e-11, 1e-6, 0.01, 0.25, 0.5, 0.75, 0.99, 1 - 1e-6, 1 - 1e-11, 1 - 2e-12,
		down(1 - 1e-12), 1 - 1e-12, up(1 - 1e-12), 1 - 5e-13, down(1), 1, up(1), 1 + 1e-12, 1 + 1e-6, 1.5, 2, 1e6}
	targAll = []float64{-1e6, -0.5, -1e-12, negZ, 0, 5e-324, 1e-12, 1e-6, 0.3, 0.5, 0.7, 1 - 1e-6, 1 - 1e-12, 1, up(1), 1 + 1e-12, 1.5, 2, 1e6}
	predMid = []float64{-1.5, 0, 5e-13, 2e-12, 0.25, 0.8, 1 - 2e-12, 1, 1e6}
	targMid = []float64{-0.5, 0, 0.3, 1, 2}
	predFew = []float64{0, 0.3, 0.9, 1.5}
	targFew = []float64{0, 0.6, 1}
)

// lossShape: how many shapes hold n elements.
func lossShapes(kind string, n int) (r [][]int) {
	if kind != "CE" {
		return [][]int{{n}}
	}
	for b := 1; b <= n; b++ {
		if n%b == 0 {
			r = append(r, []int{b, n / b})
		}
	}
	return
}

func lossLadder(kind string, n int) [][]int {
	if kind != "CE" {
		return [][]int{{n}}
	}
	q := int(math.Sqrt(float64(n)))
	return [][]int{{n, 1}, {1, n}, {q, n / q}, {2, n / 2}, {n / 2, 2}}
}

// lossCase evaluates one batch in all tracking / origin variants.
func lossCase(c *eng.C, kind string, l lossI, p, t ref.T, srcs []int) {
	want, mag := ref.Loss(kind, p, t)
	first := math.NaN()
	for mask := 0; mask < 4; mask++ {
		for _, si := range srcs {
			s := sources[si]
			if !s.ok(p.S) || s.name != "leaf" && mask == 2 || !s.exact(p) || !s.exact(t) {
				continue
			}
			c.Beat()
			c.Op("%s.Compute(%v, %v) predictions from %s, tracked mask %b", kind, p, t, s.name, mask)
			x, _ := s.mk(c, p, mask&1 == 1)
			y, _ := s.mk(c, t, mask&2 == 2)
			r, err := l.Compute(x, y)
			must(c, kind+".Compute", r, err)
			if len(r.Shape()) != 0 {
				c.Fail("%s of %v, %v has shape %v, expected a scalar", kind, p, t, r.Shape())
			}
			v, err := r.At()
			must2(c, "At", err)
			if math.IsNaN(v) || math.IsInf(v, 0) {
				c.Fail("%s of predictions %v and targets %v is %v, expected %v", kind, p, t, v, want)
			}
			if v < 0 {
				c.Fail("%s of predictions %v and targets %v is negative: %v (expected %v)", kind, p, t, v, want)
			}
			if !eqF(v, want, mag) {
				c.Fail("%s of predictions %v and targets %v is %v, expected %v", kind, p, t, v, want)
			}
			if math.IsNaN(first) {
				first = v
			} else if v != first {
				c.Fail("%s of predictions %v and targets %v depends on tracking or on the origin of the inputs: %v and %v", kind, p, t, first, v)
			}
			c.AddValues(1)
		}
	}
	c.Validated()
}

// eachPairs enumerates k-element batches over pairs of the letters.
func eachPairs(ps, ts []float64, k int, f func(p, t []float64) bool) {
	n := len(ps) * len(ts)
	p, t := make([]float64, k), make([]float64, k)
	tuples(n, k, func(q []int) bool {
		for i, j := range q {
			p[i], t[i] = ps[j/len(ts)], ts[j%len(ts)]
		}
		return f(p, t)
	})
}

func runC12(w *eng.W) {
	allSrc := make([]int, len(sources))
	for i := range allSrc {
		allSrc[i] = i
	}
	for _, kind := range lossKinds {
		l := newLoss(kind)
		w.Section(kind + ": single elements")
		eachPairs(predAll, targAll, 1, func(p, t []float64) bool {
			pp, tt := p[0], t[0]
			w.Case(func() string { return fmt.Sprintf("%s p=%v t=%v", kind, pp, tt) }, func(c *eng.C) {
				for _, s := range lossShapes(kind, 1) {
					lossCase(c, kind, l, ref.Of(s, pp), ref.Of(s, tt), allSrc)
				}
				c.Outcome(kind)
			})
			return !w.Stopped()
		})
		// predictions and targets which are large against their difference
		w.Section(kind + ": close pairs")
		for _, b := range []float64{0, 1e-12, 1e-3, 0.1, 0.3, 0.5, 0.9, 1, 7, 1000, 12345.678, 1e5, 999999, 1e6} {
			for _, d := range []float64{0, 5e-324, 1e-300, 1e-160, 1e-20, 1e-15, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 1} {
				w.Case(func() string { return fmt.Sprintf("%s %v and %v apart", kind, b, d) }, func(c *eng.C) {
					for q := 0; q < 8; q++ {
						p, t := b+d, b
						if q&1 == 1 {
							p, t = t, p
						}
						if q&2 == 2 {
							p, t = -p, -t
						}
						if q&4 == 4 {
							t = math.Nextafter(t, p)
						}
						for n := 1; n <= 3; n++ {
							for _, s := range lossShapes(kind, n) {
								lossCase(c, kind, l, ref.Full(s, p), ref.Full(s, t), []int{0})
							}
						}
					}
				})
			}
		}
		for k := 2; k <= 3; k++ {
			ps, ts := predAll, targMid
			if k == 2 && w.Thorough() {
				ts = targAll
			}
			if k == 3 {
				ps, ts = predMid, targFew
				if w.Thorough() {
					ps, ts = predMid, targMid
				}
			}
			w.Section(fmt.Sprintf("%s: batches of %d elements", kind, k))
			eachPairs(ps, ts, k-1, func(p, t []float64) bool {
				p1, t1 := append([]float64{}, p...), append([]float64{}, t...)
				w.Case(func() string { return fmt.Sprintf("%s p=%v+ t=%v+", kind, p1, t1) }, func(c *eng.C) {
					eachPairs(ps, ts, 1, func(p, t []float64) bool {
						for _, s := range lossShapes(kind, k) {
							lossCase(c, kind, l, ref.T{S: s, V: append(append([]float64{}, p1...), p...)}, ref.T{S: s, V: append(append([]float64{}, t1...), t...)}, []int{0})
						}
						return true
					})
				})
				return !w.Stopped()
			})
		}
		// four elements
		w.Section(kind + ": four elements")
		p4, t4 := []float64{-2, 0.4, 1}, []float64{0, 0.9}
		if w.Thorough() {
			p4, t4 = predFew, targFew
		}
		eachPairs(p4, t4, 2, func(p, t []float64) bool {
			p1, t1 := append([]float64{}, p...), append([]float64{}, t...)
			w.Case(func() string { return fmt.Sprintf("%s p=%v+ t=%v+", kind, p1, t1) }, func(c *eng.C) {
				eachPairs(p4, t4, 2, func(p, t []float64) bool {
					for _, s := range lossShapes(kind, 4) {
						lossCase(c, kind, l, ref.T{S: s, V: append(append([]float64{}, p1...), p...)}, ref.T{S: s, V: append(append([]float64{}, t1...), t...)}, []int{0})
					}
					return true
				})
			})
			return !w.Stopped()
		})
		// sizes: positional values, and every one-hot deviation
		w.Section(kind + ": sizes")
		var ss [][]int
		if kind == "CE" {
			for b := 1; b <= w.Pick(8, 17); b++ {
				for k := 1; k <= w.Pick(8, 17); k++ {
					ss = append(ss, []int{b, k})
				}
			}
			ss = append(ss, []int{1, 130}, []int{130, 1}, []int{33, 65})
		} else {
			for b := 1; b <= w.Pick(40, 130); b++ {
				ss = append(ss, []int{b})
			}
			ss = append(ss, []int{255}, []int{256}, []int{257}, []int{1000}, []int{1024}, []int{1025})
		}
		for _, s := range ss {
			w.Case(func() string { return fmt.Sprintf("%s %v", kind, s) }, func(c *eng.C) {
				for q := 0; q < 3; q++ {
					lossCase(c, kind, l, generic(s, q, -0.1, 1.1), generic(s, q+5, -0.1, 1.1), []int{0, 4})
				}
				// one tensor as prediction and as target
				for _, tr := range []bool{false, true} {
					v := generic(s, 2, -0.2, 1.2)
					x := mk(c, v, tr)
					r, err := l.Compute(x, x)
					must(c, kind+".Compute of one tensor", r, err)
					want, mag := ref.Loss(kind, v, v)
					checkT(c, kind+" of a tensor with itself", r, ref.Of([]int{}, want), []float64{mag})
				}
				lossCase(c, kind, l, generic(s, 1, -1e6, 1e6), generic(s, 2, -1e6, 1e6), []int{0})
				n := ref.Prod(s)
				for i := 0; i < n && n <= 64; i++ {
					p, t := ref.Full(s, 0.5), ref.Full(s, 0.25)
					p.V[i] = 0.875
					lossCase(c, kind, l, p, t, []int{0})
					t.V[i] = 1
					lossCase(c, kind, l, p, t, []int{0})
					lossCase(c, kind, l, ref.Full(s, 0.5), t, []int{0})
				}
				// one-hot targets with a distribution as prediction, perfect predictions, totally wrong predictions
				for i := 0; i < n && n <= 64; i++ {
					hot := ref.New(s)
					hot.V[i] = 1
					lossCase(c, kind, l, generic(s, 1, 0.05, 0.95), hot, []int{0})
					lossCase(c, kind, l, hot, hot, []int{0})
					lossCase(c, kind, l, mapT(hot, func(i int, v float64) float64 { return 1 - v }), hot, []int{0})
				}
			})
		}
		w.Section(kind + ": size ladder")
		for _, n := range ladder(16385) {
			for _, s := range lossLadder(kind, n) {
				w.Case(func() string { return fmt.Sprintf("%s ladder %v", kind, s) }, func(c *eng.C) {
					lossCase(c, kind, l, generic(s, n, -0.1, 1.1), generic(s, n+5, -0.1, 1.1), []int{0})
					lossCase(c, kind, l, ref.Full(s, 0.25), generic(s, n+2, 0, 1), []int{0})
				})
			}
		}
		giantsLoss(w, kind, func(c *eng.C, s []int, n int) {
			lossCase(c, kind, l, generic(s, n, -0.1, 1.1), generic(s, n+5, -0.1, 1.1), []int{0})
		})
		if kind == "CE" {
			gridLoss(w, func(c *eng.C, s []int, k int) {
				lossCase(c, kind, l, generic(s, k, -0.1, 1.1), generic(s, k+5, -0.1, 1.1), []int{0})
			})
		}
		// a loss object keeps nothing between calls
		w.Section(kind + ": histories")
		var hs [][]int
		if kind == "CE" {
			hs = [][]int{{1, 1}, {2, 1}, {1, 3}, {3, 2}}
		} else {
			hs = [][]int{{1}, {2}, {3}, {5}}
		}
		tuples(len(hs)+1, w.Pick(3, 4), func(q []int) bool {
			seq := ref.CopyInts(q)
			w.Case(func() string { return fmt.Sprintf("%s history %v", kind, seq) }, func(c *eng.C) {
				obj := newLoss(kind)
				for i, k := range seq {
					if k == len(hs) { // a rejected call
						if r, err := obj.Compute(mk(c, mixed([]int{2}, 0), true), mk(c, mixed([]int{3, 1}, 0), true)); err == nil || r != nil {
							c.Fail("%s accepted mismatched inputs", kind)
						}
						continue
					}
					lossCase(c, kind, obj, generic(hs[k], i, -0.1, 1.1), generic(hs[k], i+3, -0.1, 1.1), []int{0})
				}
			})
			return !w.Stopped()
		})
	}
}

func init() {
	register(&eng.Check{ID: "C12", Run: runC12,
		Bounds: func(tier string) string {
			b := fmt.Sprintf("MSE, BCE, CE: every prediction letter (%d, including both clipping bounds, their floating-point neighbours, 0, -0, 1, values outside and +-1e6) x every target letter (%d) as a single element in every tracking mask and from %d kinds of origin; 14 magnitudes x 18 differences of prediction and target; ", len(predAll), len(targAll), len(sources))
			if tier == "thorough" {
				return b + "all 2-element batches over 36x19 letters, 3-element over 9x5, 4-element over 4x3, every factorisation into [batch, classes]; sizes: batches 1..130 and up to 1025, CE 1..17 x 1..17 with positional values and every one-hot deviation; a ladder of sizes up to 16385 elements; all histories of 4 calls on one loss object"
			}
			return b + "all 2-element batches over 36x5 letters, 3-element over 9x3, 4-element over 3x2, every factorisation into [batch, classes]; sizes: batches 1..40 and up to 1025, CE 1..8 x 1..8 with positional values and every one-hot deviation; a ladder of sizes up to 16385 elements; all histories of 3 calls on one loss object"
		},
		Assumptions: []string{"values compared with relative tolerance 1e-9 (absolute 1e-15 per element for logarithms next to 1)"}})
}
