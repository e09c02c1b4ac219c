package ref

import "math"

// Reference definitions of layers, activations and losses with their analytic derivatives. Independent of the graph
// semantics in ref.go: nothing here accumulates over sub-expressions.

// FC is y[b][o] = w[o]*sum_d x[b][d] + bias[o].
func FC(x, w, bias T) (y T, mag []float64) {
	b, d, o := x.S[0], x.S[1], w.S[0]
	y = New([]int{b, o})
	mag = make([]float64, b*o)
	for i := 0; i < b; i++ {
		s, a := 0.0, 0.0
		for k := 0; k < d; k++ {
			s += x.V[i*d+k]
			a += math.Abs(x.V[i*d+k])
		}
		for j := 0; j < o; j++ {
			y.V[i*o+j] = w.V[j]*s + bias.V[j]
			mag[i*o+j] = math.Abs(w.V[j])*a + math.Abs(bias.V[j])
		}
	}
	return
}

// FCBack gives the derivatives for upstream g, with magnitudes (sums of absolute terms; gm bounds |g|).
func FCBack(x, w T, g, gm []float64) (gx, gw, gb, mx, mw, mb []float64) {
	b, d, o := x.S[0], x.S[1], w.S[0]
	gx, mx = make([]float64, b*d), make([]float64, b*d)
	gw, mw = make([]float64, o), make([]float64, o)
	gb, mb = make([]float64, o), make([]float64, o)
	for i := 0; i < b; i++ {
		for j := 0; j < o; j++ {
			u, m := g[i*o+j], gm[i*o+j]
			gb[j] += u
			mb[j] += m
			for k := 0; k < d; k++ {
				gx[i*d+k] += u * w.V[j]
				mx[i*d+k] += m * math.Abs(w.V[j])
				gw[j] += u * x.V[i*d+k]
				mw[j] += m * math.Abs(x.V[i*d+k])
			}
		}
	}
	return
}

// Act is an activation: kind Relu, LeakyRelu (slope M), Sigmoid, Tanh, Softmax (dimension Dim), or Identity.
type Act struct {
	Kind string
	M    float64
	Dim  int
}

func sig(v float64) float64 {
	if v >= 0 {
		return 1 / (1 + math.Exp(-v))
	}
	e := math.Exp(v)
	return e / (1 + e)
}

// sig1 is 1-sig(v) without cancellation.
func sig1(v float64) float64 { return sig(-v) }

// lines calls f with the positions of every line of s along dim.
func lines(s []int, dim int, f func(p []int)) {
	st := Strides(s)
	n := Prod(s)
	ix := make([]int, len(s))
	p := make([]int, s[dim])
	for q := 0; q < n; q++ {
		Unravel(q, s, ix)
		if ix[dim] != 0 {
			continue
		}
		for k := range p {
			p[k] = q + k*st[dim]
		}
		f(p)
	}
}

func (a Act) Forward(x T) T {
	y := New(x.S)
	switch a.Kind {
	case "Identity":
		copy(y.V, x.V)
	case "Relu":
		for i, v := range x.V {
			y.V[i] = math.Max(0, v)
		}
	case "LeakyRelu":
		for i, v := range x.V {
			y.V[i] = math.Max(0, v) + a.M*math.Min(0, v)
		}
	case "Sigmoid":
		for i, v := range x.V {
			y.V[i] = sig(v)
		}
	case "Tanh":
		for i, v := range x.V {
			y.V[i] = math.Tanh(v)
		}
	case "Softmax":
		lines(x.S, a.Dim, func(p []int) {
			m := math.Inf(-1)
			for _, i := range p {
				m = math.Max(m, x.V[i])
			}
			s := 0.0
			for _, i := range p {
				s += math.Exp(x.V[i] - m)
			}
			for _, i := range p {
				y.V[i] = math.Exp(x.V[i]-m) / s
			}
		})
	default:
		panic(a.Kind)
	}
	return y
}

// Back gives upstream times derivative. lo/hi differ only where the derivative is an interval (at a kink).
// Magnitudes are relative to the sum of absolute terms.
func (a Act) Back(x T, g, gm []float64) (lo, hi, mag []float64) {
	n := len(x.V)
	lo, hi, mag = make([]float64, n), make([]float64, n), make([]float64, n)
	set := func(i int, d float64) {
		lo[i] = g[i] * d
		hi[i] = lo[i]
		mag[i] = gm[i] * math.Abs(d)
	}
	switch a.Kind {
	case "Identity":
		for i := range x.V {
			set(i, 1)
		}
	case "Relu", "LeakyRelu":
		m := a.M
		if a.Kind == "Relu" {
			m = 0
		}
		for i, v := range x.V {
			switch {
			case v > 1e-239: // the library's equality threshold is 1e-240
				set(i, 1)
			case v < -1e-239:
				set(i, m)
			default:
				lo[i] = math.Min(g[i]*m, g[i])
				hi[i] = math.Max(g[i]*m, g[i])
				mag[i] = gm[i] * (1 + math.Abs(m))
			}
		}
	case "Sigmoid":
		for i, v := range x.V {
			set(i, sig(v)*sig1(v))
			mag[i] = math.Max(mag[i], gm[i]*1e-6) // s(1-s) computed literally cancels
		}
	case "Tanh":
		for i, v := range x.V {
			c := math.Cosh(v)
			d := 1 / (c * c)
			set(i, d)
			// 1-tanh^2 computed literally cancels; allow it
			mag[i] = math.Max(mag[i], gm[i]*1e-6)
		}
	case "Softmax":
		y := a.Forward(x)
		lines(x.S, a.Dim, func(p []int) {
			s, sm := 0.0, 0.0
			for _, j := range p {
				s += y.V[j] * g[j]
				sm += y.V[j] * gm[j]
			}
			for _, i := range p {
				lo[i] = y.V[i] * (g[i] - s)
				hi[i] = lo[i]
				mag[i] = y.V[i] * (gm[i] + sm)
			}
		})
	}
	return
}

// Eps is the clipping distance of BCE and CE.
const Eps = 1e-12

func clip(v, a, b float64) float64 { return math.Max(a, math.Min(b, v)) }

// Loss computes MSE, BCE (both over [batch]) or CE (over [batch, classes]).
func Loss(kind string, p, t T) (v, mag float64) {
	n := float64(p.S[0])
	for i := range p.V {
		switch kind {
		case "MSE":
			d := p.V[i] - t.V[i]
			v += d * d
			// the difference itself is exact to one rounding
			mag += d*d + 1e-290 // absolute term: squares may be subnormal
		case "BCE":
			q, u := clip(p.V[i], Eps, 1-Eps), clip(t.V[i], 0, 1)
			v -= u*math.Log(q) + (1-u)*math.Log(1-q)
			// log(1-q) and log(q) near 1 are computed from rounded arguments: absolute error of one ulp
			mag += math.Abs(u*math.Log(q)) + math.Abs((1-u)*math.Log(1-q)) + 1e-6
		case "CE":
			q, u := clip(p.V[i], Eps, 1-Eps), clip(t.V[i], 0, 1)
			v -= u * math.Log(q)
			mag += math.Abs(u*math.Log(q)) + 1e-6
		default:
			panic(kind)
		}
	}
	return v / n, mag / n
}

// LossBack gives the derivative with respect to the predictions. bound[i] marks predictions exactly on a clipping bound,
// where no value is defined. Targets are clipped to [0,1] for BCE and CE.
func LossBack(kind string, p, t T) (g, mag []float64, bound []bool) {
	n := float64(p.S[0])
	g, mag, bound = make([]float64, len(p.V)), make([]float64, len(p.V)), make([]bool, len(p.V))
	for i, q := range p.V {
		u := t.V[i]
		if kind == "MSE" {
			g[i] = 2 * (q - u) / n
			mag[i] = 2 * (math.Abs(q) + math.Abs(u)) / n
			continue
		}
		u = clip(u, 0, 1)
		if q == Eps || q == 1-Eps {
			bound[i] = true
		}
		if q <= Eps || q >= 1-Eps {
			continue
		}
		if kind == "BCE" {
			g[i] = ((1-u)/(1-q) - u/q) / n
			mag[i] = ((1-u)/(1-q) + u/q) / n
		} else {
			g[i] = -(u / q) / n
			mag[i] = (u / q) / n
		}
	}
	return
}
