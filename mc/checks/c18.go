package checks

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verifmc/eng"
	"verifmc/ref"
)

// sampler is a random initializer or constructor with its parameters and its specified distribution.
type sampler struct {
	name    string
	normal  bool
	lo, hi  float64 // uniform: support
	mu, sd  float64 // normal
	tracked bool
	mk      func() func(s []int) (tn, error) // builds the object
}

func sUniform(nilConf bool, l, u float64) sampler {
	var cf *initializers.UniformConfig
	name := fmt.Sprintf("Uniform[%v,%v)", l, u)
	if !nilConf {
		cf = &initializers.UniformConfig{Lower: l, Upper: u}
	} else {
		name = "Uniform(nil)"
	}
	return sampler{name: name, lo: l, hi: u, tracked: true, mk: func() func(s []int) (tn, error) {
		cf := cf
		if cf != nil {
			cp := *cf
			cf = &cp
		}
		o, err := initializers.NewUniform(cf)
		if cf != nil {
			*cf = initializers.UniformConfig{Lower: 4e6, Upper: 5e6} // the configuration stays the caller's
		}
		if err != nil {
			return failInit(err)
		}
		return o.Init
	}}
}

func failInit(err error) func(s []int) (tn, error) {
	return func([]int) (tn, error) { return nil, err }
}

func sNormal(nilConf bool, m, sd float64) sampler {
	var cf *initializers.NormalConfig
	name := fmt.Sprintf("Normal(%v,%v)", m, sd)
	if !nilConf {
		cf = &initializers.NormalConfig{Mean: m, StdDev: sd}
	} else {
		name = "Normal(nil)"
	}
	return sampler{name: name, normal: true, mu: m, sd: sd, tracked: true, mk: func() func(s []int) (tn, error) {
		cf := cf
		if cf != nil {
			cp := *cf
			cf = &cp
		}
		o, err := initializers.NewNormal(cf)
		if cf != nil {
			*cf = initializers.NormalConfig{Mean: 4e6, StdDev: 1e-3} // the configuration stays the caller's
		}
		if err != nil {
			return failInit(err)
		}
		return o.Init
	}}
}

func sHe(normal bool, fan int) sampler {
	if normal {
		return sampler{name: fmt.Sprintf("HeNormal(%d)", fan), normal: true, sd: math.Sqrt(2 / float64(fan)), tracked: true, mk: func() func(s []int) (tn, error) {
			cf := &initializers.HeNormalConfig{FanIn: fan}
			o, err := initializers.NewHeNormal(cf)
			*cf = initializers.HeNormalConfig{FanIn: 1 << 40} // the configuration stays the caller's
			if err != nil {
				return failInit(err)
			}
			return o.Init
		}}
	}
	r := math.Sqrt(6 / float64(fan))
	return sampler{name: fmt.Sprintf("HeUniform(%d)", fan), lo: -r, hi: r, tracked: true, mk: func() func(s []int) (tn, error) {
		cf := &initializers.HeUniformConfig{FanIn: fan}
		o, err := initializers.NewHeUniform(cf)
		*cf = initializers.HeUniformConfig{FanIn: 1 << 40} // the configuration stays the caller's
		if err != nil {
			return failInit(err)
		}
		return o.Init
	}}
}

func sXavier(normal bool, in, out int) sampler {
	f := float64(in) + float64(out)
	if normal {
		return sampler{name: fmt.Sprintf("XavierNormal(%d,%d)", in, out), normal: true, sd: math.Sqrt(2 / f), tracked: true, mk: func() func(s []int) (tn, error) {
			cf := &initializers.XavierNormalConfig{FanIn: in, FanOut: out}
			o, err := initializers.NewXavierNormal(cf)
			*cf = initializers.XavierNormalConfig{FanIn: 1 << 40, FanOut: 1} // the configuration stays the caller's
			if err != nil {
				return failInit(err)
			}
			return o.Init
		}}
	}
	r := math.Sqrt(6 / f)
	return sampler{name: fmt.Sprintf("XavierUniform(%d,%d)", in, out), lo: -r, hi: r, tracked: true, mk: func() func(s []int) (tn, error) {
		cf := &initializers.XavierUniformConfig{FanIn: in, FanOut: out}
		o, err := initializers.NewXavierUniform(cf)
		*cf = initializers.XavierUniformConfig{FanIn: 1 << 40, FanOut: 1} // the configuration stays the caller's
		if err != nil {
			return failInit(err)
		}
		return o.Init
	}}
}

func sRandU(l, u float64, tr bool) sampler {
	return sampler{name: fmt.Sprintf("RandU[%v,%v) tracked %v", l, u, tr), lo: l, hi: u, tracked: tr, mk: func() func(s []int) (tn, error) {
		return func(s []int) (tn, error) { return tensor.RandU(s, l, u, conf(tr)) }
	}}
}

func sRandN(m, sd float64, tr bool) sampler {
	return sampler{name: fmt.Sprintf("RandN(%v,%v) tracked %v", m, sd, tr), normal: true, mu: m, sd: sd, tracked: tr, mk: func() func(s []int) (tn, error) {
		return func(s []int) (tn, error) { return tensor.RandN(s, m, sd, conf(tr)) }
	}}
}

// eight representatives, one per kind.
func samplerKinds() []sampler {
	return []sampler{sRandU(-1, 3, true), sRandN(2, 0.5, false), sUniform(true, -0.05, 0.05), sNormal(true, 0, 0.05), sHe(false, 5), sHe(true, 7), sXavier(false, 3, 4), sXavier(true, 2, 6)}
}

// inSupport checks one element.
func (s *sampler) inSupport(c *eng.C, v float64, how string) {
	if math.IsNaN(v) || math.IsInf(v, 0) {
		c.Fail("%s: element %v (%s)", s.name, v, how)
	}
	if !s.normal && !(v >= s.lo && v < s.hi) {
		c.Fail("%s: element %v outside [%v, %v) (%s)", s.name, v, s.lo, s.hi, how)
	}
	if s.normal && math.Abs(v-s.mu) > 20*s.sd {
		c.Fail("%s: element %v is more than 20 standard deviations away from the mean (%s)", s.name, v, how)
	}
}

// call is one Init call of a program.
type rcall struct {
	s     *sampler
	f     func(s []int) (tn, error)
	shape []int
}

// runTape runs the calls on a tape and returns the elements of all results.
func runTape(c *eng.C, calls []rcall, tp *tape) (v []float64) {
	tp.pos, tp.seeds = 0, 0
	tp.install()
	for _, k := range calls {
		x, err := k.f(ref.CopyInts(k.shape))
		must(c, k.s.name, x, err)
		t := get(c, k.s.name, x)
		if !ref.SameShape(t.S, k.shape) {
			c.Fail("%s: asked for shape %v, got %v", k.s.name, k.shape, t.S)
		}
		for _, e := range t.V {
			k.s.inSupport(c, e, "tape")
		}
		v = append(v, t.V...)
	}
	c.Op("%d calls on a tape", len(calls))
	return
}

// uniform and normal letters: words that use exactly one request each.
func letterWords(normal bool, n int) (w []uint64) {
	if !normal {
		for i := 0; i < n; i++ {
			w = append(w, unitWord(uint64((float64(i)+0.5)/float64(n)*(1<<53))))
		}
		return
	}
	for i := 0; len(w) < n; i++ {
		m := int32(float64(1<<23) * (math.Mod(0.618*float64(i+1), 1)*2 - 1) * 0.9)
		a := normWord(20+(i*37)%100, m)
		if _, k := refNorm([]uint64{a}); k == 1 {
			w = append(w, a)
		}
	}
	return
}

// controlled tells whether the library's samples come from the tape.
func controlled(c *eng.C, s *sampler) bool {
	f := s.mk()
	tp := &tape{}
	runTape(c, []rcall{{s, f, []int{3}}}, tp)
	return tp.pos > 0
}

// scale decides location and scale of one sampler by enumerating answers for a single element.
func samplerScale(c *eng.C, s *sampler) {
	f := s.mk()
	if !controlled(c, s) {
		blackBox(c, s, f)
		return
	}
	one := []rcall{{s, f, []int{}}}
	unit := s.unit()
	at := func(w ...uint64) float64 {
		c.Beat()
		return runTape(c, one, &tape{ans: w})[0] * unit
	}
	words := letterWords(s.normal, 64)
	var x, y []float64
	for _, w := range words {
		r, _ := refUnit([]uint64{w})
		if s.normal {
			r, _ = refNorm([]uint64{w})
		}
		x = append(x, r)
		y = append(y, at(w))
	}
	// recognise y = a + b*x
	i, j := 0, 0
	for k := range x {
		if x[k] < x[i] {
			i = k
		}
		if x[k] > x[j] {
			j = k
		}
	}
	b := (y[j] - y[i]) / (x[j] - x[i])
	a := y[i] - b*x[i]
	mag := 0.0
	for k := range y {
		mag = math.Max(mag, math.Abs(y[k]))
	}
	affine := true
	for k := range x {
		if math.Abs(a+b*x[k]-y[k]) > 1e-9*math.Abs(b)+1e-13*mag+5e-324 {
			affine = false
		}
	}
	var wantA, wantB float64
	if s.normal {
		wantA, wantB = s.mu, s.sd
	} else {
		lo, hi := s.lo*unit, s.hi*unit
		wantA, wantB = lo, hi-lo
		if b < 0 {
			wantA, wantB = hi, lo-hi
		}
	}
	if s.normal && b < 0 {
		wantB = -wantB
	}
	if affine && s.normal {
		// answers that leave the fast path: wedges of the ziggurat and its tail (several words per sample)
		for _, layer := range []int{0, 1, 2, 3, 60, 126, 127} {
			for _, m := range []int32{1<<24 - 1, 1 - 1<<24, 1<<24 - 1<<12, 1<<12 - 1<<24, 1<<24 - 1<<19} {
				for _, u1 := range []float64{1e-15, 1e-9, 1e-6, 1e-4, 1e-2, 0.1, 0.3, 0.5, 0.9, 0.99, 1 - 1e-9} {
					for _, u2 := range []float64{1e-15, 1e-3, 0.5, 0.999} {
						ans := []uint64{normWord(layer, m), unitWord(uint64(u1 * (1 << 53))), unitWord(uint64(u2 * (1 << 53))), words[0]}
						if z, k := refNorm(ans); k <= len(ans) {
							if got := at(ans...); math.Abs(got-(a+b*z)) > 1e-9*math.Abs(b*z)+1e-13*mag+5e-324 {
								c.Fail("%s: sample %v where the standard normal sample is %v, expected %v", s.name, got, z, a+b*z)
							}
						}
					}
				}
			}
		}
	}
	if affine {
		tol := 1e-9*math.Abs(wantB) + 4e-13*math.Max(mag, math.Abs(wantA)) + 5e-324
		if math.Abs(a-wantA) > tol || math.Abs(b-wantB) > tol {
			if s.normal {
				c.Fail("%s: samples are %v + %v*z for standard normal z, expected %v + %v*z", s.name, a, b, wantA, wantB)
			}
			c.Fail("%s: samples fill [%v, %v), expected [%v, %v)", s.name, math.Min(a, a+b)/unit, math.Max(a, a+b)/unit, s.lo, s.hi)
		}
		c.Outcome("affine in the answer")
	} else {
		quantiles(c, s, f)
		c.Outcome("judged by quantiles")
	}
	// extreme answers stay within the support
	for _, w := range []uint64{0, 1, 2, 1<<53 - 1, 1<<53 - 2, 1<<53 - 3, 1 << 52, 1<<52 - 1, math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1<<63 - 1, 0xFFFFFFFF, 0xFFFFFFFF00000000, 0x7FFFFFFF00000000, 0x8000000000000000, 0x7FFFFF80 << 32, 0x80000080 << 32} {
		for _, w2 := range []uint64{0, 1<<53 - 1, 1 << 52, math.MaxUint64} {
			v := runTape(c, []rcall{{s, f, []int{2}}}, &tape{ans: []uint64{w, w2, 1 << 52, 1 << 51}})
			for _, e := range v {
				s.inSupport(c, e, fmt.Sprintf("extreme answers %#x %#x", w, w2))
			}
		}
	}
	c.AddValues(len(words))
	c.Validated()
}

// quantiles compares the sorted samples of an equidistributed set of answers with the specified quantiles.
func quantiles(c *eng.C, s *sampler, f func([]int) (tn, error)) {
	const n = 20000
	v := runTape(c, []rcall{{s, f, []int{n}}}, &tape{})
	judgeSample(c, s, v)
}

// grain is the part of the distribution's spread which rounding a sample to a neighbouring float64 amounts to:
// close to 1 and more where only a handful of values lie inside the interval.
func (s *sampler) grain() float64 {
	ulp := func(x float64) float64 { x = math.Abs(x); return math.Nextafter(x, math.Inf(1)) - x }
	if s.normal {
		return 2 * ulp(s.mu) / s.sd
	}
	k := s.unit()
	return 2 * math.Max(ulp(s.lo*k), ulp(s.hi*k)) / (s.hi*k - s.lo*k)
}

// unit is the unit in which samples are judged: a quarter where the width of the interval overflows.
func (s *sampler) unit() float64 {
	if !s.normal && math.IsInf(s.hi-s.lo, 1) {
		return 0.25
	}
	return 1
}

// judgeSample: Kolmogorov distance, mean and standard deviation of a sample of an equidistributed sequence.
func judgeSample(c *eng.C, s *sampler, v []float64) {
	n := float64(len(v))
	unit := s.unit()
	lo, hi := s.lo*unit, s.hi*unit
	o := append([]float64{}, v...)
	for i := range o {
		o[i] *= unit
	}
	v = append([]float64{}, o...)
	sort.Float64s(o)
	d := 0.0
	for i, x := range o {
		var p float64
		if s.normal {
			p = normCDF((x - s.mu) / s.sd)
		} else {
			p = (x - lo) / (hi - lo)
		}
		d = math.Max(d, math.Max(math.Abs(p-float64(i)/n), math.Abs(p-float64(i+1)/n)))
	}
	grain := s.grain()
	if d > 5/math.Sqrt(n)+grain {
		c.Fail("%s: %d samples have Kolmogorov distance %v from the specified distribution (limit %v)", s.name, len(v), d, 5/math.Sqrt(n)+grain)
	}
	mean, sd := s.mu, s.sd
	if !s.normal {
		mean, sd = lo+(hi-lo)/2, (hi-lo)/math.Sqrt(12)
	}
	m := 0.0
	for _, x := range v {
		m += (x - mean) / sd
	}
	m /= n
	q := 0.0
	for _, x := range v {
		z := (x-mean)/sd - m
		q += z * z
	}
	q = math.Sqrt(q / n)
	if lim := 8/math.Sqrt(n) + 4*grain; math.Abs(m) > lim || math.Abs(q-1) > lim {
		c.Fail("%s: %d samples have mean %v and standard deviation %v, expected %v and %v", s.name, len(v), mean+m*sd, q*sd, mean, sd)
	}
}

// blackBox: the library does not draw from the source under control; what remains are properties of large samples.
func blackBox(c *eng.C, s *sampler, f func([]int) (tn, error)) {
	c.Worker().Incomplete("the library does not sample from the controlled source; " + s.name + " judged on large samples only")
	var all []float64
	for k := 0; k < 4; k++ {
		x, err := f([]int{5000})
		must(c, s.name, x, err)
		v := get(c, s.name, x).V
		for _, e := range v {
			s.inSupport(c, e, "sample")
		}
		all = append(all, v...)
	}
	judgeSample(c, s, all)
	if s.grain()*float64(len(all)) < 1e-4 {
		distinct(c, s.name, all)
	}
	c.Outcome("uncontrolled source")
}

func distinct(c *eng.C, what string, v []float64) {
	m := map[float64]int{}
	dup := 0
	for i, x := range v {
		if j, ok := m[x]; ok {
			dup++
			if dup > 2+len(v)/1000 {
				c.Fail("%s: elements repeat (for example %d and %d are both %v): draws are not fresh", what, j, i, x)
			}
		}
		m[x] = i
	}
}

// program decides freshness and independence of a sequence of calls: which answers does every element depend on?
func rprogram(c *eng.C, calls []rcall) {
	c.Beat()
	var desc []string
	kinds := []bool{}
	for _, k := range calls {
		desc = append(desc, fmt.Sprintf("%s %v", k.s.name, k.shape))
		for i := 0; i < ref.Prod(k.shape); i++ {
			kinds = append(kinds, k.s.normal)
		}
	}
	what := strings.Join(desc, "; ")
	n := len(kinds)
	ws := [2][]uint64{letterWords(false, 16), letterWords(true, 16)}
	pick := func(normal bool, i int) uint64 {
		if normal {
			return ws[1][i%16]
		}
		return ws[0][i%16]
	}
	base := &tape{}
	for i := 0; i < n; i++ {
		base.ans = append(base.ans, pick(kinds[i], 3*i+1))
	}
	v0 := runTape(c, calls, base)
	if base.pos == 0 {
		distinct(c, what, v0)
		v1 := runTape(c, calls, base)
		same := 0
		for i := range v0 {
			if v0[i] == v1[i] {
				same++
			}
		}
		if same == len(v0) {
			c.Fail("%s: running the calls again gives the same elements: draws are not fresh", what)
		}
		c.Worker().Incomplete("the library does not sample from the controlled source")
		return
	}
	if base.seeds > 0 {
		c.Fail("%s: the random source was re-seeded by the calls", what)
	}
	used := base.pos
	if used < n {
		c.Fail("%s: %d elements from %d answers of the random source: elements are not independent", what, n, used)
	}
	dep := make([][]int, n) // element -> answers
	shift := false
	for j := 0; j < used; j++ {
		for l := 0; l < 3; l++ {
			t := &tape{ans: append([]uint64{}, base.ans...)}
			for len(t.ans) <= j {
				t.ans = append(t.ans, mix64(uint64(len(t.ans))*0xD1342543DE82EF95))
			}
			nm := j < n && kinds[j]
			t.ans[j] = pick(nm, 3*j+4+5*l)
			v := runTape(c, calls, t)
			if t.pos != used {
				shift = true
			}
			for i := range v {
				if v[i] != v0[i] && (len(dep[i]) == 0 || dep[i][len(dep[i])-1] != j) {
					dep[i] = append(dep[i], j)
				}
			}
		}
	}
	owner := map[int]int{}
	disjoint := true
	for i := range dep {
		if len(dep[i]) == 0 {
			c.Fail("%s: element %d does not depend on the random source (%v)", what, i, v0[i])
		}
		for _, j := range dep[i] {
			if _, ok := owner[j]; ok {
				disjoint = false
			}
			owner[j] = i
		}
	}
	c.AddValues(n)
	c.StateS(what)
	if disjoint && !shift {
		c.Outcome("every element has its own answers")
		c.Validated()
		return
	}
	// shared answers: legitimate only if the elements are still uncorrelated
	if m := matching(dep, used); m < n {
		c.Fail("%s: %d elements are functions of fewer than %d answers (at most %d can be told apart): elements are not independent", what, n, n, m)
	}
	correlated(c, what, calls, n)
	c.Outcome("shared answers, uncorrelated")
	c.Validated()
}

// matching is the size of a maximum matching between elements and answers.
func matching(dep [][]int, m int) int {
	to := make([]int, m)
	for i := range to {
		to[i] = -1
	}
	var try func(i int, seen []bool) bool
	try = func(i int, seen []bool) bool {
		for _, j := range dep[i] {
			if seen[j] {
				continue
			}
			seen[j] = true
			if to[j] < 0 || try(to[j], seen) {
				to[j] = i
				return true
			}
		}
		return false
	}
	n := 0
	for i := range dep {
		if try(i, make([]bool, m)) {
			n++
		}
	}
	return n
}

func correlated(c *eng.C, what string, calls []rcall, n int) {
	const runs = 1500
	z := make([][]float64, n)
	for r := 0; r < runs; r++ {
		c.Beat()
		v := runTape(c, calls, &tape{salt: uint64(r + 1)})
		for i := range v {
			z[i] = append(z[i], v[i])
		}
	}
	for i := range z {
		m, q := 0.0, 0.0
		for _, x := range z[i] {
			m += x
		}
		m /= runs
		for _, x := range z[i] {
			q += (x - m) * (x - m)
		}
		q = math.Sqrt(q / runs)
		for k := range z[i] {
			z[i][k] = (z[i][k] - m) / q
		}
	}
	for i := range z {
		for j := 0; j < i; j++ {
			r := 0.0
			for k := range z[i] {
				r += z[i][k] * z[j][k]
			}
			if r /= runs; math.Abs(r) > 0.2 {
				c.Fail("%s: elements %d and %d are correlated (%v over %d tapes)", what, j, i, r, runs)
			}
		}
	}
}

// checkTracked: the tensor is tracked iff it should be, has no gradient yet, and is a usable leaf.
func checkInitTracked(c *eng.C, what string, x tn, tracked bool) {
	if x.Gradient() != nil {
		c.Fail("%s: fresh tensor has a gradient", what)
	}
	y := x.Scale(3)
	bp(c, what, y)
	g := x.Gradient()
	if !tracked {
		if g != nil {
			c.Fail("%s: tensor is tracked", what)
		}
		return
	}
	if g == nil {
		c.Fail("%s: tensor is not tracked", what)
	}
	checkT(c, what+": gradient", g, ref.Full(x.Shape(), 3), nil)
}

func runC18(w *eng.W) {
	all := shapes(5, []int{1, 2, 3}, w.Pick(48, 243))
	all = append(all, []int{64}, []int{1000}, []int{33, 7}, []int{7, 5, 4}, []int{2, 2, 2, 2, 2, 2})
	w.Section("shapes, support and tracking")
	for _, s := range all {
		w.Case(func() string { return fmt.Sprint(s) }, func(c *eng.C) {
			ks := append(samplerKinds(), sRandU(0, 1, false), sRandN(0, 1, true))
			for i := range ks {
				k := &ks[i]
				f := k.mk()
				for salt := uint64(0); salt < 2; salt++ {
					c.Beat()
					tp := &tape{salt: salt}
					tp.install()
					x, err := f(ref.CopyInts(s))
					must(c, k.name, x, err)
					t := get(c, k.name, x)
					if !ref.SameShape(t.S, s) {
						c.Fail("%s: asked for shape %v, got %v", k.name, s, t.S)
					}
					for _, e := range t.V {
						k.inSupport(c, e, "tape")
					}
					if ref.Prod(s) > 1 {
						distinct(c, k.name+" "+ints(s), t.V)
					}
					checkInitTracked(c, k.name+" "+ints(s), x, k.tracked)
					checkBits(c, k.name, x, t)
				}
			}
			for _, v := range []float64{0, 1, -2.5, 1e300, 1e-300, negZ, 7} {
				cf := &initializers.FullConfig{Value: v}
				o := initializers.NewFull(cf)
				cf.Value = 12345
				for r := 0; r < 2; r++ {
					x, err := o.Init(ref.CopyInts(s))
					must(c, "Full", x, err)
					checkT(c, fmt.Sprintf("Full(%v)", v), x, ref.Full(s, v), nil)
					checkInitTracked(c, "Full "+ints(s), x, true)
				}
			}
			x, err := initializers.NewFull(nil).Init(ref.CopyInts(s))
			must(c, "Full(nil)", x, err)
			checkT(c, "Full(nil)", x, ref.New(s), nil)
			checkInitTracked(c, "Full(nil) "+ints(s), x, true)
			c.Validated()
		})
	}
	w.Section("location and scale")
	var ss []sampler
	ss = append(ss, sUniform(true, -0.05, 0.05), sNormal(true, 0, 0.05))
	for _, p := range [][2]float64{{0, 1}, {-1, 1}, {-0.05, 0.05}, {2, 5}, {-5, -2}, {0.1, 0.3}, {1, up(1)}, {1, up(up(up(1)))}, {1e-300, 2e-300}, {-1e6, 1e6}, {0, math.MaxFloat64}, {-math.MaxFloat64, math.MaxFloat64}, {-1e308, 1.5e308}, {-math.MaxFloat64, 1e300}, {-1e-12, 1e12}, {-1, 0}, {0, 5e-324}, {1e16, 1e16 + 2}, {-3, 1e-9}} {
		ss = append(ss, sUniform(false, p[0], p[1]), sRandU(p[0], p[1], true), sRandU(p[0], p[1], false))
	}
	for _, p := range [][2]float64{{0, 1}, {0, 0.05}, {3, 0.5}, {-2, 1e-3}, {1e6, 1}, {0, 1e-300}, {5, 1e6}, {-0.25, 4}, {1, 1e150}} {
		ss = append(ss, sNormal(false, p[0], p[1]), sRandN(p[0], p[1], true), sRandN(p[0], p[1], false))
	}
	fans := []int{}
	for i := 1; i <= w.Pick(300, 2000); i++ {
		fans = append(fans, i)
	}
	fans = append(fans, 512, 784, 1000, 1024, 4096, 1_000_000, 1<<31-1, 1<<31, 1<<32, 1<<40, 1<<62, math.MaxInt)
	for _, f := range fans {
		ss = append(ss, sHe(false, f), sHe(true, f))
	}
	fx := append([]int{}, fans[:w.Pick(40, 120)]...)
	fx = append(fx, 100, 784, 4096, 1_000_000, 1<<31, 1<<62, math.MaxInt)
	for _, f := range fx {
		for _, g := range fx {
			ss = append(ss, sXavier(false, f, g), sXavier(true, f, g))
		}
	}
	for i := range ss {
		w.Case(func() string { return ss[i].name }, func(c *eng.C) { samplerScale(c, &ss[i]) })
	}
	w.Section("independence of positions")
	for _, s := range shapes(5, []int{1, 2, 3}, w.Pick(24, 81)) {
		w.Case(func() string { return fmt.Sprint(s) }, func(c *eng.C) {
			ks := samplerKinds()
			for i := range ks {
				rprogram(c, []rcall{{&ks[i], ks[i].mk(), s}})
			}
		})
	}
	w.Section("freshness across calls")
	ks := samplerKinds()
	// letters: sampler kinds, each on a shared object and on a new object per call
	tuples(2*len(ks), w.Pick(4, 5), func(q []int) bool {
		seq := ref.CopyInts(q)
		w.Case(func() string { return fmt.Sprintf("calls %v", seq) }, func(c *eng.C) {
			ks := samplerKinds()
			objs := make([]func([]int) (tn, error), len(ks))
			for i := range ks {
				objs[i] = ks[i].mk()
			}
			var calls []rcall
			for i, k := range seq {
				f := objs[k/2]
				if k%2 == 1 {
					f = ks[k/2].mk()
				}
				calls = append(calls, rcall{&ks[k/2], f, [][]int{{2}, {2}, {}, {1, 2}, {2}}[i]})
			}
			rprogram(c, calls)
		})
		return !w.Stopped()
	})
	w.Section("default initializers of layers")
	layerDefaults(w)
	w.Section("distributions over an equidistributed tape")
	for i := range ks {
		for salt := uint64(0); salt < uint64(w.Pick(2, 6)); salt++ {
			w.Case(func() string { return fmt.Sprintf("%s, tape %d", ks[i].name, salt) }, func(c *eng.C) {
				k := samplerKinds()[i]
				f := k.mk()
				n := w.Pick(100000, 1000000)
				var v []float64
				tp := &tape{salt: 77 + salt}
				tp.install()
				for len(v) < n {
					c.Beat()
					x, err := f([]int{100, 100})
					must(c, k.name, x, err)
					v = append(v, get(c, k.name, x).V...)
				}
				for _, e := range v {
					k.inSupport(c, e, "tape")
				}
				judgeSample(c, &k, v)
				distinct(c, k.name, v)
				// serial correlation at small lags
				mean, sd := k.mu, k.sd
				if !k.normal {
					mean, sd = (k.lo+k.hi)/2, (k.hi-k.lo)/math.Sqrt(12)
				}
				for _, lag := range []int{1, 2, 3, 7, 99, 100, 101, 10000} {
					r := 0.0
					for p := lag; p < len(v); p++ {
						r += (v[p] - mean) / sd * (v[p-lag] - mean) / sd
					}
					if r /= float64(len(v) - lag); math.Abs(r) > 8/math.Sqrt(float64(len(v)-lag)) {
						c.Fail("%s: elements at distance %d are correlated (%v)", k.name, lag, r)
					}
				}
				c.Validated()
			})
		}
	}
}

// layerDefaults: sequences of layers from one configuration or one map of initializers; the default weights have the scale of
// their own layer's fans, the default bias is zero.
func layerDefaults(w *eng.W) {
	type io struct{ in, out int }
	ls := []io{{1, 1}, {6, 2}, {100, 4}, {2, 50}, {3, 3}}
	for n := 1; n <= w.Pick(3, 4); n++ {
		tuples(len(ls), n, func(q []int) bool {
			seq := ref.CopyInts(q)
			w.Case(func() string { return fmt.Sprintf("layers %v", seq) }, func(c *eng.C) {
				for variant := 0; variant < 8; variant++ {
					c.Beat()
					one := &layers.FCConfig{}
					var m map[string]layers.Initializer
					var bias float64
					switch variant % 4 {
					case 1:
						m = map[string]layers.Initializer{}
					case 2:
						bias = 3
						m = map[string]layers.Initializer{"Bias": initializers.NewFull(&initializers.FullConfig{Value: bias})}
					case 3:
						m = map[string]layers.Initializer{"Weight": initializers.NewFull(&initializers.FullConfig{Value: 4})}
					}
					one.Initializers = m
					for _, k := range seq {
						l := ls[k]
						r := math.Sqrt(6 / float64(l.in+l.out))
						top := 0.0
						for rep := 0; rep < 64; rep++ {
							(&tape{salt: uint64(rep)}).install()
							cf := one
							if variant >= 4 {
								cf = &layers.FCConfig{Initializers: m}
							}
							cf.Inputs, cf.Outputs = l.in, l.out
							c.Op("NewFC(%d, %d), map of kind %d, one configuration %v", l.in, l.out, variant%4, variant < 4)
							f, err := layers.NewFC(cf)
							must2(c, "NewFC", err)
							wv, bv := get(c, "Weight", f.Weight), get(c, "Bias", f.Bias)
							checkT(c, "default Bias", f.Bias, ref.Full([]int{l.out}, bias), nil)
							if !ref.SameShape(wv.S, []int{l.out}) || !ref.SameShape(bv.S, wv.S) {
								c.Fail("NewFC(%d, %d): Weight has shape %v, Bias %v", l.in, l.out, wv.S, bv.S)
							}
							for _, v := range wv.V {
								top = math.Max(top, math.Abs(v))
							}
							checkInitTracked(c, "Weight", f.Weight, true)
							checkInitTracked(c, "Bias", f.Bias, true)
						}
						if variant%4 == 3 {
							c.Check(top == 4, "a given Weight initializer was not used (%v)", top)
							continue
						}
						if !(top <= r && top > 0.9*r) {
							c.Fail("default weights of layers with %d inputs and %d outputs have magnitudes up to %v, expected sqrt(6/(%d+%d)) = %v", l.in, l.out, top, l.in, l.out, r)
						}
					}
				}
				c.Validated()
			})
			return true
		})
	}
}

func init() {
	register(&eng.Check{ID: "C18", Run: runC18,
		Bounds: func(tier string) string {
			th := tier == "thorough"
			return fmt.Sprintf("every initializer and random constructor under a controlled random source: every shape of rank 0..5 over {1,2,3} with at most %d elements (and rank 6, 1000 elements) for shape, support and tracking; location and scale fitted exactly over 64 enumerated answers plus 72 extreme answer pairs (normal samplers: also 1540 answers in the wedges and tail of the sampling method) for 19 uniform and 9 normal parameter pairs, %d fan values and all pairs of %d fan values (up to MaxInt), nil configs; dependence of every element on every single answer for all shapes with at most %d elements and for every sequence of %d calls over 8 sampler kinds on shared and new objects; Kolmogorov distance, moments and serial correlation of %d elements over equidistributed tapes; default parameters of every sequence of %d layers over 5 sizes built from one configuration or one map of initializers",
				map[bool]int{false: 48, true: 243}[th], map[bool]int{false: 312, true: 2012}[th], map[bool]int{false: 47, true: 127}[th], map[bool]int{false: 24, true: 81}[th], map[bool]int{false: 4, true: 5}[th], map[bool]int{false: 100000, true: 1000000}[th], map[bool]int{false: 3, true: 4}[th])
		},
		Assumptions: []string{"the library samples through the global source of golang.org/x/exp/rand (checked at run time; otherwise judged on large samples and reported as not exhaustive)", "that source itself delivers independent uniform words", "an exact scale is demanded when a sample is affine in the reference sample of its answer, otherwise quantiles decide"}})
}
