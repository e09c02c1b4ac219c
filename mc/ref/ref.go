// Package ref is the reference model: tensors as flat row-major slices, every operation written as a direct
// index formula that returns, next to the values, the rows of its Jacobian. It shares no code with qeep.
package ref

import (
	"fmt"
	"math"
)

// T is a tensor value: shape and row-major elements.
type T struct {
	S []int
	V []float64
}

// Term says: d out[o] / d operand[K].V[I] = C (terms of one row add up).
// A is an absolute uncertainty scale of C (for derivatives computed with cancellation): results may differ by
// the relative tolerance times |C|+A.
type Term struct {
	K, I int
	C    float64
	A    float64
}

// Out is the result of an operation: value, Jacobian rows, and whether the point is (or is numerically
// indistinguishable from) a point where the operation is not differentiable.
type Out struct {
	T
	J  [][]Term
	ND bool
}

func Prod(s []int) int {
	n := 1
	for _, d := range s {
		n *= d
	}
	return n
}

func CopyInts(s []int) []int { return append([]int{}, s...) }

func SameShape(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Strides of a row-major layout.
func Strides(s []int) []int {
	st := make([]int, len(s))
	acc := 1
	for i := len(s) - 1; i >= 0; i-- {
		st[i] = acc
		acc *= s[i]
	}
	return st
}

// Unravel writes the multi-index of flat position p into ix.
func Unravel(p int, s []int, ix []int) {
	for i := len(s) - 1; i >= 0; i-- {
		ix[i] = p % s[i]
		p /= s[i]
	}
}

func Ravel(ix, s []int) int {
	p := 0
	for i := range s {
		p = p*s[i] + ix[i]
	}
	return p
}

func New(s []int) T { return T{S: CopyInts(s), V: make([]float64, Prod(s))} }

func Full(s []int, v float64) T {
	t := New(s)
	for i := range t.V {
		t.V[i] = v
	}
	return t
}

func Of(s []int, v ...float64) T {
	if len(v) != Prod(s) {
		panic(fmt.Sprintf("ref.Of: %v needs %d values, got %d", s, Prod(s), len(v)))
	}
	return T{S: CopyInts(s), V: append([]float64{}, v...)}
}

func (t T) Clone() T { return T{S: CopyInts(t.S), V: append([]float64{}, t.V...)} }

func (t T) String() string {
	if len(t.V) > 64 {
		return fmt.Sprintf("%v%v...", t.S, t.V[:64])
	}
	return fmt.Sprintf("%v%v", t.S, t.V)
}

/* ---------- selection operations: every output element is one operand element ---------- */

// Range as in qeep: half-open; the zero value (and an omitted trailing range) means the whole dimension.
type Range struct{ From, To int }

func selection(s []int, n int, src func(o int) (k, i int), ts ...T) Out {
	out := Out{T: T{S: CopyInts(s), V: make([]float64, n)}, J: make([][]Term, n)}
	for o := 0; o < n; o++ {
		k, i := src(o)
		if k >= 0 {
			out.V[o] = ts[k].V[i]
			out.J[o] = []Term{{K: k, I: i, C: 1}}
		}
	}
	return out
}

// whole completes a range list against dims.
func whole(index []Range, dims []int) []Range {
	r := make([]Range, len(dims))
	for i := range dims {
		if i < len(index) && index[i] != (Range{}) {
			r[i] = index[i]
		} else {
			r[i] = Range{0, dims[i]}
		}
	}
	return r
}

func SliceOK(x []int, index []Range) bool {
	if len(index) > len(x) {
		return false
	}
	for i, r := range index {
		if r == (Range{}) {
			continue
		}
		if !(0 <= r.From && r.From < r.To && r.To <= x[i]) {
			return false
		}
	}
	return true
}

func Slice(x T, index []Range) Out {
	r := whole(index, x.S)
	s := make([]int, len(r))
	for i := range r {
		s[i] = r[i].To - r[i].From
	}
	ix := make([]int, len(s))
	return selection(s, Prod(s), func(o int) (int, int) {
		Unravel(o, s, ix)
		for i := range ix {
			ix[i] += r[i].From
		}
		return 0, Ravel(ix, x.S)
	}, x)
}

func PatchOK(x, p []int, index []Range) bool {
	if len(x) != len(p) || !SliceOK(x, index) {
		return false
	}
	for i := range x {
		if p[i] > x[i] {
			return false
		}
		if i < len(index) && index[i] != (Range{}) && index[i].To-index[i].From != p[i] {
			return false
		}
	}
	return true
}

// Patch: operand 0 is the target, operand 1 the source block.
func Patch(x, p T, index []Range) Out {
	off := make([]int, len(x.S))
	for i := range off {
		if i < len(index) {
			off[i] = index[i].From
		}
	}
	ix := make([]int, len(x.S))
	return selection(x.S, len(x.V), func(o int) (int, int) {
		Unravel(o, x.S, ix)
		in := true
		for i := range ix {
			if ix[i] < off[i] || ix[i] >= off[i]+p.S[i] {
				in = false
			}
		}
		if !in {
			return 0, o
		}
		for i := range ix {
			ix[i] -= off[i]
		}
		return 1, Ravel(ix, p.S)
	}, x, p)
}

func Transpose(x T) Out {
	n := len(x.S)
	s := CopyInts(x.S)
	s[n-1], s[n-2] = s[n-2], s[n-1]
	ix := make([]int, n)
	return selection(s, len(x.V), func(o int) (int, int) {
		Unravel(o, s, ix)
		ix[n-1], ix[n-2] = ix[n-2], ix[n-1]
		return 0, Ravel(ix, x.S)
	}, x)
}

func Reshape(x T, s []int) Out {
	return selection(s, len(x.V), func(o int) (int, int) { return 0, o }, x)
}

func UnSqueezeDims(s []int, dim int) []int {
	r := append([]int{}, s[:dim]...)
	r = append(r, 1)
	return append(r, s[dim:]...)
}

func DropDim(s []int, dim int) []int {
	r := append([]int{}, s[:dim]...)
	return append(r, s[dim+1:]...)
}

func FlattenDims(s []int, dim int) []int {
	r := append([]int{}, s[:dim]...)
	return append(r, Prod(s[dim:]))
}

func BroadcastOK(src, dst []int) bool {
	if len(src) > len(dst) {
		return false
	}
	for i := 1; i <= len(src); i++ {
		a, b := src[len(src)-i], dst[len(dst)-i]
		if a != b && a != 1 {
			return false
		}
	}
	return true
}

// bcMap gives, for a flat position of dst, the flat position of src it repeats.
func bcMap(src, dst []int) func(o int) int {
	ix := make([]int, len(dst))
	return func(o int) int {
		Unravel(o, dst, ix)
		p := 0
		k := len(dst) - len(src)
		for i := range src {
			j := ix[k+i]
			if src[i] == 1 {
				j = 0
			}
			p = p*src[i] + j
		}
		return p
	}
}

func Broadcast(x T, s []int) Out {
	m := bcMap(x.S, s)
	return selection(s, Prod(s), func(o int) (int, int) { return 0, m(o) }, x)
}

// BroadcastShapes is the NumPy rule; ok is false if the shapes are incompatible.
func BroadcastShapes(a, b []int) (s []int, ok bool) {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	s = make([]int, n)
	for i := 1; i <= n; i++ {
		da, db := 1, 1
		if i <= len(a) {
			da = a[len(a)-i]
		}
		if i <= len(b) {
			db = b[len(b)-i]
		}
		switch {
		case da == db || db == 1:
			s[n-i] = da
		case da == 1:
			s[n-i] = db
		default:
			return nil, false
		}
	}
	return s, true
}

func ConcatOK(ss [][]int, dim int) bool {
	if len(ss) < 2 {
		return false
	}
	for _, s := range ss {
		if len(s) == 0 || len(s) != len(ss[0]) || dim < 0 || dim >= len(s) {
			return false
		}
		for j := range s {
			if j != dim && s[j] != ss[0][j] {
				return false
			}
		}
	}
	return true
}

func Concat(ts []T, dim int) Out {
	s := CopyInts(ts[0].S)
	s[dim] = 0
	for _, t := range ts {
		s[dim] += t.S[dim]
	}
	ix := make([]int, len(s))
	return selection(s, Prod(s), func(o int) (int, int) {
		Unravel(o, s, ix)
		k := 0
		for ix[dim] >= ts[k].S[dim] {
			ix[dim] -= ts[k].S[dim]
			k++
		}
		return k, Ravel(ix, ts[k].S)
	}, ts...)
}

/* ---------- element-wise ---------- */

// Un applies f with derivative df; nd marks inputs where f is not differentiable.
func Un(x T, f, df func(float64) float64, nd func(float64) bool) Out {
	out := Out{T: New(x.S), J: make([][]Term, len(x.V))}
	for i, v := range x.V {
		out.V[i] = f(v)
		out.J[i] = []Term{{K: 0, I: i, C: df(v)}}
		if nd != nil && nd(v) {
			out.ND = true
		}
	}
	return out
}

func Scale(x T, a float64) Out {
	return Un(x, func(v float64) float64 { return a * v }, func(float64) float64 { return a }, nil)
}

func PowD(v, a float64) float64 {
	if a == 0 {
		return 0
	}
	return a * math.Pow(v, a-1)
}

// PowND: not differentiable (within float64 reals) at base 0 unless the exponent is 0 or >= 1, and at negative
// bases with a fractional exponent.
func PowND(v, a float64) bool {
	if v == 0 {
		return !(a == 0 || a >= 1)
	}
	return v < 0 && a != math.Trunc(a)
}

func Pow(x T, a float64) Out {
	return Un(x, func(v float64) float64 { return math.Pow(v, a) }, func(v float64) float64 { return PowD(v, a) },
		func(v float64) bool { return PowND(v, a) })
}

type unary struct {
	F, DF func(float64) float64
	ND    func(float64) bool
}

func sech2(v float64) float64 {
	// 1/cosh^2 without intermediate overflow
	e := math.Exp(-2 * math.Abs(v))
	return 4 * e / ((1 + e) * (1 + e))
}

// Unaries are the parameterless element-wise functions.
var Unaries = map[string]unary{
	"Exp":  {math.Exp, math.Exp, nil},
	"Log":  {math.Log, func(v float64) float64 { return 1 / v }, func(v float64) bool { return v <= 0 }},
	"Sin":  {math.Sin, math.Cos, nil},
	"Cos":  {math.Cos, func(v float64) float64 { return -math.Sin(v) }, nil},
	"Tan":  {math.Tan, func(v float64) float64 { c := math.Cos(v); return 1 / (c * c) }, nil},
	"Sinh": {math.Sinh, math.Cosh, nil},
	"Cosh": {math.Cosh, math.Sinh, nil},
	"Tanh": {math.Tanh, sech2, nil},
}

var UnaryNames = []string{"Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh"}

// Unary applies a named function. The derivatives of the trigonometric functions and Tanh may legitimately be
// computed through a formula that loses relative (not absolute) precision near their zeros.
func Unary(name string, x T) Out {
	u := Unaries[name]
	out := Un(x, u.F, u.DF, u.ND)
	switch name {
	case "Sin", "Cos", "Tanh":
		for o := range out.J {
			out.J[o][0].A = 1e-3
		}
	case "Tan":
		for o := range out.J {
			out.J[o][0].A = 1e-3 * (1 + out.V[o]*out.V[o])
		}
	}
	return out
}

// Bin is a broadcasting element-wise binary function with its two partial derivatives.
func Bin(a, b T, f, fa, fb func(x, y float64) float64, nd func(x, y float64) bool) Out {
	s, ok := BroadcastShapes(a.S, b.S)
	if !ok {
		panic("ref.Bin: incompatible shapes")
	}
	ma, mb := bcMap(a.S, s), bcMap(b.S, s)
	out := Out{T: New(s), J: make([][]Term, Prod(s))}
	for o := range out.V {
		i, j := ma(o), mb(o)
		x, y := a.V[i], b.V[j]
		out.V[o] = f(x, y)
		if fa != nil {
			out.J[o] = []Term{{K: 0, I: i, C: fa(x, y)}, {K: 1, I: j, C: fb(x, y)}}
			if nd != nil && nd(x, y) {
				out.ND = true
			}
		}
	}
	return out
}

func c1(float64, float64) float64 { return 1 }

func Add(a, b T) Out {
	return Bin(a, b, func(x, y float64) float64 { return x + y }, c1, c1, nil)
}
func Sub(a, b T) Out {
	return Bin(a, b, func(x, y float64) float64 { return x - y }, c1, func(float64, float64) float64 { return -1 }, nil)
}
func Mul(a, b T) Out {
	return Bin(a, b, func(x, y float64) float64 { return x * y }, func(_, y float64) float64 { return y },
		func(x, _ float64) float64 { return x }, nil)
}
func Div(a, b T) Out {
	return Bin(a, b, func(x, y float64) float64 { return x / y }, func(_, y float64) float64 { return 1 / y },
		func(x, y float64) float64 { return -(x / y) / y }, func(_, y float64) bool { return y == 0 })
}

// TieMargin is the distance below which two operands of a maximum count as a tie.
var TieMargin = 1e-9

func near(x, y float64) bool {
	d := math.Abs(x - y)
	return d <= 1e-200 || d <= TieMargin*math.Max(1, math.Max(math.Abs(x), math.Abs(y)))
}

// ElMax / ElMin: the derivative at a tie is half to each side (flagged as not differentiable).
func ElMax(a, b T) Out {
	w := func(x, y float64) float64 {
		if x > y {
			return 1
		} else if x == y {
			return 0.5
		}
		return 0
	}
	return Bin(a, b, func(x, y float64) float64 {
		if x > y {
			return x
		}
		return y
	}, w, func(x, y float64) float64 { return w(y, x) }, near)
}

func ElMin(a, b T) Out {
	w := func(x, y float64) float64 {
		if x < y {
			return 1
		} else if x == y {
			return 0.5
		}
		return 0
	}
	return Bin(a, b, func(x, y float64) float64 {
		if x < y {
			return x
		}
		return y
	}, w, func(x, y float64) float64 { return w(y, x) }, near)
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// Comparisons yield 0 or 1.
var Comparisons = map[string]func(x, y float64) float64{
	"Eq": func(x, y float64) float64 { return b2f(x == y) },
	"Ne": func(x, y float64) float64 { return b2f(x != y) },
	"Gt": func(x, y float64) float64 { return b2f(x > y) },
	"Ge": func(x, y float64) float64 { return b2f(x >= y) },
	"Lt": func(x, y float64) float64 { return b2f(x < y) },
	"Le": func(x, y float64) float64 { return b2f(x <= y) },
}

var ComparisonNames = []string{"Eq", "Ne", "Gt", "Ge", "Lt", "Le"}

func Compare(name string, a, b T) T { return Bin(a, b, Comparisons[name], nil, nil, nil).T }

/* ---------- reductions ---------- */

// Stat returns the statistic of a fibre and its partial derivatives.
func Stat(name string, v []float64) (r float64, d []float64, nd bool) {
	n := float64(len(v))
	d = make([]float64, len(v))
	sum := 0.0
	for _, x := range v {
		sum += x
	}
	mean := sum / n
	ss := 0.0
	for _, x := range v {
		ss += (x - mean) * (x - mean)
	}
	switch name {
	case "Sum":
		for i := range d {
			d[i] = 1
		}
		return sum, d, false
	case "Avg", "Mean":
		for i := range d {
			d[i] = 1 / n
		}
		return mean, d, false
	case "Max", "Min":
		best := 0
		for i, x := range v {
			if name == "Max" && x > v[best] || name == "Min" && x < v[best] {
				best = i
			}
		}
		for i, x := range v {
			if i != best && near(x, v[best]) {
				nd = true
			}
		}
		d[best] = 1
		return v[best], d, nd
	case "Var":
		if len(v) == 1 {
			return 0, d, false
		}
		for i, x := range v {
			d[i] = 2 * (x - mean) / (n - 1)
		}
		return ss / (n - 1), d, false
	case "Std":
		if len(v) == 1 {
			return 0, d, false
		}
		// scaled: squares may leave the range where the deviation does not
		m, big := 0.0, 0.0
		for _, x := range v {
			m = math.Max(m, math.Abs(x-mean))
			big = math.Max(big, math.Abs(x))
		}
		if m == 0 {
			return 0, d, true
		}
		ss = 0
		for _, x := range v {
			ss += (x - mean) / m * ((x - mean) / m)
		}
		q := math.Sqrt(ss / (n - 1))
		for i, x := range v {
			d[i] = (x - mean) / m / ((n - 1) * q)
		}
		return m * q, d, m*q < 1e-12*big
	}
	panic("ref.Stat: " + name)
}

// StatCond bounds how much the derivative of a statistic suffers from cancellation.
func StatCond(name string, v []float64) []float64 {
	a := make([]float64, len(v))
	if len(v) < 2 || name != "Var" && name != "Std" {
		return a
	}
	big := 0.0
	for _, x := range v {
		big = math.Max(big, math.Abs(x))
	}
	n := float64(len(v))
	for i := range a {
		a[i] = 4 * big / (n - 1)
		if name == "Std" {
			s, _, _ := Stat("Std", v)
			if s > 0 {
				a[i] = 2 * big / ((n - 1) * s)
			} else {
				a[i] = 0
			}
		}
	}
	return a
}

var StatNames = []string{"Sum", "Max", "Min", "Avg", "Var", "Std", "Mean"}

// Along reduces dimension dim.
func Along(name string, x T, dim int) Out {
	s := DropDim(x.S, dim)
	out := Out{T: New(s), J: make([][]Term, Prod(s))}
	ix := make([]int, len(s))
	full := make([]int, len(x.S))
	fibre := make([]float64, x.S[dim])
	pos := make([]int, x.S[dim])
	for o := range out.V {
		Unravel(o, s, ix)
		copy(full, ix[:dim])
		copy(full[dim+1:], ix[dim:])
		for i := range fibre {
			full[dim] = i
			pos[i] = Ravel(full, x.S)
			fibre[i] = x.V[pos[i]]
		}
		r, d, nd := Stat(name, fibre)
		a := StatCond(name, fibre)
		out.V[o] = r
		out.ND = out.ND || nd
		for i := range d {
			out.J[o] = append(out.J[o], Term{K: 0, I: pos[i], C: d[i], A: a[i]})
		}
	}
	return out
}

/* ---------- products ---------- */

func DotOK(a, b []int) bool {
	if len(a) < 1 || len(b) < 1 || a[len(a)-1] != b[len(b)-1] {
		return false
	}
	_, ok := BroadcastShapes(a, b)
	return ok
}

// Dot contracts the last dimension after broadcasting the leading ones.
func Dot(a, b T) Out {
	full, _ := BroadcastShapes(a.S, b.S)
	ma, mb := bcMap(a.S, full), bcMap(b.S, full)
	n := full[len(full)-1]
	s := full[:len(full)-1]
	out := Out{T: New(s), J: make([][]Term, Prod(s))}
	for o := range out.V {
		for p := 0; p < n; p++ {
			i, j := ma(o*n+p), mb(o*n+p)
			out.V[o] += a.V[i] * b.V[j]
			out.J[o] = append(out.J[o], Term{K: 0, I: i, C: b.V[j]}, Term{K: 1, I: j, C: a.V[i]})
		}
	}
	return out
}

func MatMulOK(a, b []int) bool {
	if len(a) < 2 || len(b) < 2 || a[len(a)-1] != b[len(b)-2] {
		return false
	}
	_, ok := BroadcastShapes(a[:len(a)-2], b[:len(b)-2])
	return ok
}

func MatMul(a, b T) Out {
	batch, _ := BroadcastShapes(a.S[:len(a.S)-2], b.S[:len(b.S)-2])
	m, n, k := a.S[len(a.S)-2], a.S[len(a.S)-1], b.S[len(b.S)-1]
	ma, mb := bcMap(a.S[:len(a.S)-2], batch), bcMap(b.S[:len(b.S)-2], batch)
	s := append(CopyInts(batch), m, k)
	out := Out{T: New(s), J: make([][]Term, Prod(s))}
	for q := 0; q < Prod(batch); q++ {
		pa, pb := ma(q)*m*n, mb(q)*n*k
		for i := 0; i < m; i++ {
			for j := 0; j < k; j++ {
				o := (q*m+i)*k + j
				for p := 0; p < n; p++ {
					x, y := pa+i*n+p, pb+p*k+j
					out.V[o] += a.V[x] * b.V[y]
					out.J[o] = append(out.J[o], Term{K: 0, I: x, C: b.V[y]}, Term{K: 1, I: y, C: a.V[x]})
				}
			}
		}
	}
	return out
}

/* ---------- adjoint ---------- */

// VJP applies the transposed Jacobian to g. mag returns the same sum with absolute values (a scale for
// comparing floating-point results).
func VJP(out Out, ops []T, g []float64, gmag []float64) (grads, mags [][]float64) {
	grads = make([][]float64, len(ops))
	mags = make([][]float64, len(ops))
	for k, t := range ops {
		grads[k] = make([]float64, len(t.V))
		mags[k] = make([]float64, len(t.V))
	}
	for o, row := range out.J {
		for _, t := range row {
			if t.C == 0 && t.A == 0 {
				continue
			}
			grads[t.K][t.I] += t.C * g[o]
			mags[t.K][t.I] += (math.Abs(t.C) + t.A) * gmag[o]
		}
	}
	return
}

// Flat is the row-major position of a multi-index.
func Flat(s, ix []int) int {
	p := 0
	for i := range s {
		p = p*s[i] + ix[i]
	}
	return p
}
