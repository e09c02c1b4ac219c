package checks

import (
	"fmt"
	"math"
	"reflect"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verifmc/eng"
	"verifmc/ref"
)

// foreign is a Tensor implementation the library does not know.
type foreign struct{ tensor.Tensor }

// accept: must succeed with the given shape; the result is well-formed and can be back-propagated.
// reject: must return an error and no result.
type verdict int

const (
	reject verdict = iota
	accept
	either // precondition not specified: only totality
)

func total(c *eng.C, what string, v verdict, shape []int, f func() (tn, error)) {
	c.Op("%s", what)
	x, err := f()
	switch {
	case err != nil && x != nil:
		c.Fail("%s: returned an error (%v) and a result of shape %v", what, err, x.Shape())
	case err == nil && x == nil:
		c.Fail("%s: returned neither a result nor an error", what)
	case v == reject && err == nil:
		c.Fail("%s: precondition violated but accepted with a result of shape %v", what, x.Shape())
	case v == accept && err != nil:
		c.Fail("%s: precondition holds but rejected: %v", what, err)
	}
	if err != nil {
		if err.Error() == "" {
			c.Fail("%s: empty error", what)
		}
		c.Outcome("rejected")
		c.Validated()
		return
	}
	if v == accept && !ref.SameShape(x.Shape(), shape) {
		c.Fail("%s: result has shape %v, expected %v", what, x.Shape(), shape)
	}
	get(c, what, x)
	if err := tensor.BackPropagate(x); err != nil {
		c.Fail("%s: accepted, but back-propagating the result fails: %v", what, err)
	}
	if g := x.Gradient(); g != nil && !ref.SameShape(g.Shape(), x.Shape()) {
		c.Fail("%s: gradient of the result has shape %v instead of %v", what, g.Shape(), x.Shape())
	}
	c.Outcome("accepted")
	c.Validated()
}

func vd(ok bool) verdict {
	if ok {
		return accept
	}
	return reject
}

// errOnly: calls that return just an error.
func errOnly(c *eng.C, what string, v verdict, f func() error) {
	c.Op("%s", what)
	err := f()
	if v == reject && err == nil {
		c.Fail("%s: precondition violated but accepted", what)
	}
	if v == accept && err != nil {
		c.Fail("%s: precondition holds but rejected: %v", what, err)
	}
	c.Validated()
}

// ptr: constructors returning a pointer and an error.
func ptr[T any](c *eng.C, what string, v verdict, f func() (*T, error)) *T {
	c.Op("%s", what)
	p, err := f()
	switch {
	case err != nil && p != nil:
		c.Fail("%s: returned an error (%v) and a result", what, err)
	case err == nil && p == nil:
		c.Fail("%s: returned neither a result nor an error", what)
	case v == reject && err == nil:
		c.Fail("%s: precondition violated but accepted", what)
	case v == accept && err != nil:
		c.Fail("%s: precondition holds but rejected: %v", what, err)
	}
	c.Validated()
	return p
}

var extremeInts = []int{math.MinInt, math.MinInt32 - 1, math.MinInt32, -1 << 16, 1 << 16, math.MaxInt32, math.MaxInt32 + 1, 1 << 62, math.MaxInt}

func dimArgs(rank int) (r []int) {
	for d := -3; d <= rank+3; d++ {
		r = append(r, d)
	}
	return append(r, extremeInts...)
}

func rangeLetters(n int, small bool) (r []tensor.Range) {
	add := func(f, t int) {
		for _, x := range r {
			if x.From == f && x.To == t {
				return
			}
		}
		r = append(r, tensor.Range{From: f, To: t})
	}
	add(0, 0)
	add(0, 1)
	add(0, n)
	add(n-1, n)
	add(0, n+1)
	add(-1, 1)
	add(n, n)
	add(1, 0)
	if small {
		return
	}
	for f := -2; f <= n+2; f++ {
		for t := -2; t <= n+2; t++ {
			add(f, t)
		}
	}
	for _, e := range extremeInts {
		add(0, e)
		add(e, 1)
		add(e, e)
	}
	add(math.MinInt, math.MaxInt)
	add(math.MaxInt, math.MinInt)
	add(math.MaxInt, math.MinInt+1)
	add(math.MinInt+1, math.MinInt+3)
	return
}

func refRanges(rs []tensor.Range) []ref.Range {
	r := make([]ref.Range, len(rs))
	for i, x := range rs {
		r[i] = ref.Range{From: x.From, To: x.To}
	}
	return r
}

// indexes of length 0..rank+1 over the letters.
func indexes(s []int, small bool, f func(ix []tensor.Range)) {
	f(nil)
	f([]tensor.Range{})
	var rec func(i, n int, ix []tensor.Range)
	rec = func(i, n int, ix []tensor.Range) {
		if i == n {
			f(append([]tensor.Range{}, ix...))
			return
		}
		d := 1
		if i < len(s) {
			d = s[i]
		}
		ls := rangeLetters(d, small)
		if i >= len(s) {
			ls = rangeLetters(1, true)
		}
		for _, l := range ls {
			rec(i+1, n, append(ix, l))
		}
	}
	for n := 1; n <= len(s)+1; n++ {
		rec(0, n, nil)
	}
}

func productOK(target []int, n int) bool {
	p := 1
	for _, d := range target {
		if d <= 0 || d > n/p {
			return false
		}
		p *= d
	}
	return p == n
}

func allPos(s []int) bool {
	for _, d := range s {
		if d <= 0 {
			return false
		}
	}
	return true
}

func c09Unary(w *eng.W) {
	w.Section("indexes, dims and target shapes")
	ss := shapes(w.Pick(3, 4), []int{1, 2, 3}, w.Pick(18, 36))
	ss = append(ss, shapesOf(4, []int{1, 2}, 8)...)
	ss = append(ss, shapesOf(5, []int{1, 2}, w.Pick(4, 16))...)
	ss = append(ss, []int{1, 1, 1, 1, 1, 1}, []int{2, 1, 1, 2, 1, 3}, []int{7}, []int{1, 64}, []int{5, 4})
	for _, s := range ss {
		s := s
		w.Case(func() string { return "single-operand calls on " + ints(s) }, func(c *eng.C) {
			v := positive(mixed(s, 1))
			r := len(s)
			for _, tr := range []bool{false, true} {
				x := mk(c, v, tr)
				for _, d := range dimArgs(r) {
					c.Beat()
					in := 0 <= d && d < r
					for _, n := range []string{"Sum", "Max", "Min", "Avg", "Var", "Std", "Mean"} {
						total(c, fmt.Sprintf("%v.%sAlong(%d)", s, n, d), vd(in), dropIf(s, d), func() (tn, error) { return libAlong(n, mk(c, v, tr), d) })
					}
					total(c, fmt.Sprintf("%v.UnSqueeze(%d)", s, d), vd(0 <= d && d <= r), func() []int {
						if 0 <= d && d <= r {
							return ref.UnSqueezeDims(s, d)
						}
						return nil
					}(), func() (tn, error) { return mk(c, v, tr).UnSqueeze(d) })
					total(c, fmt.Sprintf("%v.Squeeze(%d)", s, d), vd(in && s[d] == 1), dropIf(s, d), func() (tn, error) { return mk(c, v, tr).Squeeze(d) })
					total(c, fmt.Sprintf("%v.Flatten(%d)", s, d), vd(in), func() []int {
						if in {
							return ref.FlattenDims(s, d)
						}
						return nil
					}(), func() (tn, error) { return mk(c, v, tr).Flatten(d) })
				}
				var ts []int
				if r >= 2 {
					ts = ref.Transpose(v).S
				}
				total(c, fmt.Sprintf("%v.Transpose()", s), vd(r >= 2), ts, func() (tn, error) { return x.Transpose() })
			}
			// At: every index tuple of length 0..rank+1 over -2..dim+1 and extremes
			x := mk(c, v, false)
			letters := append([]int{-2, -1, 0, 1, 2, 3, 4}, math.MinInt, math.MaxInt, 1<<32)
			for n := 0; n <= r+1 && n <= 4; n++ {
				tuples(len(letters), n, func(t []int) bool {
					ix := make([]int, n)
					ok := n == r
					for i := range ix {
						ix[i] = letters[t[i]]
						ok = ok && i < r && 0 <= ix[i] && ix[i] < s[i]
					}
					c.Op("%v.At(%v)", s, ix)
					got, err := x.At(ix...)
					if (err == nil) != ok {
						c.Fail("%v.At(%v): error %v, precondition holds: %v", s, ix, err, ok)
					}
					if ok && got != v.V[ref.Flat(s, ix)] {
						c.Fail("%v.At(%v) = %v", s, ix, got)
					}
					if !ok && got != 0 {
						c.Fail("%v.At(%v): error together with the value %v", s, ix, got)
					}
					return true
				})
			}
			if err := func() error { _, e := x.At(nil...); return e }(); (err == nil) != (r == 0) {
				c.Fail("%v.At(): error %v", s, err)
			}
			// Slice
			indexes(s, r > 2 || r == 2 && !w.Thorough(), func(ix []tensor.Range) {
				c.Beat()
				ok := ref.SliceOK(s, refRanges(ix))
				var want []int
				if ok {
					want = ref.Slice(v, refRanges(ix)).S
				}
				total(c, fmt.Sprintf("%v.Slice(%v)", s, ix), vd(ok), want, func() (tn, error) { return mk(c, v, len(ix)%2 == 1).Slice(ix) })
			})
			// Reshape, Broadcast and dims lists
			dl := []int{math.MinInt, -1, 0, 1, 2, 3, 4, 6}
			try := func(t []int) {
				c.Beat()
				total(c, fmt.Sprintf("%v.Reshape(%v)", s, t), vd(productOK(t, len(v.V))), t, func() (tn, error) { return mk(c, v, true).Reshape(t) })
				if big := ref.Prod(t); allPos(t) && big > 5000 {
					return
				}
				total(c, fmt.Sprintf("%v.Broadcast(%v)", s, t), vd(allPos(t) && ref.BroadcastOK(s, t)), t, func() (tn, error) { return mk(c, v, true).Broadcast(t) })
			}
			try(nil)
			try([]int{})
			maxLen := 3
			if w.Thorough() || len(v.V) <= 3 {
				maxLen = 4
			}
			for n := 1; n <= maxLen; n++ {
				tuples(len(dl), n, func(t []int) bool {
					q := make([]int, n)
					for i := range q {
						q[i] = dl[t[i]]
					}
					try(q)
					return true
				})
			}
			// targets whose element count overflows int onto the source's
			n := len(v.V)
			for _, t := range [][]int{{7, 0x6DB6DB6DB6DB6DB7}, {0x6DB6DB6DB6DB6DB7, 7}, {n, 7, 0x6DB6DB6DB6DB6DB7}, {7, n, 0x6DB6DB6DB6DB6DB7}, {7, 0x6DB6DB6DB6DB6DB7, n}, {1 << 32, 1 << 32}, {math.MaxInt, math.MaxInt},
				{math.MaxInt, math.MaxInt, n}, {n, math.MaxInt, math.MaxInt}, {1 << 62, 4, n}, {1<<63 - 1, 2}, {math.MaxInt}, {1 << 62}, {math.MinInt}, {math.MinInt, 2}, {-n}, {-1, -n}, {-n, -1}, {0, n}} {
				total(c, fmt.Sprintf("%v.Reshape(%v)", s, t), vd(productOK(t, n)), t, func() (tn, error) { return mk(c, v, true).Reshape(t) })
			}
			// long shapes
			long := append(ref.CopyInts(s), 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)
			try(long)
			try(append([]int{1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, s...))
			// whole-tensor reducers and context calls never panic
			for _, st := range ref.StatNames {
				libStat(st, x)
			}
			x.ResetGradContext(true)
			x.ResetGradContext(false)
			if x.Gradient() != nil {
				c.Fail("gradient after reset")
			}
		})
	}
}

func dropIf(s []int, d int) []int {
	if 0 <= d && d < len(s) {
		return ref.DropDim(s, d)
	}
	return nil
}

func libStat(name string, x tn) float64 {
	switch name {
	case "Sum":
		return x.Sum()
	case "Max":
		return x.Max()
	case "Min":
		return x.Min()
	case "Avg":
		return x.Avg()
	case "Var":
		return x.Var()
	case "Std":
		return x.Std()
	case "Mean":
		return x.Mean()
	}
	panic(name)
}

var binAll = []string{"Add", "Sub", "Mul", "Div", "ElMax", "ElMin", "Dot", "MatMul", "Eq", "Ne", "Gt", "Ge", "Lt", "Le"}

func c09Binary(w *eng.W) {
	w.Section("operand pairs")
	ss := shapes(3, []int{1, 2, 3}, 27)
	ss = append(ss, shapesOf(4, []int{1, 2}, 16)...)
	if w.Thorough() {
		ss = append(ss, shapesOf(4, []int{1, 3}, 27)...)
		ss = append(ss, shapesOf(5, []int{1, 2}, 8)...)
		ss = append(ss, []int{4}, []int{5}, []int{4, 1}, []int{1, 4}, []int{2, 4}, []int{4, 2})
	}
	for i := range ss {
		a := ss[i]
		w.Case(func() string { return "binary calls on " + ints(a) + " x every shape" }, func(c *eng.C) {
			va := positive(mixed(a, 0))
			for _, b := range ss {
				c.Beat()
				vb := positive(mixed(b, 1))
				for q, n := range binAll {
					o, ok := refBin(n, va, vb)
					tr := (q+len(b))%3 + 1
					total(c, fmt.Sprintf("%v.%s(%v)", a, n, b), vd(ok), o.S, func() (tn, error) { return libBin(n, mk(c, va, tr&1 == 1), mk(c, vb, tr&2 == 2)) })
				}
				eq, err := mk(c, va, false).Equals(mk(c, vb, false))
				if (err == nil) != ref.SameShape(a, b) {
					c.Fail("%v.Equals(%v): error %v", a, b, err)
				}
				if err != nil && eq {
					c.Fail("%v.Equals(%v): true together with an error", a, b)
				}
			}
			for k, bad := range []tn{nil, foreign{mk(c, va, true)}, foreign{}, &foreign{mk(c, va, false)}} {
				for _, n := range binAll {
					total(c, fmt.Sprintf("%v.%s(bad operand %d)", a, n, k), reject, nil, func() (tn, error) { return libBin(n, mk(c, va, true), bad) })
				}
				if eq, err := mk(c, va, true).Equals(bad); err == nil || eq {
					c.Fail("%v.Equals(bad operand %d) = %v, %v", a, k, eq, err)
				}
				total(c, fmt.Sprintf("%v.Patch(nil, bad operand %d)", a, k), reject, nil, func() (tn, error) { return mk(c, va, true).Patch(nil, bad) })
				total(c, fmt.Sprintf("%v.Patch({0,1}, bad operand %d)", a, k), reject, nil, func() (tn, error) { return mk(c, va, true).Patch([]tensor.Range{{From: 0, To: 1}}, bad) })
			}
		})
	}
	w.Section("Patch")
	ps := shapes(3, []int{1, 2, 3}, 18)
	for _, s := range ps {
		s := s
		w.Case(func() string { return "Patch on " + ints(s) }, func(c *eng.C) {
			vx := mixed(s, 0)
			for _, p := range ps {
				if len(p) > len(s)+1 {
					continue
				}
				vp := mixed(p, 4)
				small := len(s) > 2 || len(s) == 2 && !w.Thorough()
				if len(p) != len(s) {
					small = true
				}
				indexes(s, small, func(ix []tensor.Range) {
					if len(p) != len(s) && len(ix) > 1 {
						return
					}
					c.Beat()
					ok := ref.PatchOK(s, p, refRanges(ix))
					total(c, fmt.Sprintf("%v.Patch(%v, %v)", s, ix, p), vd(ok), s, func() (tn, error) { return mk(c, vx, len(ix)%2 == 0).Patch(ix, mk(c, vp, true)) })
				})
			}
		})
	}
}

func c09Concat(w *eng.W) {
	w.Section("Concat")
	ss := shapes(3, []int{1, 2}, 8)
	ss = append(ss, []int{3}, []int{3, 2}, []int{2, 3}, []int{1, 1, 1, 1}, []int{1, 2, 1, 1})
	for _, a := range ss {
		a := a
		w.Case(func() string { return "Concat of " + ints(a) + " with every pair of shapes" }, func(c *eng.C) {
			mkv := func(s []int, k int) tn { return mk(c, mixed(s, k), k%2 == 0) }
			dims := []int{math.MinInt, -2, -1, 0, 1, 2, 3, 4, math.MaxInt}
			for _, b := range ss {
				for _, d := range dims {
					ok := ref.ConcatOK([][]int{a, b}, d)
					var want []int
					if ok {
						want = ref.Concat([]ref.T{mixed(a, 0), mixed(b, 1)}, d).S
					}
					total(c, fmt.Sprintf("Concat([%v %v], %d)", a, b, d), vd(ok), want, func() (tn, error) { return tensor.Concat([]tn{mkv(a, 0), mkv(b, 1)}, d) })
				}
				for _, e := range ss {
					if !w.Thorough() && len(e)+len(a)+len(b) > 7 {
						continue
					}
					c.Beat()
					for _, d := range []int{-1, 0, 1, 2, 3} {
						ok := ref.ConcatOK([][]int{a, b, e}, d)
						var want []int
						if ok {
							want = ref.Concat([]ref.T{mixed(a, 0), mixed(b, 1), mixed(e, 2)}, d).S
						}
						total(c, fmt.Sprintf("Concat([%v %v %v], %d)", a, b, e, d), vd(ok), want, func() (tn, error) { return tensor.Concat([]tn{mkv(a, 0), mkv(b, 1), mkv(e, 2)}, d) })
					}
				}
			}
			for _, d := range dims {
				total(c, fmt.Sprintf("Concat(nil, %d)", d), reject, nil, func() (tn, error) { return tensor.Concat(nil, d) })
				total(c, fmt.Sprintf("Concat([], %d)", d), reject, nil, func() (tn, error) { return tensor.Concat([]tn{}, d) })
				total(c, fmt.Sprintf("Concat([%v], %d)", a, d), reject, nil, func() (tn, error) { return tensor.Concat([]tn{mkv(a, 0)}, d) })
				for k, bad := range []tn{nil, foreign{mkv(a, 0)}, foreign{}, &foreign{mkv(a, 0)}} {
					for pos := 0; pos < 3; pos++ {
						for n := 1; n <= 3; n++ {
							if pos >= n {
								continue
							}
							total(c, fmt.Sprintf("Concat(%d tensors of %v, bad one %d at %d, %d)", n, a, k, pos, d), reject, nil, func() (tn, error) {
								ts := make([]tn, n)
								for i := range ts {
									ts[i] = mkv(a, i)
								}
								ts[pos] = bad
								return tensor.Concat(ts, d)
							})
						}
					}
				}
			}
		})
	}
	w.Case(func() string { return "Concat of 1..20 tensors" }, func(c *eng.C) {
		for n := 1; n <= 20; n++ {
			ts := make([]tn, n)
			for i := range ts {
				ts[i] = mk(c, mixed([]int{1 + i%3, 2}, i), i%2 == 0)
			}
			rows := 0
			for i := range ts {
				rows += 1 + i%3
			}
			total(c, fmt.Sprintf("Concat of %d", n), vd(n >= 2), []int{rows, 2}, func() (tn, error) { return tensor.Concat(ts, 0) })
		}
	})
}

// ragged: every nested slice with lengths over 0..3 (nil for 0 and an empty slice as another letter).
func c09TensorOf(w *eng.W) {
	w.Section("TensorOf data")
	row := func(n int) []float64 {
		if n == 0 {
			return nil
		}
		if n < 0 {
			return []float64{}
		}
		r := make([]float64, n)
		for i := range r {
			r[i] = float64(i + 1)
		}
		return r
	}
	lens := []int{-1, 0, 1, 2, 3}
	var rows [][]float64
	for _, n := range lens {
		rows = append(rows, row(n))
	}
	ok1 := func(r []float64) bool { return len(r) > 0 }
	// rank 2 data: up to 3 rows
	var mats [][][]float64
	mats = append(mats, nil, [][]float64{})
	for n := 1; n <= 3; n++ {
		tuples(len(rows), n, func(t []int) bool {
			m := make([][]float64, n)
			for i := range m {
				m[i] = rows[t[i]]
			}
			mats = append(mats, m)
			return true
		})
	}
	shape2 := func(m [][]float64) ([]int, bool) {
		if len(m) == 0 {
			return nil, false
		}
		for _, r := range m {
			if !ok1(r) || len(r) != len(m[0]) {
				return nil, false
			}
		}
		return []int{len(m), len(m[0])}, true
	}
	cfgs := []*tensor.Config{nil, conf(true)}
	w.Case(func() string { return "ranks 0-2" }, func(c *eng.C) {
		for _, cf := range cfgs {
			for _, f := range []float64{0, 1, math.NaN(), math.Inf(1), -math.MaxFloat64} {
				total(c, fmt.Sprintf("TensorOf(%v)", f), accept, nil, func() (tn, error) { return tensor.TensorOf(f, cf) })
			}
			for _, r := range rows {
				total(c, fmt.Sprintf("TensorOf(%v)", r), vd(ok1(r)), []int{len(r)}, func() (tn, error) { return tensor.TensorOf(r, cf) })
			}
			for _, m := range mats {
				s, ok := shape2(m)
				total(c, fmt.Sprintf("TensorOf(%v)", m), vd(ok), s, func() (tn, error) { return tensor.TensorOf(m, cf) })
			}
		}
	})
	// rank 3: up to 3 matrices out of a reduced list
	var small [][][]float64
	for i, m := range mats {
		if i < 2 || len(m) <= 2 {
			keep := true
			for _, r := range m {
				keep = keep && len(r) <= 2
			}
			if keep {
				small = append(small, m)
			}
		}
	}
	shape3 := func(v [][][]float64) ([]int, bool) {
		if len(v) == 0 {
			return nil, false
		}
		s0, ok := shape2(v[0])
		if !ok {
			return nil, false
		}
		for _, m := range v {
			s, ok := shape2(m)
			if !ok || !ref.SameShape(s, s0) {
				return nil, false
			}
		}
		return append([]int{len(v)}, s0...), true
	}
	for k := range mats {
		k := k
		w.Case(func() string { return fmt.Sprintf("rank 3, first block %v", mats[k]) }, func(c *eng.C) {
			try := func(v [][][]float64) {
				s, ok := shape3(v)
				total(c, fmt.Sprintf("TensorOf(%v)", v), vd(ok), s, func() (tn, error) { return tensor.TensorOf(v, cfgs[len(v)%2]) })
			}
			if k == 0 {
				try(nil)
				try([][][]float64{})
			}
			try([][][]float64{mats[k]})
			for _, b := range mats {
				try([][][]float64{mats[k], b})
			}
			c.Beat()
			for _, b := range small {
				for _, d := range small {
					try([][][]float64{mats[k], b, d})
				}
			}
		})
	}
	// rank 4: up to 2 cubes of up to 2 small matrices, and 3 cubes of a tiny list
	var cubes [][][][]float64
	cubes = append(cubes, nil, [][][]float64{})
	for _, a := range small {
		cubes = append(cubes, [][][]float64{a})
		for _, b := range small {
			cubes = append(cubes, [][][]float64{a, b})
		}
	}
	for k := range cubes {
		k := k
		w.Case(func() string { return fmt.Sprintf("rank 4, first block %v", cubes[k]) }, func(c *eng.C) {
			try := func(v [][][][]float64) {
				want := []int(nil)
				ok := len(v) > 0
				for i := range v {
					s, o := shape3(v[i])
					ok = ok && o && (i == 0 || ref.SameShape(s, want))
					if i == 0 {
						want = s
					}
					if !ok {
						break
					}
				}
				if ok {
					want = append([]int{len(v)}, want...)
				}
				total(c, fmt.Sprintf("TensorOf(%v)", v), vd(ok), want, func() (tn, error) { return tensor.TensorOf(v, cfgs[len(v)%2]) })
			}
			if k == 0 {
				try(nil)
				try([][][][]float64{})
			}
			try([][][][]float64{cubes[k]})
			for i, b := range cubes {
				if i%64 == 0 {
					c.Beat()
				}
				try([][][][]float64{cubes[k], b})
			}
			if _, ok := shape3(cubes[k]); ok {
				for _, b := range cubes {
					if _, ok := shape3(b); ok {
						for i, d := range cubes {
							if i%256 == 0 {
								c.Beat()
							}
							if w.Thorough() || len(d) <= 1 {
								try([][][][]float64{cubes[k], b, d})
							}
						}
					}
				}
			}
		})
	}
}

func c09Ctors(w *eng.W) {
	w.Section("constructors and configs")
	fl := []float64{0, 1, -1, 0.5, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64}
	type cfg struct {
		name string
		c    *tensor.Config
		ok   bool
	}
	cfgs := []cfg{{"nil", nil, true}, {"zero", &tensor.Config{}, false}, {"cpu", &tensor.Config{Device: tensor.CPU}, true}, {"cpu tracked", conf(true), true}, {"device -1", &tensor.Config{Device: -1, GradTrack: true}, false},
		{"device 2", &tensor.Config{Device: tensor.CPU + 1}, false}, {"device max", &tensor.Config{Device: math.MaxInt}, false}, {"device min", &tensor.Config{Device: math.MinInt}, false}}
	var dl [][]int
	dl = append(dl, nil, []int{})
	letters := []int{math.MinInt, -1, 0, 1, 2, 3}
	for n := 1; n <= 4; n++ {
		tuples(len(letters), n, func(t []int) bool {
			s := make([]int, n)
			for i := range s {
				s[i] = letters[t[i]]
			}
			dl = append(dl, s)
			return true
		})
	}
	for _, cf := range cfgs {
		cf := cf
		w.Case(func() string { return "constructors with config " + cf.name }, func(c *eng.C) {
			for _, s := range dl {
				c.Beat()
				ok := cf.ok && allPos(s)
				total(c, fmt.Sprintf("Full(%v) config %s", s, cf.name), vd(ok), s, func() (tn, error) { return tensor.Full(s, 1.5, cf.c) })
				total(c, fmt.Sprintf("Zeros(%v) config %s", s, cf.name), vd(ok), s, func() (tn, error) { return tensor.Zeros(s, cf.c) })
				total(c, fmt.Sprintf("Ones(%v) config %s", s, cf.name), vd(ok), s, func() (tn, error) { return tensor.Ones(s, cf.c) })
				total(c, fmt.Sprintf("RandU(%v) config %s", s, cf.name), vd(ok), s, func() (tn, error) { return tensor.RandU(s, -1, 1, cf.c) })
				total(c, fmt.Sprintf("RandN(%v) config %s", s, cf.name), vd(ok), s, func() (tn, error) { return tensor.RandN(s, 0, 1, cf.c) })
				total(c, fmt.Sprintf("RandU(%v, 1, 1) config %s", s, cf.name), reject, nil, func() (tn, error) { return tensor.RandU(s, 1, 1, cf.c) })
				total(c, fmt.Sprintf("RandN(%v, 0, 0) config %s", s, cf.name), reject, nil, func() (tn, error) { return tensor.RandN(s, 0, 0, cf.c) })
			}
			for _, a := range fl {
				for _, b := range fl {
					for _, s := range [][]int{nil, {2}, {1, 3}, {0}, {-1}} {
						total(c, fmt.Sprintf("RandU(%v, %v, %v)", s, a, b), vd(cf.ok && allPos(s) && a < b), s, func() (tn, error) { return tensor.RandU(s, a, b, cf.c) })
						total(c, fmt.Sprintf("RandN(%v, %v, %v)", s, a, b), vd(cf.ok && allPos(s) && b > 0), s, func() (tn, error) { return tensor.RandN(s, a, b, cf.c) })
					}
				}
				total(c, fmt.Sprintf("Full([2], %v)", a), vd(cf.ok), []int{2}, func() (tn, error) { return tensor.Full([]int{2}, a, cf.c) })
			}
			for n := -3; n <= 6; n++ {
				total(c, fmt.Sprintf("Eye(%d) config %s", n, cf.name), vd(cf.ok && n > 0), []int{n, n}, func() (tn, error) { return tensor.Eye(n, cf.c) })
			}
			for _, n := range []int{math.MinInt, math.MinInt32, -1 << 40} {
				total(c, fmt.Sprintf("Eye(%d)", n), reject, nil, func() (tn, error) { return tensor.Eye(n, cf.c) })
			}
			total(c, "TensorOf(1.5) config "+cf.name, vd(cf.ok), nil, func() (tn, error) { return tensor.TensorOf(1.5, cf.c) })
			total(c, "TensorOf([1 2]) config "+cf.name, vd(cf.ok), []int{2}, func() (tn, error) { return tensor.TensorOf([]float64{1, 2}, cf.c) })
			total(c, "TensorOf(nil) config "+cf.name, reject, nil, func() (tn, error) { return tensor.TensorOf([]float64(nil), cf.c) })
		})
	}
	w.Case(func() string { return "BackPropagate of nil and foreign tensors" }, func(c *eng.C) {
		x := mk(c, mixed([]int{2}, 0), true)
		for k, bad := range []tn{nil, foreign{x}, foreign{}, &foreign{x}} {
			errOnly(c, fmt.Sprintf("BackPropagate(bad %d)", k), reject, func() error { return tensor.BackPropagate(bad) })
		}
		if x.Gradient() != nil {
			c.Fail("rejected BackPropagate left a gradient")
		}
		errOnly(c, "BackPropagate(x)", accept, func() error { return tensor.BackPropagate(x) })
		errOnly(c, "BackPropagate(x) again", accept, func() error { return tensor.BackPropagate(x) })
	})
}

// special floats through every operation, forward and backward.
func c09Floats(w *eng.W) {
	w.Section("special values")
	sp := []float64{0, math.Copysign(0, -1), 1, -1, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-300, 1e300, 710, -746}
	for _, s := range [][]int{{2}, {2, 2}, {1}, {}} {
		for _, in := range allInst(s) {
			s, in := s, in
			w.Case(func() string { return "special values: " + in.String() }, func(c *eng.C) {
				n := len(in.In)
				for i, a := range sp {
					for j, b := range sp {
						if n == 1 && len(s) == 0 && j > 0 {
							break
						}
						vals := make([]ref.T, n)
						for k, q := range in.In {
							vals[k] = ref.New(q)
							for p := range vals[k].V {
								if (p+k)%2 == 0 {
									vals[k].V[p] = a
								} else {
									vals[k].V[p] = b
								}
							}
						}
						o, _ := in.O.Ref(vals)
						for _, tr := range []bool{true, i == j} {
							total(c, fmt.Sprintf("%s with values %v and %v", in, a, b), accept, o.S, func() (tn, error) {
								ts := make([]tn, n)
								for k := range ts {
									ts[k] = mk(c, vals[k], tr)
								}
								return in.O.Lib(ts)
							})
						}
					}
				}
			})
		}
	}
	args := append([]float64{}, sp...)
	args = append(args, 0.5, 2, 3, -2, 1e308, 1<<53)
	w.Case(func() string { return "Scale and Pow with every special argument on every special value" }, func(c *eng.C) {
		for _, a := range args {
			for _, x := range sp {
				for _, s := range [][]int{{}, {2}, {1, 2}} {
					v := ref.Full(s, x)
					total(c, fmt.Sprintf("%v.Scale(%v)", v, a), accept, s, func() (tn, error) { return mk(c, v, true).Scale(a), nil })
					total(c, fmt.Sprintf("%v.Pow(%v)", v, a), accept, s, func() (tn, error) { return mk(c, v, true).Pow(a), nil })
				}
			}
		}
	})
	w.Case(func() string { return "comparisons, Equals and statistics of special values" }, func(c *eng.C) {
		for _, a := range sp {
			for _, b := range sp {
				x, y := mk(c, ref.Of([]int{2}, a, b), true), mk(c, ref.Of([]int{2}, b, a), false)
				for _, n := range cmpNames {
					total(c, fmt.Sprintf("[%v %v].%s", a, b, n), accept, []int{2}, func() (tn, error) { return libBin(n, x, y) })
				}
				if _, err := x.Equals(y); err != nil {
					c.Fail("Equals: %v", err)
				}
				for _, st := range ref.StatNames {
					libStat(st, x)
				}
			}
		}
	})
	w.Case(func() string { return "components on special values" }, func(c *eng.C) {
		sm, _ := activations.NewSoftmax(nil)
		for _, a := range sp {
			for _, b := range sp {
				v, u := ref.Of([]int{2}, a, b), ref.Of([]int{2}, b, a)
				m, mu := ref.Of([]int{2, 2}, a, b, 1, 0), ref.Of([]int{2, 2}, b, 1, a, 0)
				for name, f := range map[string]func(...tn) (tn, error){"Relu": activations.NewRelu().Forward, "LeakyRelu": activations.NewLeakyRelu(nil).Forward, "LeakyRelu special": activations.NewLeakyRelu(&activations.LeakyReluConfig{M: a}).Forward,
					"Sigmoid": activations.NewSigmoid().Forward, "Tanh": activations.NewTanh().Forward, "Softmax": sm.Forward} {
					total(c, fmt.Sprintf("%s of %v", name, v), accept, []int{2}, func() (tn, error) { return f(mk(c, v, true)) })
				}
				total(c, fmt.Sprintf("MSE %v", v), accept, nil, func() (tn, error) { return losses.NewMSE().Compute(mk(c, v, true), mk(c, u, false)) })
				total(c, fmt.Sprintf("BCE %v", v), accept, nil, func() (tn, error) { return losses.NewBCE().Compute(mk(c, v, true), mk(c, u, false)) })
				total(c, fmt.Sprintf("CE %v", m), accept, nil, func() (tn, error) { return losses.NewCE().Compute(mk(c, m, true), mk(c, mu, false)) })
				total(c, fmt.Sprintf("FC %v", m), accept, []int{2, 2}, func() (tn, error) {
					return (&layers.FC{Weight: mk(c, v, true), Bias: mk(c, u, true)}).Forward(mk(c, m, false))
				})
				ac := metrics.NewAccuracy()
				errOnly(c, "Accumulate", accept, func() error { return ac.Accumulate(mk(c, v, false), mk(c, u, false)) })
				r, err := ac.Result()
				if err != nil || !(0 <= r && r <= 1) {
					c.Fail("Accuracy on %v, %v: %v, %v", v.V, u.V, r, err)
				}
				for _, lr := range sp {
					x := mk(c, v, true)
					y := x.Scale(a)
					bp(c, "y", y)
					errOnly(c, "SGD.Update", accept, func() error { return optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr}).Update(&x) })
					if x == nil || len(x.Shape()) != 1 {
						c.Fail("SGD.Update left %v", x)
					}
				}
			}
		}
	})
}

type initFunc func(shape []int) (tn, error)

func (f initFunc) Init(shape []int) (tn, error) { return f(shape) }

func c09Components(w *eng.W) {
	w.Section("component configs")
	is := []int{math.MinInt, -2, -1, 0, 1, 2, 3, 7, 1 << 31, 1 << 53, math.MaxInt}
	fl := []float64{math.Inf(-1), -math.MaxFloat64, -1, -0.5, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, 0.5, 1, math.MaxFloat64, math.Inf(1), math.NaN()}
	sl := [][]int{nil, {}, {1}, {2}, {2, 3}, {1, 2, 3, 1}, {0}, {-1}, {2, 0}, {0, 2}, {2, -3}, {math.MinInt}}
	init := func(c *eng.C, what string, in layers.Initializer) {
		for _, s := range sl {
			total(c, fmt.Sprintf("%s.Init(%v)", what, s), vd(allPos(s)), s, func() (tn, error) { return in.Init(s) })
		}
	}
	w.Case(func() string { return "initializers" }, func(c *eng.C) {
		init(c, "Full(nil)", initializers.NewFull(nil))
		for _, v := range fl {
			init(c, fmt.Sprintf("Full(%v)", v), initializers.NewFull(&initializers.FullConfig{Value: v}))
		}
		if p := ptr(c, "NewUniform(nil)", accept, func() (*initializers.Uniform, error) { return initializers.NewUniform(nil) }); p != nil {
			init(c, "Uniform(nil)", p)
		}
		if p := ptr(c, "NewNormal(nil)", accept, func() (*initializers.Normal, error) { return initializers.NewNormal(nil) }); p != nil {
			init(c, "Normal(nil)", p)
		}
		for _, a := range fl {
			for _, b := range fl {
				c.Beat()
				if p := ptr(c, fmt.Sprintf("NewUniform(%v, %v)", a, b), vd(a < b), func() (*initializers.Uniform, error) {
					return initializers.NewUniform(&initializers.UniformConfig{Lower: a, Upper: b})
				}); p != nil {
					init(c, fmt.Sprintf("Uniform(%v,%v)", a, b), p)
				}
				if p := ptr(c, fmt.Sprintf("NewNormal(%v, %v)", a, b), vd(b > 0), func() (*initializers.Normal, error) {
					return initializers.NewNormal(&initializers.NormalConfig{Mean: a, StdDev: b})
				}); p != nil {
					init(c, fmt.Sprintf("Normal(%v,%v)", a, b), p)
				}
			}
		}
		ptr(c, "NewHeUniform(nil)", reject, func() (*initializers.HeUniform, error) { return initializers.NewHeUniform(nil) })
		ptr(c, "NewHeNormal(nil)", reject, func() (*initializers.HeNormal, error) { return initializers.NewHeNormal(nil) })
		ptr(c, "NewXavierUniform(nil)", reject, func() (*initializers.XavierUniform, error) { return initializers.NewXavierUniform(nil) })
		ptr(c, "NewXavierNormal(nil)", reject, func() (*initializers.XavierNormal, error) { return initializers.NewXavierNormal(nil) })
		for _, a := range is {
			if p := ptr(c, fmt.Sprintf("NewHeUniform(%d)", a), vd(a > 0), func() (*initializers.HeUniform, error) {
				return initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: a})
			}); p != nil {
				init(c, fmt.Sprintf("HeUniform(%d)", a), p)
			}
			if p := ptr(c, fmt.Sprintf("NewHeNormal(%d)", a), vd(a > 0), func() (*initializers.HeNormal, error) {
				return initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: a})
			}); p != nil {
				init(c, fmt.Sprintf("HeNormal(%d)", a), p)
			}
			for _, b := range is {
				if p := ptr(c, fmt.Sprintf("NewXavierUniform(%d,%d)", a, b), vd(a > 0 && b > 0), func() (*initializers.XavierUniform, error) {
					return initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: a, FanOut: b})
				}); p != nil {
					init(c, fmt.Sprintf("XavierUniform(%d,%d)", a, b), p)
				}
				if p := ptr(c, fmt.Sprintf("NewXavierNormal(%d,%d)", a, b), vd(a > 0 && b > 0), func() (*initializers.XavierNormal, error) {
					return initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: a, FanOut: b})
				}); p != nil {
					init(c, fmt.Sprintf("XavierNormal(%d,%d)", a, b), p)
				}
			}
		}
	})
	w.Case(func() string { return "FC configs" }, func(c *eng.C) {
		fc := func(what string, v verdict, o int, cf *layers.FCConfig) {
			p := ptr(c, what, v, func() (*layers.FC, error) { return layers.NewFC(cf) })
			if p == nil {
				return
			}
			ws := p.Weights()
			if len(ws) != 2 {
				c.Fail("%s: %d weights", what, len(ws))
			}
			for _, q := range ws {
				if q.Value == nil || *q.Value == nil || !ref.SameShape((*q.Value).Shape(), []int{o}) {
					c.Fail("%s: ill-formed weight", what)
				}
			}
			for _, x := range []ref.T{mixed([]int{1, 1}, 0), mixed([]int{3, 2}, 0)} {
				total(c, what+".Forward", accept, []int{x.S[0], o}, func() (tn, error) { return p.Forward(mk(c, x, true)) })
			}
		}
		fc("NewFC(nil)", reject, 0, nil)
		full := initializers.NewFull(nil)
		good := func(o int) initFunc {
			return func(s []int) (tn, error) { return tensor.Full(s, 1, conf(true)) }
		}
		bads := map[string]initFunc{
			"returns nil":      func(s []int) (tn, error) { return nil, nil },
			"returns an error": func(s []int) (tn, error) { return nil, fmt.Errorf("no") },
			"returns a scalar": func(s []int) (tn, error) { return tensor.TensorOf(1., conf(true)) },
			"returns a matrix": func(s []int) (tn, error) { return tensor.Full([]int{s[0], 1}, 1, conf(true)) },
			"returns a longer": func(s []int) (tn, error) { return tensor.Full([]int{s[0] + 1}, 1, conf(true)) },
			"returns a cube":   func(s []int) (tn, error) { return tensor.Full([]int{s[0], s[0], s[0]}, 1, conf(true)) },
			"returns a foreign": func(s []int) (tn, error) {
				x, err := tensor.Full([]int{s[0] + 1}, 1, conf(true))
				return foreign{x}, err
			},
		}
		for _, a := range is {
			for _, o := range is {
				if o > 100 {
					continue // resource use, not a precondition
				}
				ok := vd(a > 0 && o > 0)
				if o > 100 {
					ok = reject
				}
				fc(fmt.Sprintf("NewFC(%d,%d)", a, o), ok, o, &layers.FCConfig{Inputs: a, Outputs: o})
				fc(fmt.Sprintf("NewFC(%d,%d,{})", a, o), ok, o, &layers.FCConfig{Inputs: a, Outputs: o, Initializers: map[string]layers.Initializer{}})
				fc(fmt.Sprintf("NewFC(%d,%d,weight)", a, o), ok, o, &layers.FCConfig{Inputs: a, Outputs: o, Initializers: map[string]layers.Initializer{"Weight": full}})
				fc(fmt.Sprintf("NewFC(%d,%d,bias)", a, o), ok, o, &layers.FCConfig{Inputs: a, Outputs: o, Initializers: map[string]layers.Initializer{"Bias": good(o)}})
				fc(fmt.Sprintf("NewFC(%d,%d,other key)", a, o), ok, o, &layers.FCConfig{Inputs: a, Outputs: o, Initializers: map[string]layers.Initializer{"x": good(o), "": nil}})
				for _, k := range []string{"Weight", "Bias"} {
					fc(fmt.Sprintf("NewFC(%d,%d,nil %s)", a, o, k), reject, o, &layers.FCConfig{Inputs: a, Outputs: o, Initializers: map[string]layers.Initializer{k: nil}})
					for n, b := range bads {
						if o > 0 && o < 100 {
							fc(fmt.Sprintf("NewFC(%d,%d,%s %s)", a, o, k, n), reject, o, &layers.FCConfig{Inputs: a, Outputs: o, Initializers: map[string]layers.Initializer{k: b}})
						}
					}
				}
			}
		}
	})
	w.Case(func() string { return "activation, optimizer, loss and metric configs" }, func(c *eng.C) {
		for _, d := range append([]int{-3, -2, -1, 0, 1, 2, 3, 4}, extremeInts...) {
			p := ptr(c, fmt.Sprintf("NewSoftmax(%d)", d), vd(d >= 0), func() (*activations.Softmax, error) {
				return activations.NewSoftmax(&activations.SoftmaxConfig{Dim: d})
			})
			if p == nil {
				continue
			}
			for _, s := range shapes(4, []int{1, 2}, 8) {
				total(c, fmt.Sprintf("Softmax(%d) of %v", d, s), vd(d < len(s)), s, func() (tn, error) { return p.Forward(mk(c, mixed(s, 0), true)) })
			}
		}
		ptr(c, "NewSoftmax(nil)", accept, func() (*activations.Softmax, error) { return activations.NewSoftmax(nil) })
	})
	w.Section("component inputs")
	w.Case(func() string { return "layers and activations: inputs" }, func(c *eng.C) {
		sm, _ := activations.NewSoftmax(nil)
		fc, err := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 3})
		must2(c, "NewFC", err)
		x := func(s ...int) tn { return mk(c, mixed(s, 0), true) }
		type fwd struct {
			name string
			f    func(...tn) (tn, error)
			fc   bool
		}
		fs := []fwd{{"Relu", activations.NewRelu().Forward, false}, {"LeakyRelu", activations.NewLeakyRelu(nil).Forward, false}, {"LeakyRelu{}", activations.NewLeakyRelu(&activations.LeakyReluConfig{}).Forward, false},
			{"Sigmoid", activations.NewSigmoid().Forward, false}, {"Tanh", activations.NewTanh().Forward, false}, {"Softmax", sm.Forward, false}, {"FC", fc.Forward, true}}
		for _, f := range fs {
			total(c, f.name+"()", reject, nil, func() (tn, error) { return f.f() })
			total(c, f.name+"(nil...)", reject, nil, func() (tn, error) { return f.f([]tn(nil)...) })
			total(c, f.name+"(nil)", reject, nil, func() (tn, error) { return f.f(nil) })
			total(c, f.name+"(x, y)", reject, nil, func() (tn, error) { return f.f(x(2, 2), x(2, 2)) })
			total(c, f.name+"(x, nil)", reject, nil, func() (tn, error) { return f.f(x(2, 2), nil) })
			total(c, f.name+"(nil, nil)", reject, nil, func() (tn, error) { return f.f(nil, nil) })
			total(c, f.name+"(x, x, x)", reject, nil, func() (tn, error) { return f.f(x(2), x(2), x(2)) })
			func() { // a foreign implementation: no panic, and not both results
				y, err := f.f(foreign{x(2, 2)})
				if (y == nil) == (err == nil) {
					c.Fail("%s(foreign): result %v, error %v", f.name, y, err)
				}
			}()
			for _, s := range shapes(4, []int{1, 2, 3}, 12) {
				want := s
				ok := true
				if f.fc {
					ok = len(s) == 2
					if ok {
						want = []int{s[0], 3}
					}
				} else if f.name == "Softmax" {
					ok = len(s) > 0
				}
				v := vd(ok)
				if f.fc && ok && s[1] != 2 {
					v = either
				}
				total(c, fmt.Sprintf("%s of %v", f.name, s), v, want, func() (tn, error) { return f.f(mk(c, mixed(s, 0), true)) })
			}
		}
	})
	w.Case(func() string { return "FC with replaced parameters" }, func(c *eng.C) {
		opts := []func() tn{func() tn { return nil }, func() tn { return mk(c, mixed([]int{2}, 0), true) }, func() tn { return mk(c, mixed([]int{3}, 0), true) }, func() tn { return mk(c, mixed(nil, 0), true) }, func() tn { return mk(c, mixed([]int{2, 2}, 0), true) },
			func() tn { return mk(c, mixed([]int{1, 2, 3}, 0), true) }, func() tn { return mk(c, mixed([]int{1}, 0), true) }, func() tn { return foreign{mk(c, mixed([]int{2}, 0), true)} }}
		for i, a := range opts {
			for j, b := range opts {
				for _, s := range [][]int{{1, 1}, {2, 2}, {3, 2}, {2}, {}, {1, 2, 3}} {
					v := either
					if i == 0 || j == 0 || len(s) != 2 {
						v = reject
					}
					if i == 1 && j == 1 && len(s) == 2 || i == 2 && j == 2 && len(s) == 2 {
						v = accept
					}
					o := 0
					if i == 1 {
						o = 2
					} else if i == 2 {
						o = 3
					}
					var want []int
					if v == accept {
						want = []int{s[0], o}
					}
					total(c, fmt.Sprintf("FC{%d,%d}.Forward(%v)", i, j, s), v, want, func() (tn, error) {
						f, err := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 2})
						must2(c, "NewFC", err)
						*f.Weights()[0].Value = a()
						*f.Weights()[1].Value = b()
						return f.Forward(mk(c, mixed(s, 0), true))
					})
				}
			}
		}
		total(c, "FC{}.Forward", reject, nil, func() (tn, error) { return new(layers.FC).Forward(mk(c, mixed([]int{2, 2}, 0), true)) })
		total(c, "FC{}.Forward(nil)", reject, nil, func() (tn, error) { return new(layers.FC).Forward(nil) })
		if ws := new(layers.FC).Weights(); len(ws) != 2 || ws[0].Value == nil || ws[1].Value == nil {
			c.Fail("weights of an empty FC: %v", ws)
		}
		in := layers.NewInput()
		total(c, "Input.Forward without SeedFunc", reject, nil, func() (tn, error) { return in.Forward() })
		total(c, "Input.Forward(x) without SeedFunc", reject, nil, func() (tn, error) { return in.Forward(mk(c, mixed([]int{2}, 0), true)) })
		x := mk(c, mixed([]int{2}, 0), true)
		in.SeedFunc = func() tn { return x }
		total(c, "Input.Forward", accept, []int{2}, func() (tn, error) { return in.Forward() })
		for _, a := range [][]tn{{x}, {nil}, {x, x}, {nil, nil}} {
			total(c, fmt.Sprintf("Input.Forward(%d arguments)", len(a)), reject, nil, func() (tn, error) { return in.Forward(a...) })
		}
	})
	w.Case(func() string { return "losses and metrics: inputs" }, func(c *eng.C) {
		prob := func(s []int, k int) tn { return mk(c, generic(s, k, 0.1, 0.9), k == 0) }
		type loss struct {
			name string
			rank int
			f    func(a, b tn) (tn, error)
		}
		ls := []loss{{"MSE", 1, losses.NewMSE().Compute}, {"BCE", 1, losses.NewBCE().Compute}, {"CE", 2, losses.NewCE().Compute}}
		ss := shapes(3, []int{1, 2, 3}, 9)
		for _, l := range ls {
			for _, a := range ss {
				c.Beat()
				for _, b := range ss {
					total(c, fmt.Sprintf("%s(%v, %v)", l.name, a, b), vd(len(a) == l.rank && ref.SameShape(a, b)), nil, func() (tn, error) { return l.f(prob(a, 0), prob(b, 1)) })
				}
				for k, bad := range []tn{nil, foreign{prob(a, 0)}} {
					v := reject
					if k == 1 {
						v = either
					}
					total(c, fmt.Sprintf("%s(%v, bad %d)", l.name, a, k), v, nil, func() (tn, error) { return l.f(prob(a, 0), bad) })
					total(c, fmt.Sprintf("%s(bad %d, %v)", l.name, k, a), v, nil, func() (tn, error) { return l.f(bad, prob(a, 0)) })
				}
			}
			total(c, l.name+"(nil, nil)", reject, nil, func() (tn, error) { return l.f(nil, nil) })
		}
		for _, a := range ss {
			for _, b := range ss {
				ac := metrics.NewAccuracy()
				errOnly(c, fmt.Sprintf("Accumulate(%v, %v)", a, b), vd(len(a) == 1 && ref.SameShape(a, b)), func() error { return ac.Accumulate(prob(a, 0), prob(b, 0)) })
				if r, err := ac.Result(); err != nil || !(0 <= r && r <= 1) {
					c.Fail("Accuracy.Result: %v, %v", r, err)
				}
			}
			ac := metrics.NewAccuracy()
			errOnly(c, "Accumulate(nil, x)", reject, func() error { return ac.Accumulate(nil, prob(a, 0)) })
			errOnly(c, "Accumulate(x, nil)", reject, func() error { return ac.Accumulate(prob(a, 0), nil) })
			errOnly(c, "Accumulate(nil, nil)", reject, func() error { return ac.Accumulate(nil, nil) })
			errOnly(c, "Accumulate(foreign, x)", either, func() error { return ac.Accumulate(foreign{prob(a, 0)}, prob(a, 0)) })
			errOnly(c, "Accumulate(x, foreign)", vd(false), func() error { return ac.Accumulate(prob(a, 0), foreign{prob(a, 0)}) })
		}
	})
	w.Case(func() string { return "SGD updates" }, func(c *eng.C) {
		for _, cf := range []*optimizers.SGDConfig{nil, {}, {LearningRate: -1}, {LearningRate: math.NaN()}, {LearningRate: math.Inf(1)}} {
			o := optimizers.NewSGD(cf)
			if o == nil {
				c.Fail("NewSGD returned nil")
			}
			errOnly(c, "Update(nil)", reject, func() error { return o.Update(nil) })
			var z tn
			errOnly(c, "Update(&nil)", reject, func() error { return o.Update(&z) })
			if z != nil {
				c.Fail("Update replaced a nil tensor")
			}
			for _, s := range shapes(4, []int{1, 2}, 8) {
				for _, tr := range []bool{false, true} {
					x := mk(c, mixed(s, 0), tr)
					y := x
					errOnly(c, "Update(no gradient)", reject, func() error { return o.Update(&y) })
					if !reflect.DeepEqual(&x, &y) || x != y {
						c.Fail("rejected Update replaced the tensor")
					}
					bp(c, "x.Scale", x.Scale(2))
					errOnly(c, "Update", vd(tr), func() error { return o.Update(&y) })
					if y == nil || !ref.SameShape(y.Shape(), s) {
						c.Fail("Update left a tensor of another shape")
					}
				}
			}
			f := tn(foreign{mk(c, mixed([]int{2}, 0), true)})
			errOnly(c, "Update(&foreign without gradient)", reject, func() error { return o.Update(&f) })
		}
	})
}

func must2(c *eng.C, what string, err error) {
	if err != nil {
		c.Fail("%s failed: %v", what, err)
	}
}

func runC09(w *eng.W) {
	c09Ctors(w)
	c09Components(w)
	c09Floats(w)
	c09Unary(w)
	c09Binary(w)
	c09Concat(w)
	c09TensorOf(w)
}

func init() {
	register(&eng.Check{ID: "C09", Run: runC09,
		Bounds: func(tier string) string {
			b := "ranks 0..5, dims 1..3: every dim argument in [-3, rank+3] and extremes; every index tuple and every range tuple (length 0..rank+1) over letters on and around every boundary incl. int extremes; every target shape of length <=3..4 over {MinInt,-1,0,1,2,3,4,6} and overflowing products; every ordered pair of shapes (rank<=3 over {1,2,3}, rank 4 over {1,2}) x 15 binary calls, nil and foreign operands; " +
				"Patch: every shape pair x range letters; Concat: pairs/triples x dims, nil/foreign/short lists; TensorOf: every nested data of depth <=4 with lengths 0..3 (<=2 below) incl. nil, empty and ragged; constructors x configs x dims of length <=4; 14 special floats through every operation, activation, loss, metric and optimizer, forward and backward; component configs over int/float letters, wrong arity, nil, unset fields"
			if tier == "thorough" {
				b += "; thorough: rank 4 over {1,2,3}, rank 5, all boundary ranges at rank 2, target shapes of length 4"
			}
			return b
		},
		Assumptions: []string{"requests that are valid but exceed memory (huge positive sizes) are out of scope", "nil receivers and component structs built without their constructor are out of scope except FC and Input", "FC inputs whose feature count differs from Inputs are not required to be rejected"}})
}
