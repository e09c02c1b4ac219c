package checks

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verifmc/eng"
	"verifmc/ref"
)

// checkBits compares shapes and the bit patterns of all elements.
func checkBits(c *eng.C, what string, x tn, want ref.T) {
	if x == nil {
		c.Fail("%s is nil", what)
	}
	g := get(c, what, x)
	if !ref.SameShape(g.S, want.S) {
		c.Fail("%s has shape %v, expected %v", what, g.S, want.S)
	}
	for i := range want.V {
		if math.Float64bits(g.V[i]) != math.Float64bits(want.V[i]) {
			c.Fail("%s (shape %v) element %d: got %v, expected %v\n got      %v\n expected %v", what, g.S, i, g.V[i], want.V[i], trim(g.V), trim(want.V))
		}
	}
	c.AddValues(len(want.V))
}

// label gives every position its own value; some are special floats (the operations are value-parametric).
func label(s []int, k int) ref.T {
	t := ref.New(s)
	for i := range t.V {
		t.V[i] = float64(1000*k + i + 1)
	}
	if n := len(t.V); n > 1 {
		sp := []float64{math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), 5e-324, -1e308, 0}
		t.V[(3*k+1)%n] = sp[k%len(sp)]
	}
	return t
}

func c06Op(c *eng.C, o *Op, in ...ref.T) tn {
	xs := make([]tn, len(in))
	for i := range in {
		xs[i] = mk(c, in[i], false)
	}
	want, ok := o.Ref(in)
	if !ok {
		panic("harness: invalid arguments for " + o.Name)
	}
	c.Op("%s on %v", o.Name, in[0].S)
	y, err := o.Lib(xs)
	if err != nil {
		c.Fail("%s on %v failed: %v", o.Name, in[0].S, err)
	}
	checkBits(c, fmt.Sprintf("%s on %v", o.Name, in[0].S), y, want.T)
	for i := range in {
		checkBits(c, fmt.Sprintf("operand %d of %s afterwards", i, o.Name), xs[i], in[i])
	}
	c.Validated()
	return y
}

// dimChoices: all ranges of one dimension; the zero Range stands for "whole".
func dimChoices(d int) (r []ref.Range) {
	r = append(r, ref.Range{})
	for f := 0; f < d; f++ {
		for t := f + 1; t <= d; t++ {
			r = append(r, ref.Range{From: f, To: t})
		}
	}
	return
}

// allRanges enumerates every (possibly truncated) range list of a shape.
func allRanges(s []int, f func(rs []ref.Range)) {
	for n := 0; n <= len(s); n++ {
		ch := make([][]ref.Range, n)
		for i := range ch {
			ch[i] = dimChoices(s[i])
		}
		var rec func(i int, rs []ref.Range)
		rec = func(i int, rs []ref.Range) {
			if i == n {
				f(append([]ref.Range{}, rs...))
				return
			}
			for _, r := range ch[i] {
				rec(i+1, append(rs, r))
			}
		}
		rec(0, nil)
	}
}

// allPatches enumerates range lists together with every admissible source shape.
func allPatches(s []int, f func(rs []ref.Range, p []int)) {
	allRanges(s, func(rs []ref.Range) {
		var rec func(i int, p []int)
		rec = func(i int, p []int) {
			if i == len(s) {
				f(rs, ref.CopyInts(p))
				return
			}
			if i < len(rs) && rs[i] != (ref.Range{}) {
				rec(i+1, append(p, rs[i].To-rs[i].From))
				return
			}
			for d := 1; d <= s[i]; d++ {
				rec(i+1, append(p, d))
			}
		}
		rec(0, nil)
	})
}

func factorisations(n, maxRank int) (r [][]int) {
	var rec func(rest int, s []int)
	rec = func(rest int, s []int) {
		if rest == 1 {
			r = append(r, ref.CopyInts(s))
		}
		if len(s) == maxRank {
			return
		}
		for d := 1; d <= rest; d++ {
			if rest%d == 0 {
				rec(rest/d, append(s, d))
			}
		}
	}
	rec(n, nil)
	return
}

func runC06(w *eng.W) {
	w.Section("constructors")
	seen := map[string]bool{}
	var ss [][]int
	ss = append(ss, shapes(6, []int{1, 2, 3}, 729)...)
	ss = append(ss, shapes(4, []int{1, 2, 3, 4, 5}, 625)...)
	ss = append(ss, shapes(2, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, 144)...)
	for i, s := range ss {
		if seen[ints(s)] {
			continue
		}
		seen[ints(s)] = true
		i, s := i, s
		w.Case(func() string { return "construct " + ints(s) }, func(c *eng.C) {
			cf := []*tensor.Config{nil, conf(false), conf(true)}[i%3]
			for _, v := range []float64{Alphabet[i%len(Alphabet)], -3.25, math.Copysign(0, -1), math.Inf(1), math.NaN()} {
				c.Op("Full(%v, %v)", s, v)
				x, err := tensor.Full(ref.CopyInts(s), v, cf)
				must(c, "Full", x, err)
				checkBits(c, fmt.Sprintf("Full(%v, %v)", s, v), x, constV(s, v))
			}
			x, err := tensor.Zeros(ref.CopyInts(s), cf)
			must(c, "Zeros", x, err)
			checkBits(c, "Zeros", x, constV(s, 0))
			x, err = tensor.Ones(ref.CopyInts(s), cf)
			must(c, "Ones", x, err)
			checkBits(c, "Ones", x, constV(s, 1))
			for k := 0; k < 3; k++ {
				a := label(s, k)
				checkBits(c, fmt.Sprintf("TensorOf/Reshape of shape %v", s), mk(c, a, k == 1), a)
			}
			c.Validated()
		})
	}
	eyes := []int{63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257}
	for n := 1; n <= 40; n++ {
		eyes = append(eyes, n)
	}
	for _, n := range eyes {
		w.Case(func() string { return fmt.Sprint("Eye ", n) }, func(c *eng.C) {
			for _, cf := range []*tensor.Config{nil, conf(true)} {
				x, err := tensor.Eye(n, cf)
				must(c, "Eye", x, err)
				checkBits(c, fmt.Sprintf("Eye(%d)", n), x, eyeRef(n))
			}
		})
	}

	w.Section("Slice: every range list")
	seen = map[string]bool{}
	var sl [][]int
	sl = append(sl, shapes(4, []int{1, 2, 3}, 81)...)
	sl = append(sl, shapes(2, []int{1, 2, 3, 4, 5, 6}, 36)...)
	sl = append(sl, shapes(3, []int{1, 2, 3, 4}, 64)...)
	sl = append(sl, shapes(6, []int{1, 2}, 64)...)
	sl = append(sl, shapes(5, []int{1, 2, 3}, w.Pick(36, 108))...)
	for _, s := range sl {
		if seen[ints(s)] {
			continue
		}
		seen[ints(s)] = true
		s := s
		// one case per first range
		for _, first := range append([]ref.Range{{From: -1}}, dimChoicesOf(s)...) {
			first := first
			w.Case(func() string { return fmt.Sprintf("Slice %s first=%v", ints(s), first) }, func(c *eng.C) {
				x := label(s, 2)
				allRanges(s, func(rs []ref.Range) {
					if len(rs) == 0 != (first.From == -1) || len(rs) > 0 && rs[0] != first {
						return
					}
					c06Op(c, opSlice(rs), x)
				})
			})
		}
	}
	w.Section("Patch: every range list and source shape")
	seen = map[string]bool{}
	var pl [][]int
	pl = append(pl, shapes(3, []int{1, 2, 3}, 27)...)
	pl = append(pl, shapes(2, []int{1, 2, 3, 4, 5}, 25)...)
	pl = append(pl, shapes(3, []int{1, 2, 3, 4}, 64)...)
	pl = append(pl, shapes(4, []int{1, 2, 3}, w.Pick(36, 54))...)
	pl = append(pl, shapes(6, []int{1, 2}, w.Pick(16, 32))...)
	for _, s := range pl {
		if seen[ints(s)] {
			continue
		}
		seen[ints(s)] = true
		s := s
		for _, first := range append([]ref.Range{{From: -1}}, dimChoicesOf(s)...) {
			first := first
			w.Case(func() string { return fmt.Sprintf("Patch %s first=%v", ints(s), first) }, func(c *eng.C) {
				x := label(s, 1)
				allPatches(s, func(rs []ref.Range, p []int) {
					if len(rs) == 0 != (first.From == -1) || len(rs) > 0 && rs[0] != first {
						return
					}
					src := label(p, 4)
					y := c06Op(c, opPatch(rs), x, src)
					// slicing the patched block gives the source back
					at := make([]tensor.Range, len(s))
					for i := range at {
						f := 0
						if i < len(rs) {
							f = rs[i].From
						}
						at[i] = tensor.Range{From: f, To: f + p[i]}
					}
					z, err := y.Slice(at)
					must(c, "Slice of the patched block", z, err)
					checkBits(c, fmt.Sprintf("Slice(%v) of Patch(%v)", at, rs), z, src)
				})
			})
		}
	}
	w.Section("Reshape: every pair of shapes with equal element count")
	for n := 1; n <= w.Pick(48, 96); n++ {
		fs := factorisations(n, w.Pick(5, 6))
		for _, a := range fs {
			a := a
			w.Case(func() string { return "Reshape from " + ints(a) }, func(c *eng.C) {
				x := label(a, n%7)
				for _, b := range fs {
					c06Op(c, opReshape(b), x)
				}
			})
		}
	}
	for _, a := range shapes(6, []int{1, 2, 3}, w.Pick(144, 729)) {
		a := a
		w.Case(func() string { return "Reshape from " + ints(a) + " to every ordered factorisation" }, func(c *eng.C) {
			x := label(a, 3)
			for _, b := range factorisations(ref.Prod(a), 3) {
				c06Op(c, opReshape(b), x)
			}
			for _, p := range permutations(len(a)) {
				if len(a) > 4 && p[0] != len(a)-1 {
					continue
				}
				b := make([]int, len(a))
				for i := range b {
					b[i] = a[p[i]]
				}
				c06Op(c, opReshape(b), x)
			}
		})
	}
	w.Section("Flatten, Squeeze, UnSqueeze, Transpose: every dim")
	for _, s := range ss {
		s := s
		if len(s) == 6 && ref.Prod(s) > 729 {
			continue
		}
		w.Case(func() string { return "modify " + ints(s) }, func(c *eng.C) {
			x := label(s, 5)
			for d := 0; d <= len(s); d++ {
				y := c06Op(c, opUnSqueeze(d), x)
				z, err := y.Squeeze(d)
				must(c, "Squeeze after UnSqueeze", z, err)
				checkBits(c, "Squeeze after UnSqueeze", z, x)
				if d < len(s) {
					c06Op(c, opFlatten(d), x)
					if s[d] == 1 {
						c06Op(c, opSqueeze(d), x)
					}
				}
			}
			if len(s) >= 2 {
				c06Op(c, opTranspose(), x)
			}
		})
	}
	w.Section("Broadcast: every source and target")
	seen = map[string]bool{}
	for _, f := range []struct {
		rank int
		dims []int
		maxN int
	}{{4, []int{1, 2, 3}, 81}, {2, []int{1, 2, 3, 4, 5, 6, 7}, 49}, {6, []int{1, 2}, 64}, {5, []int{1, 2, 3}, 243}, {6, []int{1, 2, 3}, w.Pick(72, 324)}, {3, []int{1, 2, 3, 4, 5}, 125}} {
		for _, dst := range shapes(f.rank, f.dims, f.maxN) {
			if seen[ints(dst)] {
				continue
			}
			seen[ints(dst)] = true
			dst := dst
			w.Case(func() string { return "Broadcast to " + ints(dst) }, func(c *eng.C) {
				for m := 0; m < 1<<len(dst); m++ {
					src := ref.CopyInts(dst)
					dup := false
					for i := range src {
						if m>>i&1 == 1 {
							dup = dup || src[i] == 1
							src[i] = 1
						}
					}
					if dup {
						continue
					}
					for cut := 0; cut <= len(dst); cut++ {
						c06Op(c, opBroadcast(dst), label(src[cut:], cut))
					}
				}
			})
		}
	}
	w.Section("Concat: operand counts, dims and sizes")
	for _, s := range append(shapes(4, []int{1, 2, 3}, w.Pick(54, 81)), append(shapesOf(5, []int{1, 2}, 32), shapesOf(6, []int{1, 2}, 64)...)...) {
		for d := range s {
			s, d := s, d
			w.Case(func() string { return fmt.Sprintf("Concat %s along %d", ints(s), d) }, func(c *eng.C) {
				for n := 2; n <= w.Pick(5, 6); n++ {
					sizes := []int{1, 2, 3}
					if n >= 4 {
						sizes = []int{1, 2}
					}
					if len(s) > 4 {
						sizes = []int{1, 2}
						if n > 2 {
							break
						}
					}
					tuples(len(sizes), n, func(t []int) bool {
						in := make([]ref.T, n)
						for i := range in {
							q := ref.CopyInts(s)
							q[d] = sizes[t[i]]
							in[i] = label(q, i+1)
						}
						y := c06Op(c, opConcat(d, n), in...)
						base := 0
						for i := range in {
							at := make([]tensor.Range, d+1)
							at[d] = tensor.Range{From: base, To: base + in[i].S[d]}
							base = at[d].To
							z, err := y.Slice(at)
							must(c, "Slice of the concatenation", z, err)
							checkBits(c, fmt.Sprintf("piece %d of Concat along %d", i, d), z, in[i])
						}
						return true
					})
				}
				// the same tensors several times: every sequence over three of them
				concatPool(s, d, w.Pick(4, 5), len(s) > 4, func(vs []ref.T, q []int) {
					xs := make([]tn, len(vs))
					for i := range vs {
						xs[i] = mk(c, vs[i], false)
					}
					in, rs := make([]tn, len(q)), make([]ref.T, len(q))
					for i, k := range q {
						in[i], rs[i] = xs[k], vs[k]
					}
					y, err := tensor.Concat(in, d)
					must(c, "Concat of repeated operands", y, err)
					checkBits(c, fmt.Sprintf("Concat of the operands %v along %d", q, d), y, ref.Concat(rs, d).T)
					for i := range vs {
						checkBits(c, "operand after Concat", xs[i], vs[i])
					}
				})
			})
		}
	}
	for _, n := range ladder(1025) {
		w.Case(func() string { return fmt.Sprintf("Concat of %d", n) }, func(c *eng.C) {
			for _, s := range [][]int{{1}, {2}, {1, 2}, {2, 1}, {2, 1, 2}} {
				for d := range s {
					in := make([]ref.T, n)
					for i := range in {
						q := ref.CopyInts(s)
						q[d] = 1 + (i*i+i/3)%3
						in[i] = label(q, i+1)
					}
					c06Op(c, opConcat(d, n), in...)
				}
			}
			c.Outcome("long concat")
		})
	}
	w.Section("operation sequences (breadth-first over reachable tensors)")
	starts := [][]int{{6}, {2, 3}, {1, 4}, {2, 1, 2}, nil, {3, 2}, {1, 2, 2}, {4, 1}, {2, 2}, {1}}
	for _, s := range starts {
		for first := 0; first < w.Pick(80, 80); first++ {
			s, first := s, first
			if first >= len(c06Steps(s, nil)) {
				continue
			}
			w.Case(func() string { return fmt.Sprintf("sequences from %s, first step %d", ints(s), first) }, func(c *eng.C) {
				c06BFS(c, s, first, w.Pick(4, 5), w.Pick(20000, 60000))
			})
		}
	}
	gridC06(w)
	chainsC06(w)
	giantsC06(w)
	w.Section("size ladder")
	for _, n := range ladder(16385) {
		n := n
		w.Case(func() string { return fmt.Sprint("ladder ", n) }, func(c *eng.C) {
			x := label([]int{n}, 1)
			c06Op(c, opSlice([]ref.Range{{From: n / 3, To: n - 1}}), x)
			c06Op(c, opSlice(nil), x)
			c06Op(c, opPatch([]ref.Range{{From: n / 2, To: n/2 + 2}}), x, label([]int{2}, 2))
			c06Op(c, opReshape([]int{1, n, 1}), x)
			c06Op(c, opUnSqueeze(0), x)
			c06Op(c, opUnSqueeze(1), x)
			c06Op(c, opBroadcast([]int{2, n}), x)
			c06Op(c, opBroadcast([]int{n, 2}), label([]int{n, 1}, 2))
			c06Op(c, opBroadcast([]int{n}), label(nil, 2))
			c06Op(c, opConcat(0, 2), x, label([]int{3}, 3))
			c06Op(c, opConcat(1, 2), label([]int{2, n}, 4), label([]int{2, 2}, 3))
			c06Op(c, opConcat(0, 2), label([]int{n, 2}, 4), label([]int{n, 2}, 3))
			y := label([]int{n, 2}, 5)
			c06Op(c, opTranspose(), y)
			c06Op(c, opFlatten(0), y)
			c06Op(c, opReshape([]int{2, n}), y)
			c06Op(c, opSlice([]ref.Range{{}, {From: 1, To: 2}}), y)
			c06Op(c, opSlice([]ref.Range{{From: n - 1, To: n}}), y)
			c06Op(c, opPatch([]ref.Range{{From: 1, To: n}}), y, label([]int{n - 1, 1}, 6))
			f, err := tensor.Full([]int{n}, 2.5, nil)
			must(c, "Full", f, err)
			checkBits(c, "Full", f, constV([]int{n}, 2.5))
		})
	}
}

func dimChoicesOf(s []int) []ref.Range {
	if len(s) == 0 {
		return nil
	}
	return dimChoices(s[0])
}

type c06Step struct {
	o  *Op
	in func(cur ref.T, orig ref.T) []ref.T
}

// c06Steps lists the steps applicable to a tensor of shape s.
func c06Steps(s []int, orig *ref.T) (r []c06Step) {
	one := func(o *Op) {
		r = append(r, c06Step{o, func(cur, _ ref.T) []ref.T { return []ref.T{cur} }})
	}
	n := ref.Prod(s)
	if len(s) >= 2 {
		one(opTranspose())
	}
	for d := range s {
		one(opFlatten(d))
		if s[d] == 1 {
			one(opSqueeze(d))
		} else {
			rs := make([]ref.Range, d+1)
			rs[d] = ref.Range{From: 1, To: s[d]}
			one(opSlice(rs))
			rs2 := make([]ref.Range, d+1)
			rs2[d] = ref.Range{From: 0, To: 1}
			one(opSlice(rs2))
			r = append(r, c06Step{opPatch(rs), func(cur, _ ref.T) []ref.T {
				q := ref.CopyInts(s)
				q[d]--
				return []ref.T{cur, label(q, 6)}
			}})
		}
		if n <= 12 {
			r = append(r, c06Step{opConcat(d, 2), func(cur, _ ref.T) []ref.T { return []ref.T{cur, cur} }})
		}
		if s[d] == 1 && n <= 8 {
			b := ref.CopyInts(s)
			b[d] = 2
			one(opBroadcast(b))
		}
	}
	if len(s) < 5 {
		for d := 0; d <= len(s); d++ {
			one(opUnSqueeze(d))
		}
		if n <= 8 {
			one(opBroadcast(append([]int{2}, s...)))
		}
	}
	for _, f := range factorisations(n, 2) {
		one(opReshape(f))
	}
	return
}

func c06BFS(c *eng.C, s []int, first, depth, cap int) {
	type st struct {
		v    ref.T
		x    tn
		path string
	}
	v0 := label(s, 3)
	x0 := mk(c, v0, false)
	frontier := []st{{v0, x0, "start"}}
	seen := map[uint64]bool{}
	for d := 0; d < depth; d++ {
		var next []st
		for _, cur := range frontier {
			for i, step := range c06Steps(cur.v.S, &v0) {
				if d == 0 && i != first {
					continue
				}
				in := step.in(cur.v, v0)
				xs := make([]tn, len(in))
				xs[0] = cur.x
				for j := 1; j < len(in); j++ {
					if step.o.Name[:6] == "Concat" {
						xs[j] = cur.x
					} else {
						xs[j] = mk(c, in[j], false)
					}
				}
				want, ok := step.o.Ref(in)
				if !ok {
					panic("harness: step " + step.o.Name)
				}
				path := cur.path + " -> " + step.o.Name
				c.Op("%s", path)
				y, err := step.o.Lib(xs)
				if err != nil {
					c.Fail("%s failed: %v", path, err)
				}
				checkBits(c, path, y, want.T)
				c.Validated()
				h := eng.NewHasher().Ints(want.S).Floats(want.V).Sum()
				c.State(h)
				if !seen[h] {
					seen[h] = true
					if len(next) < cap {
						next = append(next, st{want.T, y, path})
					} else {
						c.Worker().Incomplete("breadth-first frontier capped")
					}
				}
			}
			checkBits(c, "operand of the steps after "+cur.path, cur.x, cur.v)
		}
		c.Beat()
		frontier = next
	}
}

func init() {
	register(&eng.Check{ID: "C06", Run: runC06,
		Bounds: func(tier string) string {
			return "constructors on all shapes rank<=6 dims {1,2,3}, rank<=4 dims 1..5, rank<=2 dims 1..12; Eye 1..40 and up to 257; Slice with every (truncated, explicit, whole) range list and Patch with every range list x every source block on rank<=4 dims {1,2,3}, rank<=3 dims 1..4, rank<=2 dims 1..6, rank<=6 dims {1,2} (element caps per tier); Reshape between all factorisations (rank<=5, 6 thorough) of n<=48 (96); Broadcast: every target rank<=6 with every source; Concat 2..5 (6) operands of independent sizes, up to 1025 operands; all operation sequences of length 4 (5) from 10 starting shapes, states deduplicated by (shape, elements); sizes up to 16385. Elements carry labels and special floats and are compared bit for bit"
		}})
}
