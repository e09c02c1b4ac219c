package checks

import (
	"fmt"

	"verifmc/eng"
	"verifmc/ref"
)

/* Grids of middle-sized shapes: code that works in blocks or tiles goes wrong only where several dimensions exceed the
block at once, or where one is a multiple of it and another is not. */

// midShapes: every shape over sizes around 8, 16, 32, 64 (128): of rank 2 over m2, of rank 3 over m3, of rank 4 over m4.
func midShapes(w *eng.W, light bool) (r [][]int) {
	m2 := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65}
	m3 := []int{1, 2, 8, 9, 16, 17, 32, 33}
	m4 := []int{1, 2, 5, 9}
	if light {
		m2, m3, m4 = []int{1, 3, 8, 9, 16, 17, 32, 33, 64, 65}, []int{1, 2, 9, 17, 33}, []int{1, 2, 9}
	}
	if w.Thorough() {
		m2 = append(m2, 100, 127, 128, 129)
		if !light {
			m3, m4 = append(m3, 64, 65), append(m4, 8, 17)
		}
	}
	add := func(m []int, k int) {
		tuples(len(m), k, func(q []int) bool {
			s := make([]int, k)
			for i, j := range q {
				s[i] = m[j]
			}
			r = append(r, s)
			return true
		})
	}
	add(m2, 2)
	add(m3, 3)
	add(m4, 4)
	return
}

const midText = "every shape of rank 2, 3 and 4 over sizes around 8, 16, 32 and 64 (128)"

// grid runs f on every shape.
func grid(w *eng.W, light bool, f func(c *eng.C, s []int, k int)) {
	w.Section("grid of middle sizes")
	for k, s := range midShapes(w, light) {
		w.Case(func() string { return fmt.Sprintf("grid %v", s) }, func(c *eng.C) { f(c, s, k) })
	}
}

// withOne: s with dimension d set to 1; ok is false if it is 1 already.
func withOne(s []int, d int) (r []int, ok bool) {
	r = ref.CopyInts(s)
	r[d] = 1
	return r, s[d] != 1
}

func gridC03(w *eng.W) {
	grid(w, false, func(c *eng.C, s []int, k int) {
		names := append(append(append([]string{}, arith...), elm...), ref.ComparisonNames...)
		x, y := mixed(s, 1), mixed(s, 8)
		for i := 0; i < len(x.V); i += 5 {
			y.V[i] = x.V[i]
		}
		c03Pair(c, names[k%len(names)], x, y, false)
		for i, n := range arith {
			d := (k + i) % len(s)
			if o, ok := withOne(s, d); ok {
				c03Pair(c, n, mixed(s, i), mixed(o, i+7), true)
				c03Pair(c, n, mixed(o, i), mixed(s, i+7), true)
				e := (d + 1) % len(s)
				if p, ok := withOne(s, e); ok {
					c03Pair(c, n, mixed(o, i), mixed(p, i+7), true)
				}
			}
			c03Pair(c, n, mixed(s, i), mixed(s[1:], i+7), true)
		}
		n := ref.UnaryNames[k%len(ref.UnaryNames)]
		c03Un(c, opUnary(n), n, positive(mixed(s, k)))
		c03Un(c, opScale(-1.75), "", mixed(s, 1))
		p, q := mk(c, x, false), mk(c, mapT(x, func(i int, v float64) float64 {
			if i == (k*7919)%len(x.V) {
				return v + 1
			}
			return v
		}), false)
		got, err := p.Equals(q)
		c.Check(err == nil && !got, "Equals of tensors of shape %v with one difference: %v %v", s, got, err)
		got, err = p.Equals(p)
		c.Check(err == nil && got, "Equals of one tensor of shape %v: %v %v", s, got, err)
	})
}

func gridC04(w *eng.W) {
	grid(w, false, func(c *eng.C, s []int, k int) {
		x := rampI(s, 0)
		t := mk(c, x, false)
		z, err := t.Transpose()
		must(c, "Transpose", z, err)
		checkT(c, "Transpose of "+ints(s), z, ref.Transpose(x).T, nil)
		c04Prod(c, "Dot", x, rampI(s, 1))
		c04Prod(c, "Dot", x, rampI(s[1:], 1))
		if o, ok := withOne(s, 0); ok {
			c04Prod(c, "Dot", rampI(o, 2), x)
		}
		n := len(s)
		switch n {
		case 2: // matrix by narrow matrix, and by a batch
			c04Prod(c, "MatMul", x, rampI([]int{s[1], 2}, 1))
			c04Prod(c, "MatMul", rampI([]int{2, s[0]}, 3), x)
		case 3: // m, n, k; and a batch of matrices against one
			if s[0]*s[1]*s[2] > 40000 && !w.Thorough() {
				return
			}
			c04Prod(c, "MatMul", rampI([]int{s[0], s[1]}, 2), rampI([]int{s[1], s[2]}, 3))
			c04Prod(c, "MatMul", x, rampI([]int{s[2], 3}, 1))
			c04Prod(c, "MatMul", rampI([]int{3, s[1]}, 1), x)
			c04Prod(c, "MatMul", x, rampI([]int{s[0], s[2], 2}, 4))
		case 4: // b, m, n, k
			c04Prod(c, "MatMul", rampI([]int{s[0], s[1], s[2]}, 2), rampI([]int{s[0], s[2], s[3]}, 3))
			c04Prod(c, "MatMul", rampI([]int{s[0], 1, s[1], s[2]}, 2), rampI([]int{s[3], s[2], 2}, 3))
		}
	})
}

func gridC05(w *eng.W) {
	grid(w, false, func(c *eng.C, s []int, k int) {
		c05Tensor(c, mixed(s, k), "mixed")
		c05Tensor(c, mapT(mixed(s, k+1), func(i int, v float64) float64 { return -1e5 - v }), "negative offset")
	})
}

func gridC06(w *eng.W) {
	grid(w, false, func(c *eng.C, s []int, k int) {
		x := label(s, 1)
		n := len(s)
		c06Op(c, opTranspose(), x)
		rev := make([]int, n)
		for i := range s {
			rev[i] = s[n-1-i]
		}
		c06Op(c, opReshape(rev), x)
		c06Op(c, opReshape(append([]int{s[0] * s[1]}, s[2:]...)), x)
		inner, part := make([]ref.Range, n), make([]int, n)
		for d := range s {
			inner[d] = ref.Range{From: s[d] / 3, To: s[d] - s[d]/4}
			part[d] = inner[d].To - inner[d].From
			c06Op(c, opFlatten(d), x)
			c06Op(c, opUnSqueeze(d), x)
			p := ref.CopyInts(s)
			p[d] = 1 + k%9
			c06Op(c, opConcat(d, 3), x, label(p, 2), x)
			c06Op(c, opConcat(d, 2), label(p, 2), x)
			if o, ok := withOne(s, d); ok {
				c06Op(c, opBroadcast(s), label(o, 3))
			}
			one := make([]ref.Range, d+1)
			one[d] = inner[d]
			c06Op(c, opSlice(one), x)
			q := ref.CopyInts(s)
			q[d] = part[d]
			c06Op(c, opPatch(one), x, label(q, 4))
		}
		c06Op(c, opBroadcast(append([]int{3}, s...)), x)
		c06Op(c, opBroadcast(s), label(s[1:], 3))
		c06Op(c, opSlice(inner), x)
		c06Op(c, opPatch(inner), x, label(part, 4))
		f, err := mk(c, x, false).Reshape(ref.CopyInts(s))
		must(c, "Reshape to the own shape", f, err)
		checkBits(c, "Reshape to the own shape", f, x)
		c.Outcome("grid")
	})
}

// midOps are the shape operations on a middle-sized tensor, with labels for their further operands.
func midOps(s []int, k int) (os []*Op, more [][]ref.T) {
	add := func(o *Op, m ...ref.T) { os, more = append(os, o), append(more, m) }
	n := len(s)
	if n >= 2 {
		add(opTranspose())
		rev := make([]int, n)
		for i := range s {
			rev[i] = s[n-1-i]
		}
		add(opReshape(rev))
		add(opReshape([]int{ref.Prod(s)}))
	}
	for d := range s {
		r := make([]ref.Range, d+1)
		r[d] = ref.Range{From: s[d] / 4, To: s[d] - s[d]/5}
		add(opSlice(r))
		q := ref.CopyInts(s)
		q[d] = r[d].To - r[d].From
		add(opPatch(r), label(q, 30+k))
		p := ref.CopyInts(s)
		p[d] = 3
		add(opConcat(d, 2), label(p, 40+k))
		if s[d] == 1 {
			add(opSqueeze(d))
		}
		if d < n-1 {
			add(opFlatten(d))
		}
		if n < 4 {
			add(opUnSqueeze(d))
		}
	}
	if n < 4 {
		add(opBroadcast(append([]int{2}, s...)))
	}
	return
}

// chainsC06: every sequence of two (three) shape operations on middle-sized tensors.
func chainsC06(w *eng.W) {
	w.Section("sequences on middle sizes")
	for _, s := range [][]int{{25, 30}, {33, 17}, {64, 32}, {1, 40}, {40, 1}, {9, 17, 5}, {2, 33, 16}, {600}, {32, 32}, {3, 8, 9, 2}} {
		os, _ := midOps(s, 0)
		for first := range os {
			w.Case(func() string { return fmt.Sprintf("sequences on %v from %s", s, os[first].Name) }, func(c *eng.C) {
				var walk func(x tn, v ref.T, depth int)
				walk = func(x tn, v ref.T, depth int) {
					os, more := midOps(v.S, depth)
					for i, o := range os {
						if depth == 0 && i != first {
							continue
						}
						ts, vs := []tn{x}, append([]ref.T{v}, more[i]...)
						for _, m := range more[i] {
							ts = append(ts, mk(c, m, false))
						}
						c.Op("step %d: %s on %v", depth, o.Name, v.S)
						y, err := o.Lib(ts)
						must(c, o.Name, y, err)
						want, ok := o.Ref(vs)
						if !ok {
							panic("harness: invalid arguments for " + o.Name)
						}
						checkBits(c, fmt.Sprintf("step %d: %s on %v", depth, o.Name, v.S), y, want.T)
						if depth < w.Pick(1, 2) && len(want.V) < 6000 {
							walk(y, want.T, depth+1)
						}
						c.Validated()
						c.Beat()
					}
				}
				v := label(s, 1)
				x := mk(c, v, false)
				walk(x, v, 0)
				checkBits(c, "the first operand afterwards", x, v)
			})
		}
	}
}

func gridC02(w *eng.W) {
	grid(w, true, func(c *eng.C, s []int, k int) {
		var list []Inst
		pw := instPointwise(s)
		for i := range pw {
			if (i+k)%4 == 0 {
				list = append(list, pw[i])
			}
		}
		for i, in := range instReduce(s) {
			if (i+k)%2 == 0 {
				list = append(list, in)
			}
		}
		list = append(list, Inst{opTranspose(), [][]int{s}}, Inst{opReshape([]int{ref.Prod(s)}), [][]int{s}}, Inst{opFlatten(k % len(s)), [][]int{s}})
		rs, p := make([]ref.Range, len(s)), make([]int, len(s))
		for d := range s {
			rs[d] = ref.Range{From: s[d] / 3, To: s[d] - s[d]/4}
			p[d] = rs[d].To - rs[d].From
		}
		list = append(list, Inst{opSlice(rs), [][]int{s}}, Inst{opPatch(rs), [][]int{s, p}}, Inst{opBin("Dot"), [][]int{s, s}})
		b := ref.CopyInts(s)
		b[len(b)-2], b[len(b)-1] = s[len(s)-1], 2+k%3
		list = append(list, Inst{opBin("MatMul"), [][]int{s, b}})
		if len(s) == 3 {
			list = append(list, Inst{opBin("MatMul"), [][]int{{s[0], s[1]}, {s[1], s[2]}}})
		}
		d := k % len(s)
		q := ref.CopyInts(s)
		q[d] = 1 + k%9
		list = append(list, Inst{opConcat(d, 3), [][]int{s, q, s}})
		for _, in := range list {
			v := in.values(2)
			out, _ := in.O.Ref(v)
			g := mixed(out.S, 3)
			c02One(c, in.O, v, 1<<len(v)-1, &g, false, false)
			c.Beat()
		}
	})
}

func gridC07(w *eng.W) {
	grid(w, true, func(c *eng.C, s []int, k int) {
		for d := range s {
			if o, ok := withOne(s, d); ok {
				n := arith[(k+d)%4]
				if k%2 == 0 {
					c07Implicit(c, n, s, o, k)
				} else {
					c07Implicit(c, n, o, s, k)
				}
				if d < len(s)-1 {
					c07Implicit(c, "Dot", s, o, k)
				}
				if p, ok := withOne(s, (d+1)%len(s)); ok {
					c07Implicit(c, arith[(k+d+1)%4], o, p, k)
				}
			}
		}
		c07Implicit(c, arith[k%4], s, s[1:], k)
		c07Implicit(c, arith[(k+1)%4], nil, s, k)
		if len(s) > 2 {
			c07Implicit(c, "MatMul", s, []int{s[len(s)-1], 2}, k)
			c07Implicit(c, "MatMul", []int{2, s[len(s)-2]}, s, k)
		}
	})
}

// gridLoss: [batch, classes] for CE.
func gridLoss(w *eng.W, f func(c *eng.C, s []int, k int)) {
	grid(w, false, func(c *eng.C, s []int, k int) {
		if len(s) == 2 {
			f(c, s, k)
		}
	})
}

func gridActs(w *eng.W, f func(c *eng.C, a actObj, s []int, k int)) {
	grid(w, true, func(c *eng.C, s []int, k int) {
		if ref.Prod(s) > 20000 && !w.Thorough() {
			return
		}
		for _, a := range softmaxes(len(s)) {
			f(c, a, s, k)
		}
		f(c, pointActs()[k%5], s, k)
	})
}

// tiny: integers -2..2, whose repeated products stay exact.
func tiny(s []int, k int) ref.T {
	t := ref.New(s)
	for i := range t.V {
		t.V[i] = float64((i*i+i*3+k*7+i/5)%5 - 2)
	}
	return t
}

// chainsC04: every sequence of products and transpositions, small and middle-sized, each step compared; an operand of an
// earlier step is used again afterwards.
func chainsC04(w *eng.W) {
	const letters = 7
	w.Section("sequences of products and transpositions")
	bases := [][]int{{2, 3}, {3, 3}, {1, 4}, {2, 2, 3}, {25, 30}, {33, 17}, {24, 24}, {2, 22, 21}, {1, 40}, {40, 1}}
	depth := w.Pick(4, 5)
	for _, s := range bases {
		for first := 0; first < letters; first++ {
			w.Case(func() string { return fmt.Sprintf("sequences on %v from %d", s, first) }, func(c *eng.C) {
				var walk func(x tn, v ref.T, d int)
				walk = func(x tn, v ref.T, d int) {
					r := len(v.S)
					for l := 0; l < letters; l++ {
						if d == 0 && l != first || r < 2 {
							continue
						}
						m, n := v.S[r-2], v.S[r-1]
						if l == 6 && r == 2 && m < 2 {
							continue
						}
						var a, b ref.T
						name := "MatMul"
						switch l {
						case 0:
							name = "Transpose"
						case 1:
							a, b = v, tiny([]int{n, n}, d)
						case 2:
							a, b = v, tiny([]int{n, m + 1}, d)
						case 3:
							a, b = tiny([]int{n, m}, d), v
						case 4:
							a, b = tiny([]int{2, 1, m}, d), v
						case 5:
							name = "Dot"
							a, b = v, tiny([]int{n}, d)
						case 6:
							name = "Dot"
							a, b = tiny([]int{m, n}, d), v
						}
						c.Op("step %d: %s on %v", d, name, v.S)
						var y tn
						var err error
						var want ref.T
						var mag []float64
						if l == 0 {
							y, err = x.Transpose()
							want = ref.Transpose(v).T
						} else {
							o, ok := refBin(name, a, b)
							if !ok {
								panic("harness: invalid pair")
							}
							want, mag = o.T, prodMag(name, a, b)
							if l == 3 || l == 4 || l == 6 {
								y, err = libBin(name, mk(c, a, false), x)
							} else {
								y, err = libBin(name, x, mk(c, b, false))
							}
						}
						must(c, name, y, err)
						checkT(c, fmt.Sprintf("step %d: %s on %v", d, name, v.S), y, want, mag)
						if d+1 < depth && len(want.V) < 3000 && len(want.V) > 0 && (d+1 < 3 || ref.Prod(s) < 100) {
							walk(y, want, d+1)
						}
						c.Beat()
					}
					if d < 2 {
						checkT(c, "an operand after the sequences", x, v, nil)
					}
				}
				v := tiny(s, 1)
				walk(mk(c, v, false), v, 0)
				c.Validated()
			})
		}
	}
}
