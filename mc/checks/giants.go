package checks

import (
	"fmt"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verifmc/eng"
	"verifmc/ref"
)

/* Large operands: code that switches to a parallel, chunked or table-driven variant for large inputs goes wrong only
there, usually in the last chunk. Sizes lie on and next to powers of two and of ten. */

const giantText = "operands of 2^16, 2^16+1, 100003, 2^17+1 (and 2^18+3, 2^20+1) elements"

// further is added to the stated bounds of a check.
var further = map[string]string{
	"C02": "; a grid of " + midText + "; each operation on 65537 .. 80002 elements; Concat of every sequence of 2-4 operands out of 3 objects",
	"C03": "; a grid of " + midText + "; " + giantText,
	"C04": "; a grid of " + midText + "; every sequence of 4 (5) products and transpositions over 10 base shapes; " + giantText,
	"C05": "; a grid of " + midText + "; " + giantText,
	"C06": "; a grid of " + midText + "; every sequence of 2 (3) operations on 10 middle-sized shapes; Concat of every sequence of 2-4 operands out of 3 objects; " + giantText,
	"C07": "; a grid of " + midText + "; expansions to 65537 .. 80002 elements",
	"C12": "; CE on a grid of " + midText + "; " + giantText,
	"C13": "; CE on a grid of " + midText + "; one loss object and one prediction through every sequence of 4 (6) rounds (tracked, untracked, forward only, other input); " + giantText,
	"C14": "; " + giantText,
	"C15": "; one activation and one input object through every sequence of 4 (5) rounds (tracked, untracked, forward only, other input); " + giantText,
	"C16": "; one layer and one input object through every sequence of 3 (5) rounds (tracked, untracked, forward only, other input, replaced parameter); batches, inputs and outputs beyond 2^16 elements",
}

// giants runs f on large sizes; huge: also beyond 2^18.
func giants(w *eng.W, huge bool, f func(c *eng.C, n int, k int)) {
	w.Section("large operands")
	ns := []int{65536, 65537, 100003, 131073}
	if huge || w.Thorough() {
		ns = append(ns, 262147)
	}
	if huge {
		ns = append(ns, 1048577)
	}
	for k, n := range ns {
		w.Case(func() string { return fmt.Sprint("large operands: ", n) }, func(c *eng.C) { f(c, n, k) })
	}
}

func giantsC03(w *eng.W) {
	ops := append(append(append([]string{}, arith...), elm...), ref.ComparisonNames...)
	for oi, name := range ops {
		giants(w, oi == 0, func(c *eng.C, n, k int) {
			x, y := mixed([]int{n}, 1), mixed([]int{n}, 8)
			for i := 0; i < n; i += 5 {
				y.V[i] = x.V[i]
			}
			c03Pair(c, name, x, y, false)
			if n < 100000 && oi < 4 {
				c03Pair(c, name, mixed([]int{n}, 2), mixed(nil, 3), false)
				c03Pair(c, name, mixed([]int{1}, 2), mixed([]int{n}, 3), false)
				c03Pair(c, name, mixed([]int{n, 1}, 2), mixed([]int{1, 2}, 3), false)
				c03Pair(c, name, mixed([]int{2, n}, 2), mixed([]int{n}, 3), false)
			}
		})
	}
	for oi, name := range append([]string{"Scale", "Pow"}, ref.UnaryNames...) {
		giants(w, oi == 0, func(c *eng.C, n, k int) {
			o := opScale(-1.75)
			switch oi {
			case 0:
			case 1:
				o = opPow(3)
			default:
				o = opUnary(name)
			}
			c03Un(c, o, name, positive(mixed([]int{n}, k)))
			c03Un(c, o, name, positive(mixed([]int{n / 2, 2}, k)))
		})
	}
	giants(w, true, func(c *eng.C, n, k int) {
		v := mixed([]int{n}, k)
		x := mk(c, v, false)
		for _, p := range []int{0, n/2 - 1, n / 2, n - 1, n - 2, -1} {
			u := v.Clone()
			if p >= 0 {
				u.V[p]++
			}
			got, err := x.Equals(mk(c, u, false))
			c.Check(err == nil && got == (p < 0), "Equals of %d elements, different at %d: %v %v", n, p, got, err)
		}
		c.Validated()
	})
}

func giantsC04(w *eng.W) {
	giants(w, true, func(c *eng.C, n, k int) {
		c04Prod(c, "Dot", rampI([]int{n}, 1), rampI([]int{n}, 2))
		if n < 200000 {
			c04Prod(c, "Dot", rampI([]int{n, 2}, 1), rampI([]int{2}, 2))
			c04Prod(c, "Dot", rampI([]int{2, n}, 1), rampI([]int{n}, 2))
			c04Prod(c, "MatMul", rampI([]int{1, n}, 1), rampI([]int{n, 1}, 2))
			c04Prod(c, "MatMul", rampI([]int{n, 1}, 1), rampI([]int{1, 1}, 2))
			c04Prod(c, "MatMul", rampI([]int{1, 1}, 1), rampI([]int{1, n}, 2))
			c04Prod(c, "MatMul", rampI([]int{n, 1, 1}, 1), rampI([]int{1, 2}, 2))
		}
		for _, s := range [][]int{{n, 2}, {2, n}, {1, n}, {n / 3, 1, 3}} {
			if n > 200000 && s[0] != 2 {
				continue
			}
			x := rampI(s, 0)
			z, err := mk(c, x, false).Transpose()
			must(c, "Transpose", z, err)
			checkT(c, "Transpose of "+ints(s), z, ref.Transpose(x).T, nil)
		}
	})
	// products whose every dimension is large
	w.Section("large matrices")
	for _, z := range [][3]int{{127, 129, 128}, {100, 200, 150}, {256, 257, 3}, {3, 255, 300}, {257, 33, 129}, {64, 512, 64}, {200, 7, 300}} {
		w.Case(func() string { return fmt.Sprint("large matrices ", z) }, func(c *eng.C) {
			c04Prod(c, "MatMul", rampI([]int{z[0], z[1]}, 2), rampI([]int{z[1], z[2]}, 3))
		})
	}
}

func giantsC05(w *eng.W) {
	pats := []string{"mixed", "ascending", "offset", "negative"}
	for _, pn := range pats {
		giants(w, true, func(c *eng.C, n, k int) {
			for fi, s := range [][]int{{n}, {n, 1}, {2, n / 2}, {n / 2, 2}} {
				if fi > 0 && n > 140000 {
					break
				}
				a := c05Patterns(s)[pn]
				x := mk(c, a, false)
				for _, name := range ref.StatNames {
					c.Beat()
					c.Op("%s of %v (%s)", name, s, pn)
					if want, ok := statOK(name, a.V, libWhole(name, x)); !ok {
						c.Fail("%s of %s %v is %v, expected %v", name, pn, s, libWhole(name, x), want)
					}
					for d := range s {
						y, err := libAlong(name, x, d)
						must(c, name+"Along", y, err)
						got := get(c, "result", y)
						if o := ref.DropDim(s, d); !ref.SameShape(got.S, o) {
							c.Fail("%sAlong(%d) of %v has shape %v, expected %v", name, d, s, got.S, o)
						}
						inner := ref.Prod(s[d+1:])
						fibre := make([]float64, s[d])
						for o := range got.V {
							for i := range fibre {
								fibre[i] = a.V[(o/inner*s[d]+i)*inner+o%inner]
							}
							if want, ok := statOK(name, fibre, got.V[o]); !ok {
								c.Fail("%sAlong(%d) of %s %v, element %d: got %v, expected %v", name, d, pn, s, o, got.V[o], want)
							}
						}
						c.AddValues(len(got.V))
					}
				}
				c.Validated()
			}
		})
	}
}

func giantsC06(w *eng.W) {
	for part := 0; part < 5; part++ {
		giants(w, part < 2, func(c *eng.C, n, k int) {
			x := label([]int{n}, 1)
			switch part {
			case 0:
				c06Op(c, opSlice([]ref.Range{{From: n / 3, To: n - 1}}), x)
				c06Op(c, opReshape([]int{1, n, 1}), x)
			case 1:
				c06Op(c, opConcat(0, 2), x, label([]int{3}, 3))
				c06Op(c, opPatch([]ref.Range{{From: n/2 - 1, To: n/2 + 2}}), x, label([]int{3}, 2))
			case 2:
				y := label([]int{n / 3, 3}, 5)
				c06Op(c, opTranspose(), y)
				c06Op(c, opFlatten(0), y)
				c06Op(c, opReshape([]int{3, n / 3}), y)
				c06Op(c, opSlice([]ref.Range{{}, {From: 1, To: 2}}), y)
				c06Op(c, opConcat(1, 2), y, label([]int{n / 3, 2}, 3))
			case 3:
				c06Op(c, opBroadcast([]int{2, n}), x)
				c06Op(c, opBroadcast([]int{n, 2}), label([]int{n, 1}, 2))
				c06Op(c, opBroadcast([]int{n}), label(nil, 2))
				c06Op(c, opUnSqueeze(0), x)
				c06Op(c, opUnSqueeze(1), x)
				c06Op(c, opSqueeze(0), label([]int{1, n}, 2))
			default:
				y := label([]int{n / 2, 2}, 5)
				c06Op(c, opPatch([]ref.Range{{From: 5, To: n/2 - 2}, {From: 1, To: 2}}), y, label([]int{n/2 - 7, 1}, 2))
				c06Op(c, opPatch(nil), y, label([]int{n / 2, 1}, 2))
				for _, v := range []float64{0, 1, -2.5} {
					t := ref.Full([]int{n}, v)
					z, err := tensor.Full([]int{n}, v, conf(false))
					must(c, "Full", z, err)
					checkBits(c, "Full", z, t)
				}
			}
		})
	}
}

func giantsC02(w *eng.W) {
	s1 := []int{65537}
	var list []Inst
	list = append(list, instPointwise(s1)...)
	for _, n := range []string{"Sum", "Max", "Min"} {
		list = append(list, Inst{opAlong(n, 0), [][]int{s1}}, Inst{opAlong(n, 1), [][]int{{2, 40001}}})
	}
	for _, n := range ref.StatNames {
		list = append(list, Inst{opAlong(n, 0), [][]int{{2, 40001}}}, Inst{opAlong(n, 1), [][]int{{33001, 3}}})
	}
	list = append(list, Inst{opReshape([]int{65537, 1}), [][]int{s1}}, Inst{opFlatten(0), [][]int{{2, 32769}}}, Inst{opTranspose(), [][]int{{3, 22001}}}, Inst{opUnSqueeze(0), [][]int{s1}}, Inst{opSqueeze(1), [][]int{{65537, 1}}},
		Inst{opSlice([]ref.Range{{From: 1, To: 65536}}), [][]int{s1}}, Inst{opPatch([]ref.Range{{From: 1, To: 65536}}), [][]int{s1, {65535}}}, Inst{opBin("Dot"), [][]int{s1, s1}}, Inst{opBin("Dot"), [][]int{{33000, 2}, {33000, 2}}},
		Inst{opBin("MatMul"), [][]int{{1, 65537}, {65537, 1}}}, Inst{opBin("MatMul"), [][]int{{33001, 2}, {2, 2}}}, Inst{opConcat(0, 3), [][]int{{40000}, {1}, {25537}}})
	w.Section("large operands")
	for _, in := range list {
		w.Case(func() string { return fmt.Sprint("large operands: ", in) }, func(c *eng.C) {
			v := in.values(2)
			out, _ := in.O.Ref(v)
			g := mixed(out.S, 3)
			c02One(c, in.O, v, 1<<len(v)-1, &g, false, false)
		})
	}
}

func giantsC07(w *eng.W) {
	w.Section("large operands")
	for i, f := range [][2][]int{{{65537}, nil}, {{65537}, {1}}, {{32769, 2}, {2}}, {{2, 32769}, {32769}}, {{40001, 1}, {1, 2}}, {{1, 40001}, {2, 1}}, {{40001, 1, 2}, {1, 1}}} {
		for q, name := range arith {
			w.Case(func() string { return fmt.Sprintf("large operands: %s %v", name, f) }, func(c *eng.C) { c07Implicit(c, name, f[0], f[1], q+i) })
		}
	}
	for _, f := range [][2][]int{{{32769, 2}, {2}}, {{2, 32769}, {32769}}, {{33001, 1, 2}, {1, 2}}} {
		w.Case(func() string { return fmt.Sprint("large operands: Dot ", f) }, func(c *eng.C) { c07Implicit(c, "Dot", f[0], f[1], 3) })
	}
	w.Case(func() string { return "large operands: MatMul" }, func(c *eng.C) {
		c07Implicit(c, "MatMul", []int{20001, 1, 2}, []int{2, 1}, 3)
		c07Implicit(c, "MatMul", []int{1, 2}, []int{20001, 2, 1}, 3)
	})
}

func giantsLoss(w *eng.W, kind string, f func(c *eng.C, s []int, n int)) {
	giants(w, false, func(c *eng.C, n, k int) {
		for si, s := range lossLadder(kind, n) {
			if si > 0 && n > 65537 {
				break
			}
			c.Beat()
			f(c, s, n)
		}
	})
}

func giantsActs(w *eng.W, f func(c *eng.C, a actObj, s []int, k int)) {
	for ai := range append(pointActs(), softmaxes(1)...) {
		giants(w, ai == 0, func(c *eng.C, n, k int) { f(c, append(pointActs(), softmaxes(1)...)[ai], []int{n}, k) })
	}
	for ai := range softmaxes(2) {
		giants(w, false, func(c *eng.C, n, k int) {
			f(c, softmaxes(2)[ai], []int{2, n / 2}, k)
			f(c, softmaxes(2)[ai], []int{n / 3, 3}, k)
		})
	}
}
