package checks

import (
	"fmt"

	"verifmc/ref"
)

// Inst is an operation with operand shapes (no implicit expansion).
type Inst struct {
	O  *Op
	In [][]int
}

func (i Inst) String() string {
	r := i.O.Name
	for _, s := range i.In {
		r += " " + ints(s)
	}
	return r
}

// values for operand k of an instance; q selects a pattern.
func (i Inst) values(q int) []ref.T {
	r := make([]ref.T, len(i.In))
	for k, s := range i.In {
		r[k] = mixed(s, q+3*k)
		if i.O.Pos {
			r[k] = positive(r[k])
		}
	}
	return r
}

var unaryInst = []string{"Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh"}

// pointwise instances of shape s.
func instPointwise(s []int) (r []Inst) {
	for _, n := range unaryInst {
		r = append(r, Inst{opUnary(n), [][]int{s}})
	}
	for _, a := range []float64{-1.75, 0, 1, -1} {
		r = append(r, Inst{opScale(a), [][]int{s}})
	}
	for _, a := range []float64{0, 1, 2, 3, -1, -2, 0.5} {
		r = append(r, Inst{opPow(a), [][]int{s}})
	}
	for _, n := range []string{"Add", "Sub", "Mul", "Div", "ElMax", "ElMin"} {
		r = append(r, Inst{opBin(n), [][]int{s, s}})
	}
	return
}

// instReduce: reductions along every dim.
func instReduce(s []int) (r []Inst) {
	for d := range s {
		for _, n := range ref.StatNames {
			r = append(r, Inst{opAlong(n, d), [][]int{s}})
		}
	}
	return
}

// instShape: shape modifiers; facRank bounds the rank of reshape targets.
func instShape(s []int, facRank int) (r []Inst) {
	if len(s) >= 2 {
		r = append(r, Inst{opTranspose(), [][]int{s}})
	}
	for _, f := range factorisations(ref.Prod(s), facRank) {
		r = append(r, Inst{opReshape(f), [][]int{s}})
	}
	for d := 0; d <= len(s); d++ {
		r = append(r, Inst{opUnSqueeze(d), [][]int{s}})
		if d < len(s) {
			r = append(r, Inst{opFlatten(d), [][]int{s}})
			if s[d] == 1 {
				r = append(r, Inst{opSqueeze(d), [][]int{s}})
			}
		}
	}
	return
}

// instIndex: every Slice and every Patch of shape s.
func instIndex(s []int) (r []Inst) {
	allRanges(s, func(rs []ref.Range) { r = append(r, Inst{opSlice(rs), [][]int{s}}) })
	allPatches(s, func(rs []ref.Range, p []int) { r = append(r, Inst{opPatch(rs), [][]int{s, p}}) })
	return
}

// instProduct: Dot on s, MatMul on s x (batch of s, n, k).
func instProduct(s []int, ks []int) (r []Inst) {
	if len(s) >= 1 {
		r = append(r, Inst{opBin("Dot"), [][]int{s, s}})
	}
	if len(s) >= 2 {
		for _, k := range ks {
			b := ref.CopyInts(s)
			b[len(b)-2], b[len(b)-1] = s[len(s)-1], k
			r = append(r, Inst{opBin("MatMul"), [][]int{s, b}})
		}
	}
	return
}

// instConcat: 2 and 3 operands along every dim, sizes 1..max along it.
func instConcat(s []int, sizes []int, maxN int) (r []Inst) {
	for d := range s {
		for n := 2; n <= maxN; n++ {
			tuples(len(sizes), n, func(t []int) bool {
				in := make([][]int, n)
				for i := range in {
					in[i] = ref.CopyInts(s)
					in[i][d] = sizes[t[i]]
				}
				r = append(r, Inst{opConcat(d, n), in})
				return true
			})
		}
	}
	return
}

// allInst is a compact catalogue that contains every differentiable operation on shape s.
func allInst(s []int) (r []Inst) {
	r = append(r, instPointwise(s)...)
	r = append(r, instReduce(s)...)
	r = append(r, instShape(s, 2)...)
	r = append(r, Inst{opSlice(nil), [][]int{s}}, Inst{opPatch(nil), [][]int{s, s}})
	for d := range s {
		if s[d] > 1 {
			rs := make([]ref.Range, d+1)
			rs[d] = ref.Range{From: 1, To: s[d]}
			p := ref.CopyInts(s)
			p[d]--
			r = append(r, Inst{opSlice(rs), [][]int{s}}, Inst{opPatch(rs), [][]int{s, p}})
		}
	}
	r = append(r, instProduct(s, []int{2})...)
	r = append(r, instConcat(s, []int{1, 2}, 2)...)
	return
}

func kindOf(o *Op) string {
	for i := range o.Name {
		if o.Name[i] == '(' {
			return o.Name[:i]
		}
	}
	return o.Name
}

var _ = fmt.Sprint
