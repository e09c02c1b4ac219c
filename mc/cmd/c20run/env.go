package main

import (
	"math"
	"strconv"
	"strings"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/tensor"
)

type tn = tensor.Tensor

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func ok(err error) {
	if err != nil {
		panic(err)
	}
}

var dimsOf = map[string][]int{
	"a": {2, 3}, "b": {2, 3}, "v": {3}, "w": {3}, "s": {}, "m": {3, 2}, "r": {1, 3}, "c": {2, 1},
	"t": {2, 2, 3}, "u": {2, 3, 2}, "p": {2, 3}, "y": {2, 3}, "q": {4}, "z": {4}, "o": {1}, "k": {2, 1, 3},
	"B": {33, 40}, "C": {33, 40}, "M": {40, 9}, "V": {1200}, "W": {1200},
}

// the names in a fixed order
var names = []string{"a", "b", "v", "w", "s", "m", "r", "c", "t", "u", "p", "y", "q", "z", "o", "k", "B", "C", "M", "V", "W"}

func valsOf(name string) []float64 {
	n := 1
	for _, d := range dimsOf[name] {
		n *= d
	}
	seed := uint64(0)
	for _, ch := range name {
		seed = seed*131 + uint64(ch)
	}
	r := make([]float64, n)
	for i := range r {
		seed = seed*6364136223846793005 + 1442695040888963407
		r[i] = float64(seed>>40)/float64(1<<24)*3 - 1.3
	}
	switch name {
	case "p":
		copy(r, []float64{0.2, 0.5, 0.3, 0.6, 0.1, 0.3})
	case "y":
		copy(r, []float64{0, 1, 0, 0, 0, 1})
	case "q":
		copy(r, []float64{0.2, 0.7, 0.4, 0.9})
	case "z":
		copy(r, []float64{0, 1, 1, 1})
	}
	return r
}

func leaf(name string, tracked bool) tn {
	flat := must(tensor.TensorOf(valsOf(name), &tensor.Config{Device: tensor.CPU, GradTrack: tracked}))
	if len(dimsOf[name]) == 1 {
		return flat
	}
	// a leaf of any shape
	v := valsOf(name)
	d := dimsOf[name]
	c := &tensor.Config{Device: tensor.CPU, GradTrack: tracked}
	switch len(d) {
	case 0:
		return must(tensor.TensorOf(v[0], c))
	case 2:
		x := make([][]float64, d[0])
		for i := range x {
			x[i] = v[i*d[1] : (i+1)*d[1]]
		}
		return must(tensor.TensorOf(x, c))
	}
	x := make([][][]float64, d[0])
	for i := range x {
		x[i] = make([][]float64, d[1])
		for j := range x[i] {
			o := (i*d[1] + j) * d[2]
			x[i][j] = v[o : o+d[2]]
		}
	}
	return must(tensor.TensorOf(x, c))
}

// roles a shared tensor can be in
var roles = []string{"leaf", "param", "mid", "view", "uview", "spent", "used", "reset", "grad"}

func inRole(role, name string, leafs *[]tn) tn {
	switch role {
	case "leaf":
		return leaf(name, false)
	case "param":
		x := leaf(name, true)
		*leafs = append(*leafs, x)
		return x
	case "mid":
		x := leaf(name, true)
		*leafs = append(*leafs, x)
		return x.Scale(1)
	case "view", "uview":
		x := leaf(name, role == "view")
		if role == "view" {
			*leafs = append(*leafs, x)
		}
		return must(must(x.UnSqueeze(0)).Squeeze(0))
	case "spent":
		x := leaf(name, true)
		y := x.Scale(1)
		ok(tensor.BackPropagate(y.Scale(2)))
		*leafs = append(*leafs, x)
		return y
	case "used", "reset":
		x := leaf(name, true)
		ok(tensor.BackPropagate(x.Scale(2)))
		if role == "reset" {
			x.ResetGradContext(true)
			*leafs = append(*leafs, x)
		}
		return x
	case "grad":
		x := leaf(name, true)
		ok(tensor.BackPropagate(must(x.Mul(leaf(name, false)))))
		return x.Gradient()
	}
	panic(role)
}

type env struct {
	role  string
	sh    map[string]tn // shared, in the role
	un    map[string]tn // shared, untracked
	leafs []tn          // tracked leaves behind the shared tensors
	fc    *layers.FC
	acts  map[string]fwd
	loss  map[string]lossI
	inits map[string]initI
	input *layers.Input
	// slices shared by the callers
	idx, idx1       []tensor.Range
	shape6, shapeBr []int
	at              []int
	data2           [][]float64
	data1           []float64
	list            []tn
	conf, tconf     *tensor.Config
}

type fwd interface{ Forward(...tn) (tn, error) }
type lossI interface{ Compute(yp, yt tn) (tn, error) }
type initI interface {
	Init(shape []int) (tn, error)
}

func newEnv(role string, big bool) *env {
	e := &env{role: role, sh: map[string]tn{}, un: map[string]tn{}}
	e.idx = []tensor.Range{{From: 0, To: 2}, {From: 1, To: 3}}
	e.idx1 = []tensor.Range{{From: 1, To: 2}}
	e.shape6, e.shapeBr, e.at = []int{3, 2}, []int{2, 2, 3}, []int{1, 2}
	e.data2, e.data1 = [][]float64{{1, 2}, {3, 4}}, []float64{1, 2, 3}
	e.conf, e.tconf = &tensor.Config{Device: tensor.CPU}, &tensor.Config{Device: tensor.CPU, GradTrack: true}
	if role == "none" { // the library has not been used at all
		return e
	}
	unr := "leaf"
	if role == "uview" || role == "grad" {
		unr = role
	}
	for _, n := range names {
		if (n >= "a") == big {
			continue
		}
		e.sh[n] = inRole(role, n, &e.leafs)
		e.un[n] = inRole(unr, n, nil)
	}
	full := func(v float64) layers.Initializer {
		return initializers.NewFull(&initializers.FullConfig{Value: v})
	}
	e.fc = must(layers.NewFC(&layers.FCConfig{Inputs: 3, Outputs: 2, Initializers: map[string]layers.Initializer{"Weight": full(0.3), "Bias": full(-0.2)}}))
	e.leafs = append(e.leafs, e.fc.Weight, e.fc.Bias)
	e.acts = map[string]fwd{"Relu": activations.NewRelu(), "LeakyRelu": activations.NewLeakyRelu(nil), "Sigmoid": activations.NewSigmoid(), "Tanh": activations.NewTanh(), "Softmax0": must(activations.NewSoftmax(nil)), "Softmax1": must(activations.NewSoftmax(&activations.SoftmaxConfig{Dim: 1}))}
	e.loss = map[string]lossI{"MSE": losses.NewMSE(), "BCE": losses.NewBCE(), "CE": losses.NewCE()}
	e.inits = map[string]initI{"Full": full(1.5), "Uniform": must(initializers.NewUniform(nil)), "Normal": must(initializers.NewNormal(nil)), "HeUniform": must(initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: 3})), "HeNormal": must(initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: 3})),
		"XavierUniform": must(initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: 3, FanOut: 2})), "XavierNormal": must(initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: 3, FanOut: 2}))}
	e.input = layers.NewInput()
	if !big {
		e.input.SeedFunc = func() tn { return e.sh["a"] }
		e.list = []tn{e.sh["a"], e.sh["b"], e.sh["p"]}
	}
	return e
}

// obs is what a goroutine observed; res are result tensors kept for back-propagation after the goroutines ended.
type obs struct {
	b        strings.Builder
	res      []tn
	draws    []float64
	panicked any
}

// f notes a label (verbs are not interpreted) and values. fmt is not used: its pool would order the goroutines.
func (o *obs) f(label string, a ...any) {
	o.b.WriteString(label)
	for _, v := range a {
		o.b.WriteByte(' ')
		switch v := v.(type) {
		case nil:
			o.b.WriteString("nil")
		case error:
			o.b.WriteString(v.Error())
		case bool:
			o.b.WriteString(strconv.FormatBool(v))
		case int:
			o.b.WriteString(strconv.Itoa(v))
		case float64:
			o.num(v)
		case string:
			o.b.WriteString(v)
		case []int:
			o.ints(v)
		case []float64:
			for _, x := range v {
				o.num(x)
			}
		case [][]float64:
			for _, x := range v {
				o.f("", x)
			}
		case []tensor.Range:
			for _, x := range v {
				o.ints([]int{x.From, x.To})
			}
		default:
			panic("obs.f: unsupported type")
		}
	}
	o.b.WriteString("; ")
}

func (o *obs) ints(v []int) {
	o.b.WriteByte('[')
	for _, x := range v {
		o.b.WriteString(strconv.Itoa(x))
		o.b.WriteByte(' ')
	}
	o.b.WriteByte(']')
}

func (o *obs) num(v float64) {
	o.b.WriteString(strconv.FormatUint(math.Float64bits(v), 16))
	o.b.WriteByte(' ')
}

func (o *obs) tensor(x tn) {
	if x == nil {
		o.f("nil")
		return
	}
	s := x.Shape()
	o.ints(s)
	n := 1
	for _, d := range s {
		n *= d
	}
	idx := make([]int, len(s))
	for k := 0; k < n; k++ {
		v, err := x.At(idx...)
		if err != nil {
			o.f("At", err)
			return
		}
		o.num(v)
		for i := len(s) - 1; i >= 0; i-- {
			if idx[i]++; idx[i] < s[i] {
				break
			}
			idx[i] = 0
		}
	}
	o.b.WriteString("; ")
}

func (o *obs) result(x tn, err error) {
	if err != nil {
		o.f("error", err)
		return
	}
	o.tensor(x)
	if x.Gradient() != nil {
		o.f("has a gradient")
	}
	o.res = append(o.res, x)
}
