package main

import (
	"fmt"
	"slices"
	"sort"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// letter is one thing a goroutine can do.
type letter struct {
	name string
	run  func(e *env, o *obs)
	big  bool                          // uses the large tensors
	bp   bool                          // back-propagates a graph of its own
	rng  bool                          // draws random numbers
	bare bool                          // needs no shared tensors or components
	rev  bool                          // an operation on the same operands in another order
	vals func(e *env, vals *[]float64) // rng: the draws
}

// op is a tensor operation: operand names and what to do.
type op struct {
	name string
	in   string
	f    func(e *env, t []tn) (tn, error)
	nobp bool
}

func lift(f func(x tn) tn) func(*env, []tn) (tn, error) {
	return func(_ *env, t []tn) (tn, error) { return f(t[0]), nil }
}

func bin(f func(x, y tn) (tn, error)) func(*env, []tn) (tn, error) {
	return func(_ *env, t []tn) (tn, error) { return f(t[0], t[1]) }
}

func one(f func(x tn) (tn, error)) func(*env, []tn) (tn, error) {
	return func(_ *env, t []tn) (tn, error) { return f(t[0]) }
}

func opsFor(big bool) (r []op) {
	A, B := "a", "b"
	if big {
		A, B = "B", "C"
	}
	un := []struct {
		n string
		f func(x tn) tn
	}{{"Exp", tn.Exp}, {"Log", tn.Log}, {"Sin", tn.Sin}, {"Cos", tn.Cos}, {"Tan", tn.Tan}, {"Sinh", tn.Sinh}, {"Cosh", tn.Cosh}, {"Tanh", tn.Tanh},
		{"Scale", func(x tn) tn { return x.Scale(-1.5) }}, {"Pow2", func(x tn) tn { return x.Pow(2) }}, {"Pow0", func(x tn) tn { return x.Pow(0) }}, {"Pow-1", func(x tn) tn { return x.Pow(-1) }}}
	for _, u := range un {
		r = append(r, op{u.n, A, lift(u.f), false})
	}
	bi := []struct {
		n  string
		f  func(x, y tn) (tn, error)
		no bool
	}{{"Add", tn.Add, false}, {"Sub", tn.Sub, false}, {"Mul", tn.Mul, false}, {"Div", tn.Div, false}, {"ElMax", tn.ElMax, false}, {"ElMin", tn.ElMin, false}, {"Dot", tn.Dot, false},
		{"Eq", tn.Eq, true}, {"Ne", tn.Ne, true}, {"Gt", tn.Gt, true}, {"Ge", tn.Ge, true}, {"Lt", tn.Lt, true}, {"Le", tn.Le, true}}
	for _, b := range bi {
		r = append(r, op{b.n, A + B, bin(b.f), b.no})
	}
	along := []struct {
		n string
		f func(x tn, d int) (tn, error)
	}{{"Sum", tn.SumAlong}, {"Max", tn.MaxAlong}, {"Min", tn.MinAlong}, {"Avg", tn.AvgAlong}, {"Var", tn.VarAlong}, {"Std", tn.StdAlong}, {"Mean", tn.MeanAlong}}
	for _, a := range along {
		for d := 0; d < 2; d++ {
			if d == 0 && !big && a.n != "Sum" && a.n != "Max" && a.n != "Var" {
				continue
			}
			r = append(r, op{fmt.Sprintf("%sAlong%d", a.n, d), A, one(func(x tn) (tn, error) { return a.f(x, d) }), false})
		}
	}
	r = append(r, op{"Transpose", A, one(tn.Transpose), false})
	if big {
		r = append(r,
			op{"MatMul", "BM", bin(tn.MatMul), false},
			op{"Dot1", "VW", bin(tn.Dot), false},
			op{"Reshape", A, one(func(x tn) (tn, error) { return x.Reshape([]int{40, 33}) }), false},
			op{"Flatten", A, one(func(x tn) (tn, error) { return x.Flatten(0) }), false},
			op{"Slice", A, one(func(x tn) (tn, error) { return x.Slice([]tensor.Range{{From: 1, To: 30}}) }), false},
			op{"Patch", A + B, bin(func(x, y tn) (tn, error) { return x.Patch(nil, y) }), false},
			op{"Concat", A + B, bin(func(x, y tn) (tn, error) { return tensor.Concat([]tn{x, y}, 1) }), false},
			op{"Broadcast", "V", one(func(x tn) (tn, error) { return x.Broadcast([]int{2, 1200}) }), false})
		return
	}
	for _, b := range bi[:4] {
		r = append(r, op{b.n + "-row", "av", bin(b.f), false}, op{b.n + "-scalar", "sa", bin(b.f), false}, op{b.n + "-rowcol", "rc", bin(b.f), false}, op{b.n + "-batch", "ta", bin(b.f), false})
	}
	r = append(r,
		op{"Dot1", "vw", bin(tn.Dot), false}, op{"Dot-batch", "tv", bin(tn.Dot), false},
		op{"MatMul", "am", bin(tn.MatMul), false}, op{"MatMul-batch", "tm", bin(tn.MatMul), false}, op{"MatMul-batch2", "tu", bin(tn.MatMul), false}, op{"MatMul-batch3", "ku", bin(tn.MatMul), false},
		op{"Reshape", "a", func(e *env, t []tn) (tn, error) { return t[0].Reshape(e.shape6) }, false},
		op{"UnSqueeze", "a", one(func(x tn) (tn, error) { return x.UnSqueeze(1) }), false},
		op{"Squeeze", "r", one(func(x tn) (tn, error) { return x.Squeeze(0) }), false},
		op{"Flatten", "t", one(func(x tn) (tn, error) { return x.Flatten(1) }), false},
		op{"Broadcast", "r", func(e *env, t []tn) (tn, error) { return t[0].Broadcast(e.shapeBr) }, false},
		op{"BroadcastSame", "a", one(func(x tn) (tn, error) { return x.Broadcast([]int{2, 3}) }), false},
		op{"Slice", "a", func(e *env, t []tn) (tn, error) { return t[0].Slice(e.idx) }, false},
		op{"SliceNil", "a", one(func(x tn) (tn, error) { return x.Slice(nil) }), false},
		op{"SliceRow", "a", func(e *env, t []tn) (tn, error) { return t[0].Slice(e.idx1) }, false},
		op{"Patch", "ar", func(e *env, t []tn) (tn, error) { return t[0].Patch(e.idx1, t[1]) }, false},
		op{"PatchNil", "ab", bin(func(x, y tn) (tn, error) { return x.Patch(nil, y) }), false},
		op{"Concat0", "ab", bin(func(x, y tn) (tn, error) { return tensor.Concat([]tn{x, y}, 0) }), false},
		op{"Concat1", "abc", func(_ *env, t []tn) (tn, error) { return tensor.Concat(t, 1) }, false},
		op{"MSE", "ab", func(e *env, t []tn) (tn, error) { return e.loss["MSE"].Compute(flat(t[0]), flat(t[1])) }, false},
		op{"BCE", "qz", func(e *env, t []tn) (tn, error) { return e.loss["BCE"].Compute(t[0], t[1]) }, false},
		op{"CE", "py", func(e *env, t []tn) (tn, error) { return e.loss["CE"].Compute(t[0], t[1]) }, false},
		op{"FC", "a", func(e *env, t []tn) (tn, error) { return e.fc.Forward(t[0]) }, true},
	)
	for _, n := range []string{"Relu", "LeakyRelu", "Sigmoid", "Tanh", "Softmax0", "Softmax1"} {
		r = append(r, op{"act" + n, "a", func(e *env, t []tn) (tn, error) { return e.acts[n].Forward(t[0]) }, false})
	}
	return
}

// reversed: the operands in the opposite order, where the operation accepts it.
func reversed(in string) string {
	switch in {
	case "ab", "vw", "av", "sa", "rc", "ta", "am", "tv", "qz", "py", "abc":
		r := []byte(in)
		slices.Reverse(r)
		return string(r)
	}
	return ""
}

func flat(x tn) tn { return must(x.Flatten(0)) }

func letters() map[string]*letter {
	ls := map[string]*letter{}
	add := func(l *letter) {
		if ls[l.name] != nil {
			panic(l.name)
		}
		ls[l.name] = l
	}
	for _, big := range []bool{false, true} {
		for _, p := range opsFor(big) {
			pre := ""
			if big {
				pre = "big"
			}
			add(&letter{name: pre + p.name, big: big, run: func(e *env, o *obs) {
				var t []tn
				for _, n := range p.in {
					t = append(t, e.sh[string(n)])
				}
				o.result(p.f(e, t))
			}})
			if len(p.in) == 2 && p.in[0] != p.in[1] && !big && (p.in == "ab" || p.in == "vw") {
				add(&letter{name: p.name + "-self", run: func(e *env, o *obs) {
					x := e.sh[p.in[:1]]
					o.result(p.f(e, []tn{x, x}))
				}})
			}
			if other := reversed(p.in); other != "" && !big {
				add(&letter{name: p.name + "~" + other, rev: true, run: func(e *env, o *obs) {
					var t []tn
					for _, n := range other {
						t = append(t, e.sh[string(n)])
					}
					o.result(p.f(e, t))
				}})
				if p.name == "Add" || p.name == "Mul" {
					add(&letter{name: p.name + "~bv", rev: true, run: func(e *env, o *obs) { o.result(p.f(e, []tn{e.sh["b"], e.sh["v"]})) }})
				}
			}
			if p.nobp {
				continue
			}
			for k := range p.in {
				add(&letter{name: fmt.Sprintf("bp%d-%s%s", k, pre, p.name), big: big, bp: true, run: func(e *env, o *obs) {
					var t []tn
					for i, n := range p.in {
						if i == k {
							t = append(t, leaf(string(n), true))
						} else {
							t = append(t, e.un[string(n)])
						}
					}
					y, err := p.f(e, t)
					o.result(y, err)
					o.res = nil
					if err == nil {
						if err := tensor.BackPropagate(y); err != nil {
							o.f("BackPropagate", err)
						}
						o.tensor(t[k].Gradient())
					}
				}})
			}
		}
	}
	red := []struct {
		n string
		f func(x tn) float64
	}{{"Sum", tn.Sum}, {"Max", tn.Max}, {"Min", tn.Min}, {"Avg", tn.Avg}, {"Var", tn.Var}, {"Std", tn.Std}, {"Mean", tn.Mean}}
	for _, r := range red {
		add(&letter{name: r.n, run: func(e *env, o *obs) { o.num(r.f(e.sh["a"])) }})
		add(&letter{name: "big" + r.n, big: true, run: func(e *env, o *obs) { o.num(r.f(e.sh["B"])) }})
	}
	L := func(name string, f func(e *env, o *obs)) { add(&letter{name: name, run: f}) }
	L("Read", func(e *env, o *obs) {
		x := e.sh["a"]
		o.tensor(x)
		o.f("", x.NElems(), x.Gradient() == nil)
		s := x.Shape()
		s[0] = 9 // the caller's copy
		o.f("", x.Shape())
	})
	L("At", func(e *env, o *obs) {
		v, err := e.sh["a"].At(e.at...)
		o.f("", v, err)
	})
	L("Equals", func(e *env, o *obs) {
		q, err := e.sh["a"].Equals(e.sh["b"])
		q2, err2 := e.sh["a"].Equals(e.sh["a"])
		o.f("", q, err, q2, err2)
	})
	L("Gradient", func(e *env, o *obs) {
		g := e.sh["a"].Gradient()
		o.f("", g == nil)
		if g != nil {
			o.result(g, nil)
			o.result(g.Scale(2), nil)
			o.result(g.Add(e.sh["b"]))
		}
	})
	L("ConcatShared", func(e *env, o *obs) { o.result(tensor.Concat(e.list, 1)) })
	L("errors", func(e *env, o *obs) {
		a := e.sh["a"]
		er := func(_ any, err error) { o.f("", err) }
		er(a.At(5, 5))
		er(a.At(1))
		er(a.Add(e.sh["m"]))
		er(a.Dot(e.sh["m"]))
		er(a.MatMul(e.sh["a"]))
		er(a.Reshape([]int{7}))
		er(a.Squeeze(0))
		er(a.UnSqueeze(9))
		er(a.Flatten(9))
		er(a.Broadcast([]int{3, 3}))
		er(a.Slice([]tensor.Range{{From: 5, To: 9}}))
		er(a.Patch(nil, e.sh["m"]))
		er(a.SumAlong(4))
		er(a.Eq(e.sh["v"]))
		er(a.Equals(e.sh["v"]))
		er(tensor.Concat([]tn{a, e.sh["m"]}, 0))
		er(e.loss["CE"].Compute(a, e.sh["v"]))
		er(e.fc.Forward(e.sh["t"]))
		er(e.acts["Relu"].Forward())
	})
	// further rejected calls, in groups
	E := func(name string, f func(e *env, er func(any, error))) {
		add(&letter{name: "errors~" + name, rev: true, run: func(e *env, o *obs) { f(e, func(_ any, err error) { o.f("", err) }) }})
	}
	E("shape", func(e *env, er func(any, error)) {
		v, a := e.sh["v"], e.sh["a"]
		er(v.Transpose())
		er(v.Squeeze(-1))
		er(v.UnSqueeze(-1))
		er(v.Flatten(-1))
		er(a.Squeeze(5))
		er(a.Reshape([]int{0}))
		er(a.Reshape([]int{-6}))
		er(a.Broadcast([]int{3}))
		er(a.Broadcast([]int{0, 3}))
		er(e.sh["s"].Transpose())
	})
	E("index", func(e *env, er func(any, error)) {
		v, a := e.sh["v"], e.sh["a"]
		er(a.At(-1, 0))
		er(a.At())
		er(a.Slice([]tensor.Range{{From: 1, To: 1}}))
		er(a.Slice([]tensor.Range{{From: -1, To: 1}}))
		er(a.Slice(make([]tensor.Range, 3)))
		er(a.Patch(e.idx, v))
		er(a.Patch(e.idx1, a))
		er(a.Patch(e.idx1, nil))
		er(tensor.Concat(nil, 0))
		er(tensor.Concat([]tn{a, nil}, 0))
		er(tensor.Concat([]tn{a, v}, 0))
		er(tensor.Concat([]tn{a, a}, 2))
	})
	E("binary", func(e *env, er func(any, error)) {
		v, a, m := e.sh["v"], e.sh["a"], e.sh["m"]
		for _, f := range []func(x, y tn) (tn, error){tn.Add, tn.Sub, tn.Mul, tn.Div, tn.ElMax, tn.ElMin, tn.Dot, tn.MatMul, tn.Eq, tn.Ne, tn.Gt, tn.Ge, tn.Lt, tn.Le} {
			er(f(a, m))
			er(f(v, nil))
		}
		er(v.MatMul(v))
		er(e.sh["s"].Dot(e.sh["s"]))
		er(a.Equals(nil))
	})
	E("along", func(e *env, er func(any, error)) {
		a := e.sh["a"]
		for _, f := range []func(x tn, d int) (tn, error){tn.SumAlong, tn.MaxAlong, tn.MinAlong, tn.AvgAlong, tn.VarAlong, tn.StdAlong, tn.MeanAlong} {
			er(f(a, 2))
			er(f(a, -1))
		}
	})
	E("constructors", func(e *env, er func(any, error)) {
		er(tensor.Full([]int{0}, 1, e.conf))
		er(tensor.Zeros([]int{2, -1}, e.conf))
		er(tensor.Ones([]int{0}, e.tconf))
		er(tensor.Eye(0, nil))
		er(tensor.RandU([]int{2}, 1, 1, nil))
		er(tensor.RandN([]int{2}, 0, -1, nil))
		er(tensor.RandN([]int{0}, 0, 1, nil))
		er(tensor.TensorOf([][]float64{{1}, {2, 3}}, nil))
		er(tensor.TensorOf([]float64{}, nil))
		er(tensor.TensorOf([]float64{1}, &tensor.Config{Device: 99}))
	})
	E("components", func(e *env, er func(any, error)) {
		a, v := e.sh["a"], e.sh["v"]
		for _, l := range []string{"MSE", "BCE", "CE"} {
			er(e.loss[l].Compute(a, v))
			er(e.loss[l].Compute(nil, v))
			er(e.loss[l].Compute(e.sh["t"], e.sh["t"]))
		}
		for _, n := range []string{"Relu", "LeakyRelu", "Sigmoid", "Tanh", "Softmax0", "Softmax1"} {
			er(e.acts[n].Forward(nil))
			er(e.acts[n].Forward(a, a))
		}
		er(e.acts["Softmax1"].Forward(v))
		er(e.fc.Forward())
		er(e.fc.Forward(nil))
		er(e.fc.Forward(v))
		er(layers.NewFC(nil))
		er(layers.NewFC(&layers.FCConfig{Inputs: 0, Outputs: 1}))
		er(activations.NewSoftmax(&activations.SoftmaxConfig{Dim: -1}))
		er(initializers.NewUniform(&initializers.UniformConfig{Lower: 1, Upper: 0}))
		er(initializers.NewNormal(&initializers.NormalConfig{StdDev: -1}))
		er(initializers.NewHeUniform(nil))
		er(initializers.NewXavierNormal(&initializers.XavierNormalConfig{}))
		er(nil, optimizers.NewSGD(nil).Update(nil))
		acc := metrics.NewAccuracy()
		er(nil, acc.Accumulate(a, a))
		er(nil, acc.Accumulate(nil, v))
	})
	L("Input", func(e *env, o *obs) { o.result(e.input.Forward()) })
	// letters that need nothing shared but arguments: they also run before the library has been used at all
	N := func(name string, f func(e *env, o *obs)) { add(&letter{name: name, run: f, bare: true}) }
	N("Zeros", func(e *env, o *obs) { o.result(tensor.Zeros(e.shape6, e.conf)) })
	N("Ones", func(e *env, o *obs) { o.result(tensor.Ones(e.shape6, e.tconf)) })
	N("Full", func(e *env, o *obs) { o.result(tensor.Full(e.shape6, 2.5, e.conf)) })
	N("Eye", func(e *env, o *obs) { o.result(tensor.Eye(3, e.tconf)) })
	N("TensorOf2", func(e *env, o *obs) { o.result(tensor.TensorOf(e.data2, e.tconf)) })
	N("TensorOf1", func(e *env, o *obs) { o.result(tensor.TensorOf(e.data1, e.conf)) })
	N("TensorOf0", func(e *env, o *obs) { o.result(tensor.TensorOf(3.5, nil)) })
	N("constructors", func(e *env, o *obs) {
		o.result(tensor.Zeros(e.shape6, e.conf))
		o.result(tensor.Ones(e.shape6, e.tconf))
		o.result(tensor.Full(e.shape6, 2.5, e.conf))
		o.result(tensor.Eye(3, e.tconf))
		o.result(tensor.TensorOf(e.data2, e.tconf))
		o.result(tensor.TensorOf(e.data1, e.conf))
		o.result(tensor.TensorOf(3.5, nil))
	})
	N("all", func(e *env, o *obs) { // a small training step from nothing
		fc, err := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 1, Initializers: map[string]layers.Initializer{"Weight": initializers.NewFull(nil), "Bias": initializers.NewFull(nil)}})
		o.f("", err)
		x := must(tensor.TensorOf(e.data2, e.conf))
		h, err := fc.Forward(x)
		o.result(h, err)
		h, err = activations.NewSigmoid().Forward(h)
		o.result(h, err)
		h, err = losses.NewMSE().Compute(flat(h), must(tensor.Full([]int{2}, 0.5, nil)))
		o.result(h, err)
		o.res = nil
		o.f("", tensor.BackPropagate(h))
		sgd := optimizers.NewSGD(nil)
		for _, w := range fc.Weights() {
			o.tensor((*w.Value).Gradient())
			o.f("", sgd.Update(w.Value))
			o.tensor(*w.Value)
		}
	})
	L("objects", func(e *env, o *obs) {
		// building components concurrently
		fc, err := layers.NewFC(&layers.FCConfig{Inputs: 3, Outputs: 1, Initializers: map[string]layers.Initializer{"Weight": initializers.NewFull(nil), "Bias": initializers.NewFull(nil)}})
		o.f("", err)
		o.result(fc.Forward(e.un["a"]))
		o.f("", len(fc.Weights()))
		o.result(losses.NewMSE().Compute(e.un["v"], e.un["w"]))
	})
	L("InitFull", func(e *env, o *obs) { o.result(e.inits["Full"].Init(e.shape6)) })
	L("Weights", func(e *env, o *obs) {
		for _, w := range e.fc.Weights() {
			o.result(*w.Value, nil)
		}
	})
	L("network", func(e *env, o *obs) {
		h, err := e.fc.Forward(e.sh["a"])
		o.result(h, err)
		h, err = e.acts["Tanh"].Forward(h)
		o.result(h, err)
		h, err = e.acts["Softmax1"].Forward(h)
		o.result(h, err)
		h, err = e.loss["CE"].Compute(h, must(e.un["y"].Slice([]tensor.Range{{}, {From: 0, To: 2}})))
		o.result(h, err)
		o.res = o.res[len(o.res)-1:]
	})
	L("chain", func(e *env, o *obs) {
		x, err := e.sh["a"].Add(e.sh["b"])
		o.result(x, err)
		x = x.Exp().Scale(0.1)
		x, err = x.MatMul(e.sh["m"])
		o.result(x, err)
		x, err = x.Sub(e.sh["c"])
		o.result(x, err)
		x, err = x.SumAlong(1)
		o.result(x, err)
		o.res = o.res[len(o.res)-1:]
	})
	L("metric", func(e *env, o *obs) {
		m := metrics.NewAccuracy()
		err := m.Accumulate(e.sh["p"], e.sh["y"])
		err2 := m.Accumulate(e.sh["y"], e.sh["y"])
		v, err3 := m.Result()
		o.f("", err, err2, v, err3)
	})
	add(&letter{name: "train", bp: true, run: func(e *env, o *obs) {
		full := func(v float64) layers.Initializer { return initializers.NewFull(&initializers.FullConfig{Value: v}) }
		fc := must(layers.NewFC(&layers.FCConfig{Inputs: 3, Outputs: 2, Initializers: map[string]layers.Initializer{"Weight": full(0.2), "Bias": full(0.1)}}))
		sgd := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 0.5})
		loss := losses.NewMSE()
		for i := 0; i < 2; i++ {
			h, err := fc.Forward(e.un["a"])
			o.f("", err)
			h, err = e.acts["Sigmoid"].Forward(h)
			o.f("", err)
			h, err = loss.Compute(flat(h), e.un["q"])
			o.result(h, err)
			o.res = nil
			if err == nil {
				o.f("", tensor.BackPropagate(h))
			}
			for _, w := range fc.Weights() {
				o.tensor((*w.Value).Gradient())
				o.f("", sgd.Update(w.Value))
				o.tensor(*w.Value)
				(*w.Value).ResetGradContext(true)
			}
		}
	}})
	add(&letter{name: "graph", bp: true, run: func(e *env, o *obs) {
		x, y := leaf("a", true), leaf("b", true)
		h, err := x.Mul(e.un["b"])
		o.result(h, err)
		k, err := h.Add(y)
		o.result(k, err)
		k, err = k.Mul(h)
		o.result(k, err)
		k, err = k.Sub(e.un["v"])
		o.result(k, err)
		k, err = k.MaxAlong(1)
		o.result(k, err)
		o.res = nil
		o.f("", tensor.BackPropagate(k))
		o.tensor(x.Gradient())
		o.tensor(y.Gradient())
		o.f("", e.un["b"].Gradient() == nil)
		x.ResetGradContext(true)
		z := x.Exp()
		o.f("", tensor.BackPropagate(z))
		o.tensor(x.Gradient())
		w := x.Gradient().Scale(2)
		o.result(w, nil)
		o.res = nil
	}})
	rng := func(name string, n int, bare bool, f func(e *env) (tn, error)) {
		v := func(e *env, vals *[]float64) {
			for k := 0; k < n; k++ {
				x, err := f(e)
				if err != nil {
					panic(err)
				}
				s := x.Shape()
				if len(s) != 1 {
					panic("wrong shape")
				}
				for i := 0; i < s[0]; i++ {
					*vals = append(*vals, must(x.At(i)))
				}
			}
		}
		add(&letter{name: name, rng: true, bare: bare, vals: v, run: func(e *env, o *obs) {
			var q []float64
			v(e, &q)
			o.f(" draws", len(q))
		}})
	}
	rng("RandU", 1, true, func(e *env) (tn, error) { return tensor.RandU([]int{2}, -1, 3, e.conf) })
	rng("RandN", 1, true, func(e *env) (tn, error) { return tensor.RandN([]int{2}, 2, 0.5, e.tconf) })
	rng("RandU2", 2, true, func(e *env) (tn, error) { return tensor.RandU([]int{1}, 0, 1, e.conf) })
	for _, n := range []string{"Uniform", "Normal", "HeUniform", "HeNormal", "XavierUniform", "XavierNormal"} {
		rng("Init"+n, 1, false, func(e *env) (tn, error) { return e.inits[n].Init([]int{2}) })
	}
	N("NewFCdefault", func(e *env, o *obs) { // draws its weights
		fc, err := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 1})
		o.f("", err, fc.Weight.Shape())
	})
	return ls
}

func letterNames(ls map[string]*letter) (r []string) {
	for n := range ls {
		r = append(r, n)
	}
	sort.Strings(r)
	return
}
