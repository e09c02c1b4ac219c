package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/optimizers"

	"verifmc/eng"
	"verifmc/ref"
)

// stage is one FC application followed by an activation.
type stage struct {
	fc  int
	act ref.Act
}

// trainCfg is a model with its data and learning rate.
type trainCfg struct {
	name   string
	widths [][2]int // per FC: inputs, outputs
	stages []stage
	loss   string
	lr     float64
	nilLR  bool
	batch  int
	ival   int // initial-value pattern
}

func (m *trainCfg) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "batch %d, ", m.batch)
	for _, s := range m.stages {
		fmt.Fprintf(&b, "FC%d%v>%s>", s.fc, m.widths[s.fc], actName(s.act))
	}
	fmt.Fprintf(&b, "%s, rate %v, init %d", m.loss, m.lr, m.ival)
	return b.String()
}

// param is one trainable tensor: its pointer, and everything remembered about it.
type param struct {
	name  string
	p     *tn
	v     ref.T // elements as of the last observation
	stale bool  // updated, but not reset
}

// old is a tensor of an earlier step: it and its gradient must never change again.
type old struct {
	name string
	t, g tn
	v, d ref.T
}

type train struct {
	c     *eng.C
	m     *trainCfg
	fcs   []*layers.FC
	acts  []fwd
	loss  lossI
	opt   *optimizers.SGD
	ps    []*param // W0 B0 W1 B1 ...
	olds  []old
	last  tn // loss of the previous step
	lastP []tn
	step  int
	steps int // completed updates
}

func newTrain(c *eng.C, m *trainCfg) *train {
	t := &train{c: c, m: m, loss: newLoss(m.loss)}
	for i, w := range m.widths {
		s := []int{w[1]}
		wv, bv := mixed(s, m.ival+3*i), generic(s, m.ival+i, -0.3, 0.4)
		if m.ival >= 10 { // equal initial values
			wv, bv = ref.Full(s, 0.4), ref.Full(s, 0.05)
		}
		if m.loss != "MSE" {
			wv = scaled(wv, 0.5)
		}
		fc := newFC(c, w[0], wv, bv, true, true)
		t.fcs = append(t.fcs, fc)
		pw, pb := params(c, fc)
		t.ps = append(t.ps, &param{name: fmt.Sprintf("W%d", i), p: pw, v: wv}, &param{name: fmt.Sprintf("B%d", i), p: pb, v: bv})
	}
	for _, s := range m.stages {
		if s.act.Kind == "Softmax" && s.act.Dim == 0 {
			a, err := activations.NewSoftmax(nil)
			must2(c, "NewSoftmax", err)
			t.acts = append(t.acts, a)
			continue
		}
		t.acts = append(t.acts, actLib(s.act))
	}
	if m.nilLR {
		t.opt = optimizers.NewSGD(nil)
	} else {
		t.opt = newSGD(m.lr)
	}
	return t
}

// data of mini-batch k.
func (t *train) data(k int) (x, y ref.T) {
	b := t.m.batch
	if k%3 == 1 {
		b++
	}
	d := t.m.widths[0][0]
	o := t.m.widths[t.m.stages[len(t.m.stages)-1].fc][1]
	x = mixed([]int{b, d}, k%5)
	y = generic([]int{b, o}, 3*(k%5), -0.2, 1.2)
	if t.m.loss == "CE" { // rows of a distribution, one of them one-hot
		for i := 0; i < b; i++ {
			s := 0.0
			for j := 0; j < o; j++ {
				y.V[i*o+j] = math.Abs(y.V[i*o+j])
				if i == 0 {
					y.V[i*o+j] = 0
					if j == k%o {
						y.V[i*o+j] = 1
					}
				}
				s += y.V[i*o+j]
			}
			for j := 0; j < o; j++ {
				y.V[i*o+j] /= s
			}
		}
	}
	return
}

// forward builds the loss in the library.
func (t *train) forward(xv, yv ref.T, trackX bool) (x, l tn) {
	c := t.c
	x = mk(c, xv, trackX)
	h := x
	var err error
	for i, s := range t.m.stages {
		h, err = t.fcs[s.fc].Forward(h)
		must(c, "FC.Forward", h, err)
		h, err = t.acts[i].Forward(h)
		must(c, actName(s.act), h, err)
	}
	y := mk(c, yv, false)
	if t.m.loss != "CE" {
		if yv.S[1] == 1 && t.step%2 == 0 {
			h, err = h.Squeeze(1)
		} else {
			h, err = h.Flatten(0)
		}
		must(c, "flattening", h, err)
		y = mk(c, ref.T{S: []int{len(yv.V)}, V: yv.V}, false)
	}
	l, err = t.loss.Compute(h, y)
	must(c, t.m.loss+".Compute", l, err)
	return
}

// refStep is the reference: loss and its derivative for the current parameters. ok is false near kinks.
func (t *train) refStep(xv, yv ref.T) (loss, lmag float64, g, mag [][]float64, gx, mx []float64, ok bool) {
	ok = true
	ins, pres := []ref.T{}, []ref.T{}
	h := xv
	hm := absV(xv.V)
	for _, s := range t.m.stages {
		w, b := t.ps[2*s.fc].v, t.ps[2*s.fc+1].v
		ins = append(ins, h)
		z, zm := ref.FC(h, w, b)
		pres = append(pres, z)
		for i, v := range z.V {
			if s.act.Kind == "Relu" || s.act.Kind == "LeakyRelu" {
				if math.Abs(v) < 1e-7*(1+zm[i]+maxAbs(hm)) {
					ok = false
				}
			}
			if math.Abs(v) > 300 {
				ok = false
			}
		}
		h = s.act.Forward(z)
		hm = zm
	}
	p, y := h, yv
	if t.m.loss != "CE" {
		n := []int{len(h.V)}
		p, y = ref.T{S: n, V: h.V}, ref.T{S: n, V: yv.V}
	}
	if t.m.loss != "MSE" {
		for _, v := range p.V {
			if v != 0 && v > -1e-4 && v < 1e-4 || v > 1-1e-4 && v < 1+1e-4 && v != 1 {
				ok = false
			}
		}
	}
	loss, lmag = ref.Loss(t.m.loss, p, y)
	u, um, _ := ref.LossBack(t.m.loss, p, y)
	g, mag = make([][]float64, len(t.ps)), make([][]float64, len(t.ps))
	for i, q := range t.ps {
		g[i], mag[i] = make([]float64, len(q.v.V)), make([]float64, len(q.v.V))
	}
	for i := len(t.m.stages) - 1; i >= 0; i-- {
		s := t.m.stages[i]
		a, _, am := s.act.Back(pres[i], u, um)
		x, gw, gb, xm, mw, mb := ref.FCBack(ins[i], t.ps[2*s.fc].v, a, am)
		for k := range gw {
			g[2*s.fc][k] += gw[k]
			mag[2*s.fc][k] += mw[k]
			g[2*s.fc+1][k] += gb[k]
			mag[2*s.fc+1][k] += mb[k]
		}
		u, um = x, xm
	}
	for i := range mag {
		if !finite(g[i]) || maxAbs(mag[i]) > 1e8 {
			ok = false
		}
		if maxAbs(t.ps[i].v.V) > 1e6 {
			ok = false
		}
	}
	return loss, lmag, g, mag, u, um, ok
}

// an action of a training history.
type trainAct struct {
	name   string
	k      int  // data offset
	bp     bool // back-propagate
	update bool
	reset  int // mask of parameters reset afterwards (-1: all)
	trackX bool
	early  bool // reset before the update
	extra  int  // 1: a second forward pass that is never used, 2: back-propagate the previous loss again, 3: evaluate between back-propagation and update
	all    int  // 1: update everything first, then reset everything
}

var trainActs = []trainAct{
	{name: "step", bp: true, update: true, reset: -1},
	{name: "step with other batch", k: 1, bp: true, update: true, reset: -1, all: 1},
	{name: "evaluation", k: 2},
	{name: "gradient without update", bp: true, reset: -1},
	{name: "step, W0 not reset", bp: true, update: true, reset: -2},
	{name: "step, B0 not reset", bp: true, update: true, reset: -3, all: 1},
	{name: "step, nothing reset", bp: true, update: true, reset: 0},
	{name: "reset before update", bp: true, update: true, reset: -1, early: true},
	{name: "step with tracked input", bp: true, update: true, reset: -1, trackX: true},
	{name: "step with an unused second forward pass", bp: true, update: true, reset: -1, extra: 1},
	{name: "step after back-propagating the previous loss again", bp: true, update: true, reset: -1, extra: 2},
	{name: "step with an evaluation before the update", bp: true, update: true, reset: -1, extra: 3},
}

// do performs one action and checks it. It returns false when the reference is not differentiable there.
func (t *train) do(a trainAct) bool {
	c := t.c
	c.Beat()
	k := t.step + a.k
	t.step++
	what := fmt.Sprintf("action %d (%s)", t.step, a.name)
	c.Op("%s", what)
	for _, p := range t.ps {
		checkBits(c, what+": "+p.name+" before", *p.p, p.v)
	}
	xv, yv := t.data(k)
	loss, lmag, g, mag, gx, mx, ok := t.refStep(xv, yv)
	if !ok {
		return false
	}
	stale := false
	for _, p := range t.ps {
		stale = stale || p.stale
	}
	replaced := t.last != nil
	for i, q := range t.lastP {
		replaced = replaced && q != *t.ps[i].p
	}
	if a.extra == 2 && replaced { // (a parameter that was not replaced still belongs to the old graph)
		bp(c, "previous loss", t.last)
		if !stale {
			for _, p := range t.ps {
				if (*p.p).Gradient() != nil {
					c.Fail("%s: back-propagating the loss of an earlier step gave %s of this step a gradient", what, p.name)
				}
			}
		}
		t.olds = nil // those tensors took part once more
	}
	x, l := t.forward(xv, yv, a.trackX)
	if a.extra == 1 {
		t.forward(xv, yv, false)
	}
	if len(l.Shape()) != 0 {
		c.Fail("%s: loss has shape %v", what, l.Shape())
	}
	lv, err := l.At()
	must2(c, "At", err)
	if !eqF(lv, loss, lmag*1e3+1) {
		c.Fail("%s: loss is %v, expected %v", what, lv, loss)
	}
	if !a.bp {
		t.endStep(what)
		return true
	}
	bp(c, "loss", l)
	t.last, t.lastP = l, nil
	for _, p := range t.ps {
		t.lastP = append(t.lastP, *p.p)
	}
	if a.extra == 3 {
		t.forward(xv, yv, false)
	}
	if a.trackX && !stale {
		checkFlow(c, what+": input", x, xv.S, nil, gx, gx, addV(mx, 1e-3*(1+maxAbs(mx))))
	}
	reset := func(i int) {
		if a.reset < 0 && (a.reset == -1 || i != -a.reset-2) {
			(*t.ps[i].p).ResetGradContext(true)
			t.ps[i].stale = false
			if (*t.ps[i].p).Gradient() != nil {
				c.Fail("%s: %s has a gradient after ResetGradContext", what, t.ps[i].name)
			}
		}
	}
	for i, p := range t.ps {
		before := *p.p
		if a.early {
			before.ResetGradContext(true)
			p.stale = false
		}
		if !a.update {
			if !stale {
				t.checkGrad(what, p, before, g[i], mag[i])
			}
			reset(i)
			continue
		}
		gr := before.Gradient()
		err := t.opt.Update(p.p)
		switch {
		case a.early || p.stale:
			if err == nil {
				c.Fail("%s: Update of %s succeeded although it was %s", what, p.name, map[bool]string{true: "reset after back-propagation", false: "not reset after the previous update"}[a.early])
			}
			if *p.p != before {
				c.Fail("%s: rejected Update replaced %s", what, p.name)
			}
		case stale && err != nil:
			// another parameter of the graph was not reset: rejecting is right for all of them
			if *p.p != before {
				c.Fail("%s: rejected Update replaced %s", what, p.name)
			}
		default:
			if err != nil {
				c.Fail("%s: Update of %s failed: %v", what, p.name, err)
			}
			want := ref.New(p.v.S)
			m := make([]float64, len(want.V))
			for q := range want.V {
				want.V[q] = p.v.V[q] - t.m.lr*g[i][q]
				m[q] = math.Abs(t.m.lr)*(mag[i][q]+1e-3*maxAbs(mag[i])) + 1e-3*math.Abs(p.v.V[q]) + 1e-6
			}
			checkT(c, fmt.Sprintf("%s: updated %s", what, p.name), *p.p, want, m)
			t.olds = append(t.olds, old{fmt.Sprintf("%s of %s", p.name, what), before, gr, p.v, get(c, "gradient", gr)})
			p.v = get(c, p.name, *p.p)
			p.stale = true
			t.steps++
		}
		if a.all == 0 {
			reset(i)
		}
	}
	if a.all != 0 {
		for i := range t.ps {
			reset(i)
		}
	}
	t.endStep(what)
	return true
}

func (t *train) checkGrad(what string, p *param, w tn, g, mag []float64) {
	checkFlow(t.c, what+": gradient of "+p.name, w, p.v.S, nil, g, g, addV(mag, 1e-3*(1+maxAbs(mag))))
}

// endStep: values as expected, and nothing of earlier steps changed.
func (t *train) endStep(what string) {
	c := t.c
	h := eng.NewHasher()
	for i, p := range t.ps {
		checkBits(c, what+": "+p.name+" after", *p.p, p.v)
		f := t.fcs[i/2]
		if i%2 == 0 && f.Weight != *p.p || i%2 == 1 && f.Bias != *p.p {
			c.Fail("%s: %s is not the layer's parameter any more", what, p.name)
		}
		h.Floats(p.v.V)
		if p.stale {
			h.I(1)
		}
	}
	c.State(h.Sum())
	for _, o := range t.olds {
		if o.t.Gradient() != o.g {
			c.Fail("%s: the gradient of %s was replaced in a later step", what, o.name)
		}
		checkBits(c, what+": "+o.name, o.t, o.v)
		checkBits(c, what+": gradient of "+o.name, o.g, o.d)
	}
	if len(t.olds) > 24 {
		t.olds = t.olds[len(t.olds)-24:]
	}
	c.Validated()
}

func (t *train) run(h []trainAct) {
	for i, a := range h {
		if !t.do(a) {
			t.c.Outcome(fmt.Sprintf("stopped near a kink after %d actions", min(i, 3)))
			return
		}
	}
	t.c.Outcome("complete")
}

func trainActsOut(o int) []ref.Act {
	return []ref.Act{{Kind: "Relu"}, {Kind: "LeakyRelu", M: 0.1}, {Kind: "Sigmoid"}, {Kind: "Tanh"}, {Kind: "Softmax", Dim: 1}, {Kind: "Softmax", Dim: 0}, {Kind: "Identity"}}
}

func runC11(w *eng.W) {
	norm := []trainAct{trainActs[0], trainActs[1], trainActs[0], trainActs[0], trainActs[1]}
	rates := []float64{0.01, 0.1, 1, -0.5, 0}
	var all []*trainCfg
	n := w.Pick(3, 4)
	for b := 1; b <= n; b++ {
		for d := 1; d <= n; d++ {
			for o := 1; o <= n; o++ {
				for _, a := range trainActsOut(o) {
					for _, l := range lossKinds {
						for ri, lr := range rates {
							for _, iv := range []int{0, 1, 10} {
								if iv == 10 && ri != 1 {
									continue
								}
								all = append(all, &trainCfg{widths: [][2]int{{d, o}}, stages: []stage{{0, a}}, loss: l, lr: lr, nilLR: ri == 0, batch: b, ival: iv})
							}
						}
					}
				}
			}
		}
	}
	w.Section("one layer: all sizes, activations, losses, rates")
	group(w, all, func(c *eng.C, m *trainCfg) {
		newTrain(c, m).run(norm)
		// one deviating action at every position
		if m.lr == 0.1 {
			for pos := 0; pos < 3; pos++ {
				for _, a := range trainActs[2:] {
					h := append([]trainAct{}, norm...)
					h[pos] = a
					newTrain(c, m).run(h)
				}
			}
		}
	})
	// two layers, tied layers
	var two []*trainCfg
	for b := 1; b <= 2; b++ {
		for d := 1; d <= n; d++ {
			for h := 1; h <= n; h++ {
				for o := 1; o <= n; o++ {
					for _, a := range trainActsOut(h) {
						for _, a2 := range trainActsOut(o) {
							for li, l := range lossKinds {
								if !w.Thorough() && (b+d+h+o+li+len(a.Kind)+len(a2.Kind))%4 != 0 {
									continue
								}
								two = append(two, &trainCfg{widths: [][2]int{{d, h}, {h, o}}, stages: []stage{{0, a}, {1, a2}}, loss: l, lr: 0.2, batch: b, ival: h})
								if d == h && h == o {
									two = append(two, &trainCfg{widths: [][2]int{{d, d}}, stages: []stage{{0, a}, {0, a2}}, loss: l, lr: 0.2, batch: b, ival: h})
								}
							}
						}
					}
				}
			}
		}
	}
	w.Section("two layers and one layer applied twice")
	group(w, two, func(c *eng.C, m *trainCfg) {
		newTrain(c, m).run(norm)
		newTrain(c, m).run([]trainAct{trainActs[0], trainActs[4], trainActs[0], trainActs[10], trainActs[1]})
		newTrain(c, m).run([]trainAct{trainActs[5], trainActs[0], trainActs[8], trainActs[3], trainActs[0]})
	})
	// three layers
	var three []*trainCfg
	for _, a := range trainActsOut(2) {
		for _, a2 := range trainActsOut(2) {
			for _, l := range lossKinds {
				three = append(three, &trainCfg{widths: [][2]int{{2, 3}, {3, 2}, {2, 2}}, stages: []stage{{0, a}, {1, a2}, {2, ref.Act{Kind: "Sigmoid"}}, {2, ref.Act{Kind: "Tanh"}}}, loss: l, lr: 0.3, batch: 2, ival: 1})
			}
		}
	}
	w.Section("three layers, the last applied twice")
	group(w, three, func(c *eng.C, m *trainCfg) { newTrain(c, m).run(append(norm, trainActs...)) })
	w.Section("long runs")
	long := w.Pick(1500, 12000)
	var runs []*trainCfg
	for _, a := range trainActsOut(2) {
		for _, l := range lossKinds {
			runs = append(runs, &trainCfg{widths: [][2]int{{2, 2}}, stages: []stage{{0, a}}, loss: l, lr: 0.05, batch: 2, ival: 1},
				&trainCfg{widths: [][2]int{{2, 3}, {3, 2}}, stages: []stage{{0, ref.Act{Kind: "Tanh"}}, {1, a}}, loss: l, lr: 0.05, batch: 3, ival: 2})
		}
	}
	for _, m := range runs {
		w.Case(func() string { return m.String() }, func(c *eng.C) {
			t := newTrain(c, m)
			for i := 0; i < long; i++ {
				if !t.do(trainActs[i%2]) {
					c.Outcome("long run ended near a kink")
					return
				}
			}
			c.Outcome("long run")
		})
	}
	w.Section("every history of training actions")
	depth := w.Pick(4, 5)
	cfgs := []*trainCfg{
		{widths: [][2]int{{2, 2}}, stages: []stage{{0, ref.Act{Kind: "Tanh"}}}, loss: "MSE", lr: 0.1, batch: 2, ival: 1},
		{widths: [][2]int{{1, 2}}, stages: []stage{{0, ref.Act{Kind: "Softmax", Dim: 1}}}, loss: "CE", lr: 0.2, batch: 1, ival: 1},
		{widths: [][2]int{{2, 1}}, stages: []stage{{0, ref.Act{Kind: "Sigmoid"}}}, loss: "BCE", lr: 0.2, batch: 2, ival: 1},
		{widths: [][2]int{{2, 2}, {2, 1}}, stages: []stage{{0, ref.Act{Kind: "LeakyRelu", M: 0.1}}, {1, ref.Act{Kind: "Sigmoid"}}}, loss: "BCE", lr: 0.2, batch: 1, ival: 1},
	}
	for _, m := range cfgs {
		for i := range trainActs {
			for j := range trainActs {
				w.Case(func() string {
					return fmt.Sprintf("%v: %s; %s; + every %d actions", m, trainActs[i].name, trainActs[j].name, depth-2)
				}, func(c *eng.C) {
					tuples(len(trainActs), depth-2, func(q []int) bool {
						h := []trainAct{trainActs[i], trainActs[j]}
						for _, k := range q {
							h = append(h, trainActs[k])
						}
						newTrain(c, m).run(h)
						return true
					})
				})
			}
		}
	}
}

// group runs several configurations per case.
func group(w *eng.W, ms []*trainCfg, f func(c *eng.C, m *trainCfg)) {
	for _, m := range ms {
		w.Case(func() string { return m.String() }, func(c *eng.C) { f(c, m) })
	}
}

func init() {
	register(&eng.Check{ID: "C11", Run: runC11,
		Bounds: func(tier string) string {
			th := tier == "thorough"
			return fmt.Sprintf("FC -> activation -> loss for every batch, input and output width in 1..%d, 7 activations, 3 losses, 5 rates (nil, 0.1, 1, -0.5, 0), 3 initial values: 5 steps over mini-batches of two sizes, and every deviating action (12 kinds: evaluation, gradient without update, omitted resets, reset too early, tracked input, unused graphs, old losses back-propagated again) at every of 3 positions; two layers / one layer applied twice (%s), three layers; %d-step runs; every history of %d actions out of %d for 4 models",
				map[bool]int{false: 3, true: 4}[th], map[bool]string{false: "a quarter of the combinations, selected by a fixed rule", true: "all combinations"}[th], map[bool]int{false: 1500, true: 12000}[th], map[bool]int{false: 4, true: 5}[th], len(trainActs))
		},
		Assumptions: []string{"the derivative is evaluated at the library's own current weights (bit-equal to the previous step's result); histories stop where a pre-activation lies within 1e-7 of a kink or a clipped prediction within 1e-4 of a bound", "when one parameter was not reset, Update may also reject the other parameters of that graph"}})
}
