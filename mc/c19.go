package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() { checks["C19"] = c19 }

// asm is the reference state of a model being assembled.
type asm struct {
	net      *ref.Net
	opt      *ref.Opt
	acc      int
	prec     float64
	finished bool // Finalize succeeded at least once
	lossSize int
	current  bool // and no layer was added since
}

func (a *asm) in() int {
	if len(a.net.Layers) == 0 {
		return 0
	}
	return a.net.Layers[0].In
}

func (a *asm) out() int {
	if k := len(a.net.Layers); k > 0 {
		return a.net.Layers[k-1].Out
	}
	return 0
}

// aop is one call of the assembly interface.
type aop struct {
	name string
	run  func(c *core.C, h *MH, a *asm)
}

// snap is what a refused call must leave alone.
type snap struct {
	size, in, out int
	lt            nn.LossType
	at            nn.AccuracyType
	prec          float64
	ot            nn.OptimizerType
	vals          map[string]float64
	layers        []nn.Layer
	nOpts         int
	loss          nn.Loss
	params        [][]float64
}

func takeSnap(h *MH) snap {
	m := &h.Mod
	s := snap{size: m.ModelSize, in: m.InputSize, out: m.OutputSize, lt: m.LossType, at: m.AccuracyType, prec: m.AccuracyPercision,
		ot: m.OptimizerType, nOpts: len(m.Optimizers), loss: m.Loss, params: h.params()}
	s.layers = append(s.layers, m.Layers...)
	for k, v := range m.OptimizerValues {
		if s.vals == nil {
			s.vals = map[string]float64{}
		}
		s.vals[k] = v
	}
	return s
}

func (s snap) diff(t snap) string {
	if s.size != t.size || s.in != t.in || s.out != t.out {
		return fmt.Sprintf("reported sizes %d,%d,%d became %d,%d,%d", s.size, s.in, s.out, t.size, t.in, t.out)
	}
	if s.lt != t.lt || s.loss != t.loss {
		return "the loss was changed"
	}
	if s.at != t.at || s.prec != t.prec {
		return fmt.Sprintf("accuracy mode/precision %v/%v became %v/%v", s.at, s.prec, t.at, t.prec)
	}
	if s.ot != t.ot || s.nOpts != t.nOpts || (len(s.vals)+len(t.vals) > 0 && !reflect.DeepEqual(s.vals, t.vals)) {
		return "the optimizer was changed"
	}
	if len(s.layers) != len(t.layers) {
		return fmt.Sprintf("%d layers became %d", len(s.layers), len(t.layers))
	}
	for i := range s.layers {
		if s.layers[i] != t.layers[i] {
			return fmt.Sprintf("layer %d was replaced", i)
		}
	}
	if !sameParams(s.params, t.params) {
		return "parameters were changed"
	}
	return ""
}

// refused checks an error and its lack of effect.
func refused(c *core.C, what string, err error, h *MH, before snap) {
	if err == nil {
		c.Failf("%s succeeded, it must be refused", what)
	}
	if d := before.diff(takeSnap(h)); d != "" {
		c.Failf("%s was refused (%v), but %s", what, err, d)
	}
}

func accepted(c *core.C, what string, err error) {
	if err != nil {
		c.Failf("%s was refused: %v", what, err)
	}
}

func addOp(kind, in, out int) aop {
	return aop{fmt.Sprintf("add %s %dx%d", ref.KindName[kind], in, out), func(c *core.C, h *MH, a *asm) {
		rl := refLayer(kind, in, out, len(a.net.Layers)*7+kind)
		rl.Rate = 0
		lh := fromRef(rl)
		before := takeSnap(h)
		err := h.Mod.AddLayer(lh.L)
		if len(a.net.Layers) > 0 && a.out() != in {
			refused(c, "AddLayer", err, h, before)
			return
		}
		accepted(c, "AddLayer", err)
		a.net.Layers = append(a.net.Layers, rl)
		h.Layers = append(h.Layers, lh)
		a.current = false
	}}
}

func finOp(loss, size, optKind, acc int, prec float64) aop {
	o := sgd(0.1, 0.1, 0.9)
	if optKind == 1 {
		o = adam(0.05, 0.1)
	}
	return aop{fmt.Sprintf("finish with %s size %d, optimizer %d, mode %d, precision %v", ref.LossName[loss], size, optKind, acc, prec), func(c *core.C, h *MH, a *asm) {
		before := takeSnap(h)
		err := h.Mod.Finalize(mustLoss(loss, size), mustOpt(o), nn.AccuracyType(acc), prec)
		if size != a.out() || prec < 0 {
			refused(c, "Finalize", err, h, before)
			return
		}
		accepted(c, "Finalize", err)
		a.net.Loss, a.opt, a.acc, a.prec, a.finished, a.current, a.lossSize = loss, o, acc, prec, true, true, size
		a.net.SetOpt(o)
	}}
}

func dataFor(rows, in, out, loss int) (M, M) { return genM(rows, in, 3), labels(loss, rows, out, 5) }

// fits says whether data of these sizes fits the model.
func fitOp(in, out, rowsX, rowsY, batch int) aop {
	return aop{fmt.Sprintf("Fit %dx%d -> %dx%d batch %d", rowsX, in, rowsY, out, batch), func(c *core.C, h *MH, a *asm) {
		x, _ := dataFor(rowsX, in, out, a.net.Loss)
		_, y := dataFor(rowsY, in, out, a.net.Loss)
		X, Y := mat(x), mat(y)
		before := takeSnap(h)
		err := h.Mod.Fit(X, Y, 1, batch, nn.Matrix{}, nn.Matrix{}, 0)
		untouched(c, "X", X, x)
		untouched(c, "Y", Y, y)
		if !a.current || in != a.in() || out != a.out() || rowsX != rowsY || batch < 0 {
			refused(c, "Fit", err, h, before)
			return
		}
		accepted(c, "Fit", err)
		a.net.Fit(x, y, 1, batch)
	}}
}

func lossOp(in, out int) aop {
	return aop{fmt.Sprintf("CalculateLoss %d -> %d", in, out), func(c *core.C, h *MH, a *asm) {
		x, y := dataFor(2, in, out, a.net.Loss)
		before := takeSnap(h)
		v, err := h.Mod.CalculateLoss(mat(x), mat(y))
		if !a.finished || in != a.in() || out != a.out() || a.lossSize != a.out() {
			refused(c, "CalculateLoss", err, h, before)
			return
		}
		if err != nil {
			if a.current {
				accepted(c, "CalculateLoss", err)
			}
			return // a model changed after finishing: refusing is as good
		}
		if w := ref.Loss(a.net.Loss, a.net.Predict(x), y); !core.Close(v, w, 1e-6) {
			c.Failf("CalculateLoss gives %v, want %v", v, w)
		}
	}}
}

func scoreOp(in, out int) aop {
	return aop{fmt.Sprintf("CalculateAccuracy %d -> %d", in, out), func(c *core.C, h *MH, a *asm) {
		x, y := dataFor(2, in, out, a.net.Loss)
		before := takeSnap(h)
		v, err := h.Mod.CalculateAccuracy(mat(x), mat(y))
		if len(a.net.Layers) == 0 {
			return // nothing to be accurate
		}
		if in != a.in() || out != a.out() {
			refused(c, "CalculateAccuracy", err, h, before)
			return
		}
		if !a.current {
			return // no accuracy mode was agreed on for this model
		}
		accepted(c, "CalculateAccuracy", err)
		if w := ref.Accuracy(a.acc, a.net.Predict(x), y, a.prec); v != w {
			c.Failf("CalculateAccuracy gives %v, want %v", v, w)
		}
	}}
}

func predOp(in int) aop {
	return aop{fmt.Sprintf("Predict %d", in), func(c *core.C, h *MH, a *asm) {
		x := genM(2, in, 3)
		before := takeSnap(h)
		p, err := h.Mod.Predict(mat(x))
		if len(a.net.Layers) == 0 {
			return
		}
		if in != a.in() {
			refused(c, "Predict", err, h, before)
			return
		}
		if a.current {
			accepted(c, "Predict", err)
			wantM(c, "prediction", p, ref.Answer(a.acc, a.net.Predict(x)), 1e-7)
		}
	}}
}

func passOp(in, out int) aop {
	return aop{fmt.Sprintf("Forward+Backward %d -> %d", in, out), func(c *core.C, h *MH, a *asm) {
		x, y := dataFor(2, in, out, a.net.Loss)
		before := takeSnap(h)
		outs, err := h.Mod.Forward(mat(x), true)
		if len(a.net.Layers) > 0 {
			if in != a.in() {
				refused(c, "Forward", err, h, before)
				return
			}
			accepted(c, "Forward", err)
			for i, w := range a.net.Forward(x, nil) {
				wantM(c, fmt.Sprintf("output %d", i), outs[i], w, 1e-7)
			}
		}
		gs, err := h.Mod.Backward(outs, mat(y))
		if !a.finished || out != a.out() || a.lossSize != a.out() || len(a.net.Layers) == 0 {
			refused(c, "Backward", err, h, before)
			return
		}
		if !a.current {
			return
		}
		accepted(c, "Backward", err)
		if len(gs) != len(a.net.Layers) {
			c.Failf("Backward gives %d gradients for %d layers", len(gs), len(a.net.Layers))
		}
		for k, w := range a.net.Backward(a.net.Forward(x, nil), y, nil, 0) {
			g := gs[len(gs)-1-k]
			wantM(c, fmt.Sprintf("weight gradient of layer %d", k), g.DWeights, w.W, 1e-6)
			wantM(c, fmt.Sprintf("bias gradient of layer %d", k), g.DBiases, M{w.B}, 1e-6)
		}
		// outputs that are not those of a forward pass of this model
		b2 := takeSnap(h)
		for _, o := range [][]nn.Matrix{nil, outs[:len(outs)-1], append(append([]nn.Matrix{}, outs...), outs[0])} {
			_, err := h.Mod.Backward(o, mat(y))
			refused(c, fmt.Sprintf("Backward with %d outputs for %d layers", len(o), len(a.net.Layers)), err, h, b2)
		}
	}}
}

func initOp() aop {
	return aop{"InitLayers", func(c *core.C, h *MH, a *asm) {
		old := h.params()
		h.Mod.InitLayers()
		for i, l := range a.net.Layers {
			w, b := h.Layers[i].params(c)
			for k := range b {
				if !core.Bits(b[k], old[i][l.In*l.Out+k]) {
					c.Failf("InitLayers changed a bias")
				}
			}
			for j := range w {
				for k := range w[j] {
					if core.Bits(w[j][k], old[i][j*l.Out+k]) || math.IsNaN(w[j][k]) {
						c.Failf("InitLayers left weight [%d][%d] of layer %d at %v", j, k, i, w[j][k])
					}
				}
			}
			// the reference carries on from the drawn weights
			l.W, l.B = w, b
		}
	}}
}

func runAsm(c *core.C, ops []aop, w []int) {
	c.Trace()
	h, a := &MH{Mod: nn.NewModel()}, &asm{net: &ref.Net{}}
	for step, k := range w {
		func() {
			defer func() {
				if p := recover(); p != nil {
					if strings.Contains(fmt.Sprintf("%T", p), "failure") {
						panic(p)
					}
					c.Failf("step %d (%s) panics: %v", step, ops[k].name, p)
				}
			}()
			ops[k].run(c, h, a)
		}()
		c.Step(1)
		m := &h.Mod
		if m.ModelSize != len(a.net.Layers) || len(m.Layers) != len(a.net.Layers) || m.InputSize != a.in() || m.OutputSize != a.out() {
			c.Failf("after step %d (%s) the model reports %d layers (holds %d), input size %d, output size %d; it has %d, %d, %d",
				step, ops[k].name, m.ModelSize, len(m.Layers), m.InputSize, m.OutputSize, len(a.net.Layers), a.in(), a.out())
		}
		for i, l := range h.Layers {
			if m.Layers[i] != l.L {
				c.Failf("after step %d (%s) layer %d is not the one added", step, ops[k].name, i)
			}
		}
		wantParams(c, fmt.Sprintf("after step %d (%s)", step, ops[k].name), h, a.net, 1e-6)
		hh := core.Hash(a.finished, a.current, a.lossSize, a.acc, a.prec, a.net.Loss, netName(a.net))
		for _, p := range netParams(a.net) {
			hh = core.HashF(hh, p...)
		}
		c.State(hh)
	}
}

func c19(r *core.Run) {
	r.Rule = "cases: every history up to a depth over add/finish/train/evaluate/initialise calls with fitting and non-fitting sizes (one alphabet with all calls and few sizes, one with many layer and loss sizes, one with training and refinishing only); layers used several times, sizes far apart, models of hundreds of layers, training at any stage of assembly, two models assembled in turn, one or two calls repeated over a thousand times; a reference state machine says which call must be refused, and after every call the reported sizes, layers and parameters are compared, after a refused one everything visible; states are distinct (assembly state, parameters)"
	r.Assume("predicting with or scoring an empty model, and evaluating a model changed since it was finished where the sizes happen to fit, are not specified (a panic is still a violation)")
	all := []aop{
		addOp(ref.Sigmoid, 1, 2), addOp(ref.Linear, 2, 1), addOp(ref.Softmax, 2, 2), addOp(ref.Hidden, 1, 1),
		finOp(ref.MSE, 1, 0, 0, 0.1), finOp(ref.CE, 2, 1, 1, 0), finOp(ref.MSE, 2, 0, 0, -0.5), finOp(ref.BCE, 1, 1, 2, math.Inf(1)),
		fitOp(1, 2, 3, 3, 2), fitOp(1, 1, 2, 2, 0), fitOp(2, 2, 2, 2, 1), fitOp(1, 2, 2, 3, 0), fitOp(1, 1, 2, 2, -1),
		lossOp(1, 2), lossOp(1, 1), scoreOp(1, 2), scoreOp(2, 2), predOp(1), predOp(2), passOp(1, 2), passOp(2, 1), initOp(),
	}
	run := func(group string, ops []aop, lo, hi int) {
		words(len(ops), lo, hi, func(w []int) {
			w = cp(w)
			r.Case(group, func() string {
				var s []string
				for _, k := range w {
					s = append(s, ops[k].name)
				}
				return strings.Join(s, "; ")
			}, func(c *core.C) { runAsm(c, ops, w) })
		})
	}
	run("all calls", all, 1, pick(r.Max, 6, pick(r.Thorough, 5, 4)))
	// assembling: all sizes and kinds
	var sizes []aop
	for i := 1; i <= 3; i++ {
		for o := 1; o <= 3; o++ {
			sizes = append(sizes, addOp((i*3+o)%6, i, o))
		}
	}
	for s := 1; s <= 3; s++ {
		sizes = append(sizes, finOp(s%2, s, s%2, 0, 0.1), finOp(s%2, s, s%2, 0, -1))
	}
	run("sizes", sizes, 1, pick(r.Max, 6, pick(r.Thorough, 5, 4)))
	// training, changing and finishing again, deeper
	deep := []aop{addOp(ref.Sigmoid, 2, 2), addOp(ref.Softmax, 2, 2), finOp(ref.CE, 2, 0, 1, 0.1), finOp(ref.MSE, 2, 1, 0, 0.1), fitOp(2, 2, 3, 3, 2), finOp(ref.MSE, 3, 1, 0, 0.1), passOp(2, 2)}
	run("refinishing", deep, 5, pick(r.Max, 8, pick(r.Thorough, 7, 6)))
	// two models assembled in turn
	two := []aop{addOp(ref.Sigmoid, 1, 1), addOp(ref.Linear, 1, 2), finOp(ref.MSE, 1, 0, 0, 0.1), fitOp(1, 1, 2, 2, 1)}
	words(2*len(two), 2, pick(r.Max, 7, pick(r.Thorough, 6, 4)), func(w []int) {
		w = cp(w)
		r.Case("two models", func() string {
			var s []string
			for _, k := range w {
				s = append(s, fmt.Sprintf("model %d: %s", k%2, two[k/2].name))
			}
			return strings.Join(s, "; ")
		}, func(c *core.C) {
			c.Trace()
			var hs [2]*MH
			var as [2]*asm
			for i := range hs {
				hs[i], as[i] = &MH{Mod: nn.NewModel()}, &asm{net: &ref.Net{}}
			}
			for step, k := range w {
				two[k/2].run(c, hs[k%2], as[k%2])
				c.Step(1)
				for i, h := range hs {
					m, a := &h.Mod, as[i]
					if m.ModelSize != len(a.net.Layers) || len(m.Layers) != len(a.net.Layers) || m.InputSize != a.in() || m.OutputSize != a.out() {
						c.Failf("after step %d model %d reports %d layers (holds %d), input size %d, output size %d; it has %d, %d, %d",
							step, i, m.ModelSize, len(m.Layers), m.InputSize, m.OutputSize, len(a.net.Layers), a.in(), a.out())
					}
					for j, l := range h.Layers {
						if m.Layers[j] != l.L {
							c.Failf("after step %d layer %d of model %d is not the one added", step, j, i)
						}
					}
					wantParams(c, fmt.Sprintf("after step %d, model %d", step, i), h, a.net, 1e-6)
				}
			}
			c.State(core.Hash("two", w))
		})
	})
	// a few calls over and over, on one model
	often := []aop{finOp(ref.MSE, 2, 0, 0, 100), finOp(ref.CE, 2, 1, 1, 0), finOp(ref.MSE, 3, 0, 0, 0.1), finOp(ref.MSE, 2, 1, 0, -0.1),
		addOp(ref.Linear, 1, 2), fitOp(2, 2, 3, 3, 2), fitOp(2, 1, 2, 2, 1), passOp(2, 2), passOp(1, 2), scoreOp(2, 2), lossOp(2, 2), predOp(2), predOp(1), initOp()}
	words(len(often), 1, pick(r.Max, 3, 2), func(w []int) {
		w = cp(w)
		var s []string
		for _, k := range w {
			s = append(s, often[k].name)
		}
		r.Case("over and over", func() string { return strings.Join(s, "; ") }, func(c *core.C) {
			c.Trace()
			h, a := &MH{Mod: nn.NewModel()}, &asm{net: &ref.Net{}}
			addOp(ref.Sigmoid, 2, 2).run(c, h, a)
			addOp(ref.Softmax, 2, 2).run(c, h, a)
			finOp(ref.MSE, 2, 0, 2, 0.2).run(c, h, a)
			for i := 0; i < pick(r.Max, 3000, 1100); i++ {
				for _, k := range w {
					often[k].run(c, h, a)
					c.Step(1)
				}
				wantParams(c, fmt.Sprintf("after repetition %d", i), h, a.net, 1e-6)
				if h.Mod.ModelSize != 2 || h.Mod.InputSize != 2 || h.Mod.OutputSize != 2 {
					c.Failf("after repetition %d the model reports %d layers, sizes %d and %d", i, h.Mod.ModelSize, h.Mod.InputSize, h.Mod.OutputSize)
				}
				if i%10 == 9 { // rounding does not add up
					for j, l := range a.net.Layers {
						l.W, l.B = h.Layers[j].params(c)
					}
				}
			}
			for _, o := range []aop{scoreOp(2, 2), predOp(2), lossOp(2, 2), passOp(2, 2), fitOp(2, 2, 3, 3, 2), finOp(ref.MSE, 2, 0, 0, 100), scoreOp(2, 2), finOp(ref.MSE, 2, 0, 0, 0), scoreOp(2, 2)} {
				o.run(c, h, a)
			}
			wantParams(c, "at the end", h, a.net, 1e-5)
			c.State(core.Hash("over", w))
		})
	})
	// sizes far apart, settings just out of range
	for _, s := range []int{1, 2, 3, 4} {
		for _, d := range []int{0, 1, 2, 8, 16, 64, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 65535, 65536} {
			s, d := s, d
			r.Case("sizes far apart", func() string { return fmt.Sprintf("%d and %d", s, s+d) }, func(c *core.C) {
				c.Trace()
				for _, k := range [][2]int{{s, s + d}, {s + d, s}} {
					// a layer, then one of another size
					h, a := &MH{Mod: nn.NewModel()}, &asm{net: &ref.Net{}}
					addOp(ref.Linear, 1, k[0]).run(c, h, a)
					addOp(ref.Sigmoid, k[1], 1).run(c, h, a)
					if d != 0 && len(a.net.Layers) != 1 {
						c.Failf("a layer of %d inputs was added after one of %d outputs", k[1], k[0])
					}
					finOp(ref.MSE, 1, 0, 0, 0.1).run(c, h, a)
					// a loss of another size
					h, a = &MH{Mod: nn.NewModel()}, &asm{net: &ref.Net{}}
					addOp(ref.Linear, 1, k[0]).run(c, h, a)
					finOp(ref.MSE, k[1], 0, 0, 0.1).run(c, h, a)
					finOp(ref.CE, k[0], 1, 1, 0).run(c, h, a)
					finOp(ref.BCE, k[1], 0, 2, 0.1).run(c, h, a)
					if d < 2000 {
						fitOp(1, k[1], 2, 2, 0).run(c, h, a)
						fitOp(1, k[0], 2, 2, 0).run(c, h, a)
						predOp(k[1]).run(c, h, a)
						lossOp(1, k[1]).run(c, h, a)
						scoreOp(1, k[1]).run(c, h, a)
					}
					c.Step(8)
				}
				c.State(core.Hash("apart", s, d))
			})
		}
	}
	for _, prec := range []float64{-5e-324, -1e-300, -1e-12, -1e-9, -1e-7, -0.1, -1, -1e300, math.Inf(-1), 0, math.Copysign(0, -1), 5e-324, 1e-12, 1, 1e300, math.Inf(1)} {
		for acc := 0; acc < 3; acc++ {
			for again := 0; again < 2; again++ {
				prec, acc, again := prec, acc, again
				r.Case("precisions", func() string { return fmt.Sprintf("%v mode %d, finished before %d", prec, acc, again) }, func(c *core.C) {
					c.Trace()
					h, a := &MH{Mod: nn.NewModel()}, &asm{net: &ref.Net{}}
					addOp(ref.Linear, 1, 2).run(c, h, a)
					if again == 1 {
						finOp(ref.CE, 2, 1, 1, 0.25).run(c, h, a)
					}
					finOp(ref.MSE, 2, 0, acc, prec).run(c, h, a)
					scoreOp(1, 2).run(c, h, a)
					fitOp(1, 2, 2, 2, 1).run(c, h, a)
					c.Step(4)
					c.State(core.Hash("prec", prec, acc, again))
				})
			}
		}
	}
	// the same layer several times: it shares its parameters with itself
	for n := 2; n <= 6; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			n, mask := n, mask
			r.Case("a layer used several times", func() string { return fmt.Sprintf("%d layers, of %b", n, mask) }, func(c *core.C) {
				c.Trace()
				two := []*ref.Layer{refLayer(ref.Sigmoid, 2, 2, 1), refLayer(ref.Linear, 2, 2, 2)}
				lhs := []*LH{fromRef(two[0]), fromRef(two[1])}
				h, net := &MH{Mod: nn.NewModel()}, &ref.Net{Loss: ref.MSE}
				for i := 0; i < n; i++ {
					k := mask >> i & 1
					accepted(c, "AddLayer", h.Mod.AddLayer(lhs[k].L))
					net.Layers = append(net.Layers, two[k])
					c.Step(1)
					if h.Mod.ModelSize != i+1 || len(h.Mod.Layers) != i+1 || h.Mod.Layers[i] != lhs[k].L {
						c.Failf("after adding %d layers the model reports %d and holds %d", i+1, h.Mod.ModelSize, len(h.Mod.Layers))
					}
				}
				accepted(c, "Finalize", h.Mod.Finalize(mustLoss(ref.MSE, 2), mustOpt(sgd(0.1, 0, 0)), 0, 0.1))
				x := genM(3, 2, 4)
				p, err := h.Mod.Predict(mat(x))
				accepted(c, "Predict", err)
				wantM(c, "prediction", p, net.Predict(x), 1e-9)
				c.Step(2)
				c.State(core.Hash("reused", n, mask))
			})
		}
	}
	// training of no epochs is refused where training is
	for state := 0; state < 4; state++ {
		for epochs := 0; epochs < 3; epochs++ {
			for _, every := range []int{0, 1} {
				state, epochs, every := state, epochs, every
				r.Case("training too early", func() string { return fmt.Sprintf("state %d, %d epochs, log %d", state, epochs, every) }, func(c *core.C) {
					c.Trace()
					h, a := &MH{Mod: nn.NewModel()}, &asm{net: &ref.Net{}}
					if state > 0 {
						addOp(ref.Linear, 1, 2).run(c, h, a)
					}
					if state > 1 {
						finOp(ref.MSE, 2, 0, 0, 0.1).run(c, h, a)
						addOp(ref.Linear, 2, 2).run(c, h, a)
					}
					if state > 2 {
						addOp(ref.Linear, 2, 2).run(c, h, a)
						addOp(ref.Linear, 2, 2).run(c, h, a)
					}
					before := takeSnap(h)
					err := h.Mod.Fit(mat(genM(2, 1, 1)), mat(genM(2, 2, 2)), epochs, 1, nn.Matrix{}, nn.Matrix{}, every)
					refused(c, "Fit of a model that is not finished", err, h, before)
					c.Step(1)
					c.State(core.Hash("early", state, epochs, every))
				})
			}
		}
	}
	// very long models
	for _, n := range []int{999, 1000, 1001, 1024, 1025, 4097, pick(r.Max, 70000, 10001)} {
		n := n
		r.Case("very long models", func() string { return fmt.Sprintf("%d layers", n) }, func(c *core.C) {
			c.Trace()
			m := nn.NewModel()
			sizes := func(i int) int { return 1 + i%2 }
			for i := 0; i < n; i++ {
				if i%500 == 7 || i == n-1 {
					l, _ := nn.NewLinearLayer(sizes(i)+2, 1)
					if err := m.AddLayer(&l); err == nil {
						c.Failf("layer %d with %d inputs is added after one with %d outputs", i, sizes(i)+2, sizes(i))
					}
				}
				l, _ := nn.NewLinearLayer(sizes(i), sizes(i+1))
				noErr(c, fmt.Sprintf("AddLayer %d", i), m.AddLayer(&l))
				if m.ModelSize != i+1 || len(m.Layers) != i+1 || m.InputSize != 1 || m.OutputSize != sizes(i+1) {
					c.Failf("after %d layers the model reports %d (holds %d), input size %d, output size %d", i+1, m.ModelSize, len(m.Layers), m.InputSize, m.OutputSize)
				}
				if m.Layers[i] != nn.Layer(&l) {
					c.Failf("layer %d of the model is not the one that was added", i)
				}
			}
			c.Step(n)
			if err := m.Finalize(mustLoss(ref.MSE, sizes(n)+1), mustOpt(sgd(0.1, 0, 0)), 0, 0); err == nil {
				c.Failf("finished with a loss of another size")
			}
			noErr(c, "Finalize", m.Finalize(mustLoss(ref.MSE, sizes(n)), mustOpt(sgd(0.1, 0, 0)), 0, 0))
			x, y := mat(genM(2, 1, 1)), mat(genM(2, sizes(n), 1))
			_, err := m.Predict(x)
			noErr(c, "Predict", err)
			noErr(c, "Fit", m.Fit(x, y, 1, 0, nn.Matrix{}, nn.Matrix{}, 0))
			c.State(core.Hash("verylong", n))
		})
	}
	// long models
	for n := 1; n <= 12; n++ {
		for at := 0; at <= n; at++ {
			n, at := n, at
			r.Case("long models", func() string { return fmt.Sprintf("%d layers, a wrong one offered before layer %d", n, at) }, func(c *core.C) {
				c.Trace()
				h, a := &MH{Mod: nn.NewModel()}, &asm{net: &ref.Net{}}
				for i := 0; i <= n; i++ {
					if i == at && i > 0 {
						for s := 1; s <= 5; s++ {
							if s != a.out() {
								addOp((i+s)%6, s, 3).run(c, h, a)
							}
						}
						finOp(ref.MSE, a.out()+1, 0, 0, 0.1).run(c, h, a)
					}
					if i < n {
						addOp(i%6, 1+i%3, 1+(i+1)%3).run(c, h, a)
					}
					c.Step(1)
				}
				if h.Mod.ModelSize != n || h.Mod.InputSize != 1 || h.Mod.OutputSize != 1+n%3 {
					c.Failf("%d layers, sizes %d, %d reported, want %d, 1, %d", h.Mod.ModelSize, h.Mod.InputSize, h.Mod.OutputSize, n, 1+n%3)
				}
				for s := 1; s <= 4; s++ {
					finOp(ref.MSE, s, n%2, 0, 0.1).run(c, h, a)
				}
				c.State(core.Hash("long", n, at))
			})
		}
	}
}
