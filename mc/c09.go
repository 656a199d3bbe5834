package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() { checks["C09"] = c09 }

// tame makes the outputs of the last layer lie well within (0,1).
func tame(n *ref.Net) {
	l := n.Layers[len(n.Layers)-1]
	if l.Kind == ref.Softmax || l.Kind == ref.Sigmoid {
		return
	}
	for i := range l.W {
		for j := range l.W[i] {
			l.W[i][j] *= 0.06
		}
	}
	for j := range l.B {
		l.B[j] = 0.4 + 0.05*float64(j)
		if l.Kind == ref.Dropout {
			l.B[j] = 0.3 + 0.03*float64(j)
		}
	}
}

// netMasks recovers the dropout factors of a training pass from its outputs.
func netMasks(n *ref.Net, outs []nn.Matrix) []M {
	masks := make([]M, len(n.Layers))
	for i, l := range n.Layers {
		if l.Kind == ref.Dropout {
			masks[i] = maskOf(l, val(outs[i]), outs[i+1])
		}
	}
	return masks
}

// dualNet differentiates the batch loss in every parameter.
func dualNet(n *ref.Net, x, y M, masks []M) []ref.Grad {
	total := 0
	for _, l := range n.Layers {
		total += l.In*l.Out + l.Out
	}
	next := 0
	v := ref.ConstM(x)
	for i, l := range n.Layers {
		w := ref.VarM(l.W, &next, total)
		b := ref.VarM(M{l.B}, &next, total)
		var m M
		if masks != nil {
			m = masks[i]
		}
		v = ref.ForwardD(l, v, w, b[0], m, 0)
	}
	s := ref.LossD(n.Loss, v, y)
	g := s.G
	if g == nil {
		g = make([]float64, total)
	}
	var out []ref.Grad
	k := 0
	for _, l := range n.Layers {
		w := ref.Zeros(l.In, l.Out)
		for i := range w {
			for j := range w[i] {
				w[i][j] = g[k]
				k++
			}
		}
		out = append(out, ref.Grad{W: w, B: append([]float64{}, g[k:k+l.Out]...)})
		k += l.Out
	}
	return out
}

// modelGrad runs forward and backward of the model and compares.
func modelGrad(c *core.C, h *MH, n *ref.Net, x, y M, training, dual bool) {
	// the caller's matrices have been used for another batch before
	X, Y := mat(ref.Map(x, func(v float64) float64 { return 0.25 - 0.5*v })), mat(y)
	if first, err := h.Mod.Forward(X, training); err == nil {
		gs, _ := h.Mod.Backward(first, Y)
		for _, g := range gs {
			scribble(g.DWeights)
			scribble(g.DBiases)
		}
		for _, o := range first[1:] {
			scribble(o)
		}
	}
	refill(X, x)
	outs, err := h.Mod.Forward(X, training)
	noErr(c, "Forward", err)
	if len(outs) != len(n.Layers)+1 {
		c.Failf("Forward returned %d matrices for %d layers", len(outs), len(n.Layers))
	}
	var masks []M
	if training {
		masks = netMasks(n, outs)
	}
	want := n.Forward(x, masks)
	for i := range want {
		wantM(c, fmt.Sprintf("output %d", i), outs[i], want[i], tolF)
	}
	keep := make([]M, len(outs))
	for i := range outs {
		keep[i] = val(outs[i])
	}
	for rep := 0; rep < 2; rep++ {
		gs, err := h.Mod.Backward(outs, Y)
		c.Step(1)
		noErr(c, "Backward", err)
		if len(gs) != len(n.Layers) {
			c.Failf("Backward returned %d gradients for %d layers", len(gs), len(n.Layers))
		}
		var ds []ref.Grad
		if dual {
			ds = dualNet(n, x, y, masks)
		} else {
			ds = n.Backward(want, y, masks, 0)
		}
		for i := range ds {
			g := gs[len(gs)-1-i]
			wantM(c, fmt.Sprintf("weight gradient of layer %d (call %d)", i, rep+1), g.DWeights, ds[i].W, 1e-10)
			wantM(c, fmt.Sprintf("bias gradient of layer %d (call %d)", i, rep+1), g.DBiases, M{ds[i].B}, 1e-10)
		}
		if rep == 0 && h.scribble {
			for _, g := range gs {
				scribble(g.DWeights)
				scribble(g.DBiases)
			}
		}
	}
	for i := range outs {
		untouched(c, fmt.Sprintf("output %d", i), outs[i], keep[i])
	}
	untouched(c, "X", X, x)
	untouched(c, "Y", Y, y)
	if !sameParams(h.params(), netParams(n)) {
		c.Failf("forward/backward changed the parameters")
	}
}

func c09(r *core.Run) {
	r.Rule = "cases: every sequence of up to 3 (thorough 4) layer kinds x every loss x batch sizes 1-3 x training/inference forward pass, against dual-number differentiation of the whole model; structured inputs, labels and parameters (28 patterns) and very small scales, a sweep of widths, output sizes and batch sizes, models of up to 48 layers; every history of passes over different batches, parameter changes and finishing again with another loss up to a depth, what earlier calls returned staying as it was, and thousands of passes through one model; the fused softmax/cross-entropy shortcut against the two separate passes; states are distinct (model, batch, history)"
	r.Assume("predictions of cross-entropy losses lie strictly between 1e-7 and 1-1e-7, pre-activations and absolute errors are not exactly 0 (differentiable points)")
	for loss := 0; loss < ref.NLosses; loss++ {
		loss := loss
		words(len(kindMain), 1, pick(r.Max, 5, pick(r.Thorough, 4, 3)), func(w []int) {
			w = cp(w)
			for _, rows := range []int{1, 2, 3} {
				for _, tr := range []bool{true, false} {
					rows, tr := rows, tr
					if len(w) == 3 && !r.Thorough && (rows == 1) {
						continue
					}
					if len(w) == 4 && rows != 2 {
						continue
					}
					r.Case("models", func() string { return fmt.Sprintf("%s kinds %v rows %d training %v", ref.LossName[loss], w, rows, tr) }, func(c *core.C) {
						c.State(core.Hash("model", loss, w, rows, tr))
						c.Trace()
						n := seqNet(w, loss, 2, 3, 11)
						if loss >= ref.CE {
							tame(n)
						}
						h := buildModel(n, sgd(0.1, 0, 0), 0, 0.1)
						h.scribble = rows == 2
						if rows == 2 && loss >= ref.CE && n.Layers[len(w)-1].Kind == ref.Dropout && tr {
							// a dropped output is a prediction of 0: outside the differentiable range
							tr = false
						}
						if loss >= ref.CE && n.Layers[len(w)-1].Kind == ref.Dropout {
							modelGrad(c, h, n, genM(rows, 2, 3), labels(loss, rows, 3, 1), false, true)
							return
						}
						modelGrad(c, h, n, genM(rows, 2, 3), labels(loss, rows, 3, 1), tr, true)
					})
				}
			}
		})
	}
	// widths and batch sizes
	for _, s := range append(sizesUpTo(pick(r.Max, 140, pick(r.Thorough, 70, 20))), 31, 32, 33, 63, 64, 65, 100, 127, 128, 129) {
		for ni := range []int{0, 1, 2, 3} {
			s, ni := s, ni
			r.Case("sizes", func() string { return fmt.Sprintf("size %d model %d", s, ni) }, func(c *core.C) {
				c.State(core.Hash("size", s, ni))
				c.Trace()
				L := refLayer
				mk := func(in, mid, out int) *ref.Net {
					switch ni {
					case 0:
						return &ref.Net{Loss: ref.CE, Layers: []*ref.Layer{L(ref.Hidden, in, mid, 1), L(ref.Softmax, mid, out, 2)}}
					case 1:
						return &ref.Net{Loss: ref.BCE, Layers: []*ref.Layer{L(ref.Leaky, in, mid, 1), L(ref.Sigmoid, mid, out, 2)}}
					case 2:
						return &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{L(ref.Dropout, in, mid, 1), L(ref.Linear, mid, out, 2)}}
					}
					return &ref.Net{Loss: ref.MAE, Layers: []*ref.Layer{L(ref.Softmax, in, mid, 1), L(ref.Linear, mid, out, 2)}}
				}
				for _, q := range [][4]int{{s, 2, 2, 2}, {2, s, 2, 2}, {2, 2, s, 2}, {2, 3, 2, s}} {
					n := mk(q[0], q[1], q[2])
					shrink(n)
					modelGrad(c, buildModel(n, sgd(0.1, 0, 0), 0, 0.1), n, genM(q[3], q[0], 3), labels(n.Loss, q[3], q[2], 1), true, false)
				}
			})
		}
	}
	for _, s := range []int{32769, 65537, 70000} {
		for ni := 0; ni < 4; ni++ {
			s, ni := s, ni
			r.Case("very large", func() string { return fmt.Sprintf("size %d model %d", s, ni) }, func(c *core.C) {
				c.State(core.Hash("huge", s, ni))
				c.Trace()
				n := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{refLayer(ref.Hidden, 2, 2, 1), refLayer(ref.Linear, 2, 1, 2)}}
				rows := 2
				switch ni {
				case 0: // batch
					rows = s
				case 1: // inputs
					n.Layers[0] = refLayer(ref.Sigmoid, s, 2, 1)
				case 2: // in between
					n.Layers[0], n.Layers[1] = refLayer(ref.Leaky, 2, s, 1), refLayer(ref.Linear, s, 1, 2)
				case 3: // outputs
					n.Loss, n.Layers[1] = ref.CE, refLayer(ref.Softmax, 2, s, 2)
				}
				shrink(n)
				out := n.Layers[1].Out
				modelGrad(c, buildModel(n, sgd(0.1, 0, 0), 0, 0.1), n, genM(rows, n.Layers[0].In, 3), labels(n.Loss, rows, out, 1), true, false)
			})
		}
	}
	structured09(r)
	// other output sizes and label patterns, for every kind of last layer
	for loss := 0; loss < ref.NLosses; loss++ {
		for last := range kindMain {
			for out := 1; out <= 4; out++ {
				for prev := -1; prev < len(kindMain); prev++ {
					for lab := 0; lab < 5; lab++ {
						loss, last, out, prev, lab := loss, last, out, prev, lab
						r.Case("output sizes", func() string {
							return fmt.Sprintf("%s kinds %d %d, %d outputs, labels %d", ref.LossName[loss], prev, last, out, lab)
						}, func(c *core.C) {
							c.State(core.Hash("out", loss, last, out, prev, lab))
							c.Trace()
							kinds := []int{last}
							if prev >= 0 {
								kinds = []int{prev, last}
							}
							n := seqNet(kinds, loss, 2, out, 7)
							for _, l := range n.Layers {
								l.Rate = 0
							}
							if loss >= ref.CE {
								tame(n)
							}
							y := labels(loss, 3, out, lab)
							if loss == ref.BCE {
								y = bitLabels(3, out, lab)
								if lab >= 3 {
									y = ref.Map(y, func(float64) float64 { return float64(lab - 3) })
								}
							}
							if loss == ref.CE && out == 1 && kindMain[last].kind == ref.Softmax {
								return // the only output is 1
							}
							if loss == ref.BCE && out == 1 && kindMain[last].kind == ref.Softmax {
								return
							}
							modelGrad(c, buildModel(n, sgd(0.1, 0, 0), 0, 0.1), n, genM(3, 2, 3+lab), y, lab%2 == 0, true)
						})
					}
				}
			}
		}
	}
	// deep models with gradients that grow or shrink on the way
	for depth := 2; depth <= pick(r.Max, 48, pick(r.Thorough, 24, 12)); depth++ {
		for _, f := range []float64{0.01, 0.5, 1, 3, 30} {
			for kind := range kindMain {
				depth, f, kind := depth, f, kind
				if k := kindMain[kind].kind; (k == ref.Sigmoid || k == ref.Softmax) && (f == 30 && depth > 3 || depth > 30) {
					continue // saturated: what is left of the gradient is rounding
				}
				r.Case("deep models", func() string { return fmt.Sprintf("%d layers, weights scaled %v, kind %v", depth, f, kindMain[kind]) }, func(c *core.C) {
					c.State(core.Hash("deep", depth, f, kind))
					c.Trace()
					n := &ref.Net{Loss: ref.MSE}
					for i := 0; i < depth; i++ {
						k := kindMain[kind]
						if i%2 == 1 {
							k = kindMain[1]
						}
						k.rate = 0
						l := k.layer(2, 2, i*5)
						l.W = ref.Map(l.W, func(v float64) float64 { return v * f })
						n.Layers = append(n.Layers, l)
					}
					x, y := genM(3, 2, 3), genM(3, 2, 4)
					h := buildModel(n, sgd(0.1, 0, 0), 0, 0.1)
					outs, err := h.Mod.Forward(mat(x), true)
					noErr(c, "Forward", err)
					gs, err := h.Mod.Backward(outs, mat(y))
					noErr(c, "Backward", err)
					c.Step(2)
					w := n.Forward(x, nil)
					for i := range w {
						wantM(c, fmt.Sprintf("output %d", i), outs[i], w[i], tolF)
					}
					for i, g := range n.Backward(w, y, nil, 0) {
						for _, p := range []struct {
							got  nn.Matrix
							want M
						}{{gs[depth-1-i].DWeights, g.W}, {gs[depth-1-i].DBiases, M{g.B}}} {
							top := 0.0
							for a := range p.want {
								for _, v := range p.want[a] {
									top = math.Max(top, math.Abs(v))
								}
							}
							// saturated sigmoids and softmaxes cancel
							tol := 1e-6
							if k := kindMain[kind].kind; (k == ref.Sigmoid || k == ref.Softmax) && f > 2 {
								tol = 1e-3
							}
							wantRel(c, fmt.Sprintf("gradient of layer %d", i), p.got, p.want, ref.Map(p.want, func(float64) float64 { return top + 1e-12 }), tol)
						}
					}
				})
			}
		}
	}
	// histories
	nets := []*ref.Net{
		{Loss: ref.CE, Layers: []*ref.Layer{refLayer(ref.Hidden, 2, 3, 1), refLayer(ref.Softmax, 3, 3, 2)}},
		{Loss: ref.MSE, Layers: []*ref.Layer{refLayer(ref.Leaky, 2, 3, 1), refLayer(ref.Softmax, 3, 2, 2), refLayer(ref.Linear, 2, 3, 3)}},
		{Loss: ref.BCE, Layers: []*ref.Layer{refLayer(ref.Dropout, 2, 3, 1), refLayer(ref.Sigmoid, 3, 3, 2)}},
		{Loss: ref.CE, Layers: []*ref.Layer{refLayer(ref.Sigmoid, 2, 3, 1), refLayer(ref.Sigmoid, 3, 3, 2)}},
	}
	for ni, n0 := range nets {
		ni, n0 := ni, n0
		words(8, 1, pick(r.Max, 6, pick(r.Thorough, 5, 4)), func(w []int) {
			w = cp(w)
			r.Case("histories", func() string {
				return fmt.Sprintf("%s ops %v (0-2 forward+backward with 1-3 rows, 3 forward pass only, 4 new parameters, 5 loss and accuracy, 6-7 finished again with another loss)", netName(n0), w)
			}, func(c *core.C) {
				c.Trace()
				n := n0.Clone()
				h := buildModel(n, sgd(0.1, 0, 0), 0, 0.1)
				h.scribble = true
				for step, op := range w {
					switch op {
					case 0, 1, 2:
						modelGrad(c, h, n, genM(op+1, 2, step+op), labels(n.Loss, op+1, 3, step), true, false)
					case 3:
						_, err := h.Mod.Forward(mat(genM(4, 2, 30)), true)
						noErr(c, "Forward", err)
					case 4:
						for i, l := range n.Layers {
							if step%2 == 1 { // a single weight of every layer
								l.W[1][1] += 0.5
								h.Layers[i].W().M[1][1] += 0.5
								continue
							}
							l.W, l.B = genM(l.In, l.Out, 50+step+i), genM(1, l.Out, 70+step+i)[0]
							h.Layers[i].set(l.W, l.B)
						}
					case 5:
						_, err := h.Mod.CalculateLoss(mat(genM(5, 2, 31)), mat(labels(n.Loss, 5, 3, 1)))
						noErr(c, "CalculateLoss", err)
						_, err = h.Mod.CalculateAccuracy(mat(genM(5, 2, 31)), mat(labels(n.Loss, 5, 3, 1)))
						noErr(c, "CalculateAccuracy", err)
					case 6, 7:
						k := ref.MSE
						if last := n.Layers[len(n.Layers)-1].Kind; last == ref.Softmax || last == ref.Sigmoid {
							k = pick(op == 6, ref.CE, ref.BCE)
							if n.Loss == k {
								k = ref.MSE
							}
						} else if op == 7 {
							k = ref.MAE
						}
						n.Loss = k
						noErr(c, "Finalize", h.Mod.Finalize(mustLoss(k, 3), mustOpt(sgd(0.1, 0, 0)), 0, 0.1))
					}
					c.State(core.Hash(ni, w[:step+1]))
				}
			})
		})
	}
	// what was returned earlier is the caller's
	for ni, n0 := range nets {
		ni, n0 := ni, n0
		words(7, 2, pick(r.Max, 6, pick(r.Thorough, 4, 3)), func(w []int) {
			w = cp(w)
			r.Case("results kept", func() string {
				return fmt.Sprintf("%s ops %v (0-1 forward+backward with 1-2 rows, 2 forward pass without training, 3 prediction and loss, 4 training, 5 finished again, 6 backward pass refused)", netName(n0), w)
			}, func(c *core.C) {
				c.Trace()
				n := n0.Clone()
				h := buildModel(n, sgd(0.01, 0, 0), ni%2, 0.1)
				var ms []nn.Matrix
				var was []M
				var what []string
				var heldO [][]nn.Matrix
				var copyO [][]nn.Matrix
				var heldG, copyG [][]nn.Gradients
				keep := func(s string, m nn.Matrix) {
					ms, was, what = append(ms, m), append(was, val(m)), append(what, s)
				}
				pass := func(step, rows int, training, back bool) {
					outs, err := h.Mod.Forward(mat(genM(rows, 2, step)), training)
					noErr(c, "Forward", err)
					heldO, copyO = append(heldO, outs), append(copyO, append([]nn.Matrix{}, outs...))
					for i, o := range outs {
						keep(fmt.Sprintf("output %d of step %d", i, step), o)
					}
					if !back {
						return
					}
					gs, err := h.Mod.Backward(outs, mat(labels(n.Loss, rows, 3, step)))
					noErr(c, "Backward", err)
					heldG, copyG = append(heldG, gs), append(copyG, append([]nn.Gradients{}, gs...))
					for i, g := range gs {
						keep(fmt.Sprintf("weight gradient %d of step %d", i, step), g.DWeights)
						keep(fmt.Sprintf("bias gradient %d of step %d", i, step), g.DBiases)
					}
				}
				for step, op := range w {
					x, y := mat(genM(2, 2, step+9)), mat(labels(n.Loss, 2, 3, step+9))
					switch op {
					case 0, 1:
						pass(step, op+1, true, true)
					case 2:
						pass(step, 2, false, false)
					case 3:
						p, err := h.Mod.Predict(x)
						noErr(c, "Predict", err)
						keep(fmt.Sprintf("prediction of step %d", step), p)
						_, err = h.Mod.CalculateLoss(x, y)
						noErr(c, "CalculateLoss", err)
						_, err = h.Mod.CalculateAccuracy(x, y)
						noErr(c, "CalculateAccuracy", err)
					case 4:
						noErr(c, "Fit", h.Mod.Fit(x, y, 1, 1, nn.Matrix{}, nn.Matrix{}, 0))
					case 5:
						noErr(c, "Finalize", h.Mod.Finalize(mustLoss(n.Loss, 3), mustOpt(sgd(0.01, 0, 0.5)), nn.AccuracyType(ni%2), 0.1))
					case 6:
						h.Mod.Backward(nil, y)
					}
					c.Step(1)
					for i, m := range ms {
						if !core.BitsM(m.M, was[i]) {
							c.Failf("after step %d, %s has become %v, it was %v", step, what[i], m.M, was[i])
						}
					}
					same := func(a, b nn.Matrix) bool {
						return a.Rows == b.Rows && a.Cols == b.Cols && core.BitsM(a.M, b.M)
					}
					for i := range heldO {
						for j := range heldO[i] {
							if !same(heldO[i][j], copyO[i][j]) {
								c.Failf("after step %d, entry %d of outputs returned earlier is another matrix", step, j)
							}
						}
					}
					for i := range heldG {
						for j := range heldG[i] {
							if !same(heldG[i][j].DWeights, copyG[i][j].DWeights) || !same(heldG[i][j].DBiases, copyG[i][j].DBiases) {
								c.Failf("after step %d, entry %d of gradients returned earlier is another", step, j)
							}
						}
					}
				}
				c.State(core.Hash("kept", ni, w))
			})
		})
	}
	// one model used for long
	for ni, n0 := range nets {
		for mode := 0; mode < 3; mode++ {
			ni, n0, mode := ni, n0, mode
			r.Case("long history", func() string {
				return fmt.Sprintf("%s, %s", netName(n0), []string{"the same batch", "changing batches", "changing parameters"}[mode])
			}, func(c *core.C) {
				c.Trace()
				n := n0.Clone()
				h := buildModel(n, sgd(0.1, 0, 0), 0, 0.1)
				h.scribble = true
				for step := 0; step < pick(r.Max, 30000, 2500); step++ {
					rows, seed := 2, 0
					if mode > 0 {
						rows, seed = 1+step%3, step%7
					}
					if mode == 2 {
						for i, l := range n.Layers {
							l.W, l.B = genM(l.In, l.Out, step%11+i), genM(1, l.Out, step%5+i)[0]
							h.Layers[i].set(l.W, l.B)
						}
					}
					modelGrad(c, h, n, genM(rows, 2, seed), labels(n.Loss, rows, 3, seed), true, false)
				}
				c.State(core.Hash("long", ni, mode))
			})
		}
	}
	// fused against separate
	for in := 1; in <= 3; in++ {
		for _, out := range append(sizesUpTo(6), 17, 64, 65) {
			for rows := 1; rows <= 4; rows++ {
				in, out, rows := in, out, rows
				r.Case("fused against separate", func() string { return fmt.Sprintf("%dx%d rows %d", in, out, rows) }, func(c *core.C) {
					c.State(core.Hash("fused", in, out, rows))
					c.Trace()
					rl := refLayer(ref.Softmax, in, out, 3)
					x := genM(rows, in, 4)
					for cl := 0; cl < out && cl < 6; cl++ {
						y := oneHot(rows, out, cl)
						h := fromRef(rl)
						X, Y := mat(x), mat(y)
						o, err := h.L.Forward(X)
						noErr(c, "Forward", err)
						ov := val(o)
						a, b, d, err := h.soft.BackwardCrossEntropy(X, Y, o)
						noErr(c, "BackwardCrossEntropy", err)
						g, err := mustLoss(ref.CE, out).Backward(o, Y)
						noErr(c, "loss Backward", err)
						a2, b2, d2, err := h.L.Backward(X, g)
						noErr(c, "Backward", err)
						c.Step(4)
						if !core.CloseM(a.M, a2.M, 1e-8) || !core.CloseM(b.M, b2.M, 1e-8) || !core.CloseM(d.M, d2.M, 1e-8) {
							c.Failf("fused gradients %s %s %s, separate %s %s %s", str(a.M), str(b.M), str(d.M), str(a2.M), str(b2.M), str(d2.M))
						}
						dd := ref.Map2(ov, y, func(p, t float64) float64 { return (p - t) / float64(rows) })
						lin := *rl
						lin.Kind = ref.Linear
						w, wb, wd := lin.Backward(x, dd, nil, 0)
						wantM(c, "fused weight gradient", a, w, 1e-9)
						wantM(c, "fused bias gradient", b, M{wb}, 1e-9)
						wantM(c, "fused input gradient", d, wd, 1e-9)
						untouched(c, "X", X, x)
						untouched(c, "Y", Y, y)
						untouched(c, "outputs", o, ov)
					}
				})
			}
		}
	}
}

// shrink keeps the predictions of wide models moderate.
func shrink(n *ref.Net) {
	for _, l := range n.Layers {
		f := 1.0
		if l.In > 4 {
			f = 2 / float64(l.In)
		}
		for i := range l.W {
			for j := range l.W[i] {
				l.W[i][j] *= f
			}
		}
	}
}

// structured09 runs models on structured data and at small scales.
func structured09(r *core.Run) {
	L := refLayer
	all := everyPat()
	nets := []*ref.Net{
		{Loss: ref.CE, Layers: []*ref.Layer{L(ref.Linear, 2, 3, 1), L(ref.Softmax, 3, 3, 2)}},
		{Loss: ref.CE, Layers: []*ref.Layer{L(ref.Softmax, 2, 3, 1)}},
		{Loss: ref.CE, Layers: []*ref.Layer{L(ref.Sigmoid, 2, 3, 1), L(ref.Sigmoid, 3, 3, 2)}},
		{Loss: ref.BCE, Layers: []*ref.Layer{L(ref.Sigmoid, 2, 3, 1), L(ref.Sigmoid, 3, 3, 2)}},
		{Loss: ref.MSE, Layers: []*ref.Layer{L(ref.Linear, 2, 3, 1), L(ref.Linear, 3, 3, 2)}},
		{Loss: ref.MSE, Layers: []*ref.Layer{L(ref.Softmax, 2, 3, 1), L(ref.Softmax, 3, 3, 2)}},
		{Loss: ref.MSE, Layers: []*ref.Layer{L(ref.Sigmoid, 2, 2, 1), L(ref.Sigmoid, 2, 2, 2), L(ref.Linear, 2, 3, 3)}},
	}
	skip := func(k int) bool {
		return patNames[k] == "1e100 scale" || patNames[k] == "rows +-800" || patNames[k] == "large first entry" || patNames[k] == "row magnitudes"
	}
	for ni, n0 := range nets {
		for _, rows := range []int{1, 2, 3} {
			for _, xi := range all {
				for _, yi := range all {
					if skip(xi) || skip(yi) || n0.Loss >= ref.CE && yi > 8 {
						continue
					}
					ni, n0, rows, xi, yi := ni, n0, rows, xi, yi
					r.Case("structured data", func() string {
						return fmt.Sprintf("%s rows %d X=%s labels %d", netName(n0), rows, patNames[xi], yi)
					}, func(c *core.C) {
						c.State(core.Hash("structured", ni, rows, xi, yi))
						c.Trace()
						n := n0.Clone()
						x := pattern(xi, rows, 2, 5)
						y := pattern(yi, rows, 3, 6)
						switch n.Loss {
						case ref.CE:
							y = oneHot(rows, 3, yi%3)
							if yi >= 3 {
								for i := range y {
									y[i] = []float64{0, 0, 0}
									y[i][yi%3] = 1
								}
							}
						case ref.BCE:
							y = bitLabels(rows, 3, yi)
							if yi < 2 {
								y = ref.Map(y, func(float64) float64 { return float64(yi) })
							}
						}
						modelGrad(c, buildModel(n, sgd(0.1, 0, 0), 0, 0.1), n, x, y, true, false)
					})
				}
			}
		}
		// structured parameters
		for _, wi := range all {
			for _, bi := range all {
				if skip(wi) || skip(bi) {
					continue
				}
				ni, n0, wi, bi := ni, n0, wi, bi
				r.Case("structured parameters", func() string {
					return fmt.Sprintf("%s W=%s B=%s", netName(n0), patNames[wi], patNames[bi])
				}, func(c *core.C) {
					c.State(core.Hash("params", ni, wi, bi))
					c.Trace()
					n := n0.Clone()
					for i, l := range n.Layers {
						l.W, l.B = pattern(wi, l.In, l.Out, i), pattern(bi, 1, l.Out, i+9)[0]
						if ascending := patNames[wi] == "ascending" || patNames[wi] == "descending"; ascending || patNames[bi] == "ascending" {
							for a := range l.W { // keep the predictions off the clip
								for b := range l.W[a] {
									l.W[a][b] /= 8
								}
							}
							for b := range l.B {
								l.B[b] /= 8
							}
						}
					}
					modelGrad(c, buildModel(n, sgd(0.1, 0, 0), 0, 0.1), n, genM(3, 2, 5), labels(n.Loss, 3, 3, 6), true, false)
				})
			}
		}
	}
	// piecewise linear models are exactly scalable: tiny and large problems
	for _, kind := range []int{ref.Linear, ref.Hidden, ref.Leaky, ref.Dropout} {
		for _, e := range []int{-40, -20, -15, -12, -9, -7, -5, -3, 3, 6, 9, 30} {
			for depth := 1; depth <= 3; depth++ {
				for _, loss := range []int{ref.MSE, ref.MAE} {
					kind, e, depth, loss := kind, e, depth, loss
					r.Case("scaled problems", func() string {
						return fmt.Sprintf("%d layers %s %s scale 1e%d", depth, ref.KindName[kind], ref.LossName[loss], e)
					}, func(c *core.C) {
						c.State(core.Hash("scaled", kind, e, depth, loss))
						c.Trace()
						s := math.Pow(10, float64(e))
						up := func(m M) M { return ref.Map(m, func(v float64) float64 { return v * s }) }
						n := &ref.Net{Loss: loss}
						for i := 0; i < depth; i++ {
							l := L(pick(i == depth-1, ref.Linear, kind), 3, 3, i+1)
							l.B = up(M{l.B})[0]
							l.Rate = 0
							n.Layers = append(n.Layers, l)
						}
						h := buildModel(n, sgd(0.1, 0, 0), 0, 0.1)
						x, y := up(genM(4, 3, 3)), up(genM(4, 3, 8))
						outs, err := h.Mod.Forward(mat(x), true)
						noErr(c, "Forward", err)
						gs, err := h.Mod.Backward(outs, mat(y))
						noErr(c, "Backward", err)
						c.Step(2)
						want := n.Backward(n.Forward(x, nil), y, nil, 0)
						for i := range want {
							g := gs[len(gs)-1-i]
							for _, p := range []struct {
								what string
								got  nn.Matrix
								want M
							}{{"weight", g.DWeights, want[i].W}, {"bias", g.DBiases, M{want[i].B}}} {
								top := 0.0
								for a := range p.want {
									for _, v := range p.want[a] {
										top = math.Max(top, math.Abs(v))
									}
								}
								sc := ref.Map(p.want, func(float64) float64 { return top })
								wantRel(c, fmt.Sprintf("%s gradient of layer %d", p.what, i), p.got, p.want, sc, 1e-9)
							}
						}
					})
				}
			}
		}
	}
}
