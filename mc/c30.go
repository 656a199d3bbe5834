package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() { checks["C30"] = c30 }

func finite(m M) bool {
	for _, r := range m {
		for _, v := range r {
			if math.IsNaN(v) || math.IsInf(v, 0) {
				return false
			}
		}
	}
	return true
}

func c30(r *core.Run) {
	r.Rule = "cases: every stack of up to three layers of all kinds with every loss that fits, parameters and data of scales from 0 to 1e6 in structured patterns, sizes of 1 to 9 (thorough 65) and 1 to 17 (thorough 130) rows, right and wrong labels, SGD, momentum and Adam, in batches and at once: after every epoch all parameters, predictions and figures are finite, probabilities are probabilities and figures are in their range; states are distinct (problem, epoch)"
	r.Assume("the magnitudes and learning rates are such that exact arithmetic stays far below the largest float")
	kinds := []int{ref.Linear, ref.Hidden, ref.Sigmoid, ref.Softmax, ref.Leaky, ref.Dropout}
	scales := []float64{0, 1e-300, 1, 40, 1000, 1e6}
	opts := []*ref.Opt{sgd(1e-3, 0, 0), sgd(1e-3, 0.01, 0.9), adam(0.1, 0), adam(1e-3, 0.5)}
	train := func(c *core.C, w, dims []int, rows, loss int, ps, xs float64, o *ref.Opt, pat int) {
		in, out := dims[0], dims[len(w)]
		c.Trace()
		n := &ref.Net{Loss: loss}
		for i, k := range w {
			l := refLayer(kinds[k], dims[i], dims[i+1], 5*pat+i)
			l.W = ref.Map(l.W, func(v float64) float64 { return v * ps })
			for j := range l.B {
				l.B[j] *= ps * float64(pat%2)
			}
			n.Layers = append(n.Layers, l)
		}
		x := ref.Map(genM(rows, in, 3+pat), func(v float64) float64 { return v * xs })
		var y M
		switch {
		case pat == 2 && in == 2 && rows == 4:
			x[1], x[3] = []float64{xs, 0}, []float64{0, -xs}
		case pat == 3 && in == 2 && rows == 4:
			x[0], x[1], x[2] = []float64{xs, -xs}, []float64{-xs, xs}, []float64{0, 0}
		}
		switch loss {
		case ref.CE:
			y = oneHot(rows, out, pat)
		case ref.BCE:
			y = bitLabels(rows, out, pat)
		default:
			y = genM(rows, out, 9+pat)
		}
		h := buildModel(n, o, loss%3, 0.5)
		X, Y := mat(x), mat(y)
		for epoch := 0; epoch < 4; epoch++ {
			// Gradient descent may well diverge at the larger scales: it
			// takes a single step there from parameters up to 1e30.
			batch := 0
			if o.Adam || ps <= 1 && xs <= 1 {
				batch = epoch % 3
			}
			noErr(c, "Fit", h.Mod.Fit(X, Y, 1, batch, nn.Matrix{}, nn.Matrix{}, 0))
			diverged := false
			for i, l := range h.Layers {
				wt, b := l.raw()
				for _, v := range ref.Flat(wt, b) {
					diverged = diverged || math.Abs(v) > 1e30
				}
				if !finite(wt) || !finite(M{b}) {
					c.Failf("after epoch %d layer %d has weights %s and biases %v", epoch, i, str(wt), b)
				}
			}
			if diverged {
				return
			}
			lv, err := h.Mod.CalculateLoss(X, Y)
			noErr(c, "CalculateLoss", err)
			if math.IsNaN(lv) || math.IsInf(lv, 0) || lv < -1e-9 {
				c.Failf("after epoch %d the loss is %v", epoch, lv)
			}
			av, err := h.Mod.CalculateAccuracy(X, Y)
			noErr(c, "CalculateAccuracy", err)
			if !(av >= 0 && av <= 1) {
				c.Failf("after epoch %d the accuracy is %v", epoch, av)
			}
			outs, err := h.Mod.Forward(X, false)
			noErr(c, "Forward", err)
			for i := 1; i < len(outs); i++ {
				m := val(outs[i])
				if !finite(m) {
					c.Failf("after epoch %d the outputs of layer %d are %s", epoch, i-1, str(m))
				}
				kind := h.Layers[i-1].Kind
				for _, row := range m {
					sum := 0.0
					for _, v := range row {
						if (kind == ref.Sigmoid || kind == ref.Softmax) && !(v >= 0 && v <= 1) {
							c.Failf("after epoch %d the outputs of layer %d are %s", epoch, i-1, str(m))
						}
						sum += v
					}
					if kind == ref.Softmax && math.Abs(sum-1) > 1e-9 {
						c.Failf("after epoch %d a softmax row of layer %d has the sum %v", epoch, i-1, sum)
					}
				}
			}
			c.Step(4)
			c.State(core.Hash("training", w, dims, rows, loss, ps, xs, optName(o), pat, epoch))
		}
	}
	words(len(kinds), 1, 3, func(w []int) {
		w = cp(w)
		last := kinds[w[len(w)-1]]
		for loss := 0; loss < 4; loss++ {
			if loss >= ref.CE && last != ref.Sigmoid && last != ref.Softmax {
				continue
			}
			for _, ps := range scales {
				for _, xs := range scales {
					for _, o := range opts {
						for pat := 0; pat < pick(r.Max, 12, 4); pat++ {
							loss, ps, xs, o, pat := loss, ps, xs, o, pat
							r.Case("training", func() string {
								s := ""
								for _, k := range w {
									s += ref.KindName[kinds[k]] + " "
								}
								return fmt.Sprintf("%s%s, parameters of scale %v, data of scale %v, pattern %d, %s", s, ref.LossName[loss], ps, xs, pat, optName(o))
							}, func(c *core.C) { train(c, w, []int{2, 2, 2, 2}[:len(w)+1], 4, loss, ps, xs, o, pat) })
						}
					}
				}
			}
		}
	})
	// other sizes
	widths, some, many := []int{1, 3, 9}, []int{1, 3, 17}, opts[1:3]
	if r.Max {
		widths, some, many = []int{1, 3, 17, 65}, []int{1, 3, 130}, opts
	}
	words(len(kinds), 1, pick(r.Max, 3, 2), func(w []int) {
		w = cp(w)
		last := kinds[w[len(w)-1]]
		words(len(widths), len(w)+1, len(w)+1, func(d []int) {
			dims := make([]int, len(d))
			for i, k := range d {
				dims[i] = widths[k]
			}
			for loss := 0; loss < 4; loss++ {
				if loss >= ref.CE && last != ref.Sigmoid && last != ref.Softmax {
					continue
				}
				for _, rows := range some {
					loss, rows := loss, rows
					r.Case("other sizes", func() string {
						s := ""
						for _, k := range w {
							s += ref.KindName[kinds[k]] + " "
						}
						return fmt.Sprintf("%s%s, sizes %v, %d rows", s, ref.LossName[loss], dims, rows)
					}, func(c *core.C) {
						for _, ps := range []float64{0, 1, 1000} {
							for _, xs := range []float64{0, 1, 1000} {
								for oi, o := range many {
									train(c, w, dims, rows, loss, ps, xs, o, oi%2)
								}
							}
						}
					})
				}
			}
		})
	})
}
