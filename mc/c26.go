package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() { checks["C26"] = c26 }

func c26(r *core.Run) {
	r.Rule = "cases: every combination of boundary and ordinary argument values (sizes around 0 and 1 and large ones; floats around 0, 1, signed zeros, subnormals, infinities) for every constructor of layers, losses, optimizers and matrices: refused exactly when invalid, else sizes, hyperparameters and zero parameters are read back, the object is used once and compared with the reference, and a twin made by the same call is checked to be untouched; states are distinct argument tuples"
	r.Assume("NaN arguments are not specified; sizes beyond memory are not tried")
	tiny := math.SmallestNonzeroFloat64
	sizes := []int{math.MinInt, math.MinInt32, -2, -1, 0, 1, 2, 3, 5, 17, 64}
	if r.Thorough {
		sizes = append(sizes, -1000, 4, 7, 33, 128, 257)
	}
	fl := []float64{-inf, -1e300, -2, -1, -0.5, -1e-9, -tiny, math.Copysign(0, -1), 0, tiny, 1e-300, 1e-9, 0.1, 0.5, 0.9, math.Nextafter(1, 0), 1, math.Nextafter(1, 2), 1.5, 2, 100, math.MaxFloat64, inf}
	if r.Thorough {
		fl = append(fl, -1e-300, 1e-4, 0.25, 0.999999, 1e10, 3)
	}
	for kind := 0; kind < 6; kind++ {
		for _, in := range sizes {
			for _, out := range sizes {
				hs := []float64{0}
				if kind == ref.Leaky || kind == ref.Dropout {
					hs = fl
				}
				for _, hv := range hs {
					kind, in, out, hv := kind, in, out, hv
					r.Case("layers", func() string { return fmt.Sprintf("%s layer %d, %d, %v", ref.KindName[kind], in, out, hv) }, func(c *core.C) {
						c.Trace()
						c.State(core.Hash("layer", kind, in, out, math.Float64bits(hv)))
						h, err := newLayer(kind, in, out, hv, hv)
						c.Step(1)
						valid := in >= 1 && out >= 1
						if kind == ref.Leaky {
							valid = valid && hv >= 0
						}
						if kind == ref.Dropout {
							valid = valid && hv >= 0 && hv <= 1
						}
						if !valid {
							if err == nil {
								c.Failf("invalid arguments were accepted")
							}
							return
						}
						noErr(c, "constructor", err)
						if a, b := h.sizes(); a != in || b != out {
							c.Failf("the layer has sizes %d, %d", a, b)
						}
						if h.hyper != nil && !core.Same(h.hyper(), hv) {
							c.Failf("the layer has hyperparameter %v", h.hyper())
						}
						twin, err := newLayer(kind, in, out, hv, hv)
						noErr(c, "constructor", err)
						zw, zb := ref.Zeros(in, out), ref.Zeros(1, out)
						wantSame(c, "weights", *h.W(), zw)
						wantSame(c, "biases", *h.B(), zb)
						if overlaps(*h.W(), *twin.W()) || overlaps(*h.B(), *twin.B()) {
							c.Failf("two layers share their parameters")
						}
						// zero parameters, then others
						rl := refLayer(kind, in, out, 3)
						rl.Slope, rl.Rate = hv, hv
						x := genM(2, in, 7)
						zl := *rl
						zl.W, zl.B = zw, zb[0]
						for _, l := range []*ref.Layer{&zl, rl} {
							h.set(l.W, l.B)
							got, err := h.infer(mat(x))
							noErr(c, "forward pass", err)
							wantM(c, "output", got, l.Forward(x, nil), 1e-9)
							c.Step(1)
							if kind == ref.Dropout && (hv == 0 || hv == 1) {
								var mask M
								if hv == 1 {
									mask = ref.Zeros(2, out)
								}
								got, err := h.L.Forward(mat(x))
								noErr(c, "training pass", err)
								wantM(c, "training output", got, l.Forward(x, mask), 1e-9)
								c.Step(1)
							}
						}
						wantSame(c, "weights of the twin", *twin.W(), zw)
						wantSame(c, "biases of the twin", *twin.B(), zb)
						// the model takes the layer with the sizes asked for
						m := nn.NewModel()
						noErr(c, "AddLayer", m.AddLayer(h.L))
						if m.InputSize != in || m.OutputSize != out {
							c.Failf("a model of the layer has sizes %d, %d", m.InputSize, m.OutputSize)
						}
					})
				}
			}
		}
	}
	for kind := 0; kind < 6; kind++ {
		for _, s := range [][2]int{{1, 255}, {256, 1}, {1, 1025}, {1000, 3}, {2, 1000}, {1001, 1}, {4097, 1}, {1, 5000}, {10001, 2}, {1, 32768}, {65537, 1}, {1, 100001}, {1000001, 1}, {1, 1000001}} {
			for _, hv := range []float64{0, 0.5} {
				kind, s, hv := kind, s, hv
				r.Case("large layers", func() string { return fmt.Sprintf("%s layer %d, %d, %v", ref.KindName[kind], s[0], s[1], hv) }, func(c *core.C) {
					c.Trace()
					c.State(core.Hash("large layer", kind, s, hv))
					h, err := newLayer(kind, s[0], s[1], hv, hv)
					c.Step(1)
					noErr(c, "constructor", err)
					if a, b := h.sizes(); a != s[0] || b != s[1] {
						c.Failf("the layer has sizes %d, %d", a, b)
					}
					if h.hyper != nil && !core.Same(h.hyper(), hv) {
						c.Failf("the layer has hyperparameter %v", h.hyper())
					}
					wantSame(c, "weights", *h.W(), ref.Zeros(s[0], s[1]))
					wantSame(c, "biases", *h.B(), ref.Zeros(1, s[1]))
				})
			}
		}
	}
	for kind := 0; kind < 4; kind++ {
		for _, size := range append(append([]int{}, sizes...), math.MaxInt32, math.MaxInt32-1, 1000, 999) {
			kind, size := kind, size
			r.Case("losses", func() string { return fmt.Sprintf("%s size %d", ref.LossName[kind], size) }, func(c *core.C) {
				c.Trace()
				c.State(core.Hash("loss", kind, size))
				l, err := newLoss(kind, size)
				c.Step(1)
				if size < 1 {
					if err == nil {
						c.Failf("invalid size was accepted")
					}
					return
				}
				noErr(c, "constructor", err)
				if size > 2000 {
					return
				}
				for _, s := range []int{size - 1, size, size + 1} {
					if s == 0 {
						continue
					}
					p := ref.Map(genM(2, s, 1), func(v float64) float64 { return (v + 1.01) / 2.02 })
					y := labels(kind, 2, s, 3)
					v, err := l.Forward(mat(p), mat(y))
					_, err2 := l.Backward(mat(p), mat(y))
					c.Step(2)
					if s != size {
						if err == nil || err2 == nil {
							c.Failf("the loss accepts %d outputs", s)
						}
						continue
					}
					noErr(c, "Forward", err)
					noErr(c, "Backward", err2)
					if w := ref.Loss(kind, p, y); !core.Close(v, w, 1e-9) {
						c.Failf("loss %v, want %v", v, w)
					}
				}
			})
		}
	}
	ordinary := func(vs ...float64) bool {
		for _, v := range vs {
			if math.IsInf(v, 0) || math.Abs(v) > 1e3 || (v != 0 && math.Abs(v) < 1e-12) {
				return false
			}
		}
		return true
	}
	for _, lr := range fl {
		for _, dec := range fl {
			for _, mom := range fl {
				o := sgd(lr, dec, mom)
				r.Case("sgd", func() string { return optName(o) }, func(c *core.C) {
					c.Trace()
					c.State(core.Hash("sgd", math.Float64bits(o.LR), math.Float64bits(o.Decay), math.Float64bits(o.Mom)))
					x, err := nn.NewSGDOptimizer(o.LR, o.Decay, o.Mom)
					c.Step(1)
					if !(o.LR > 0 && o.Decay >= 0 && o.Mom >= 0) {
						if err == nil {
							c.Failf("invalid values were accepted")
						}
						return
					}
					noErr(c, "constructor", err)
					if !core.Same(x.LearningRate, o.LR) || !core.Same(x.Decay, o.Decay) || !core.Same(x.Momentum, o.Mom) {
						c.Failf("the optimizer has values %v, %v, %v", x.LearningRate, x.Decay, x.Momentum)
					}
					if ordinary(o.LR, o.Decay, o.Mom) {
						optRun(c, "use", &x, o, 2, 2, 3, func(t, i int) float64 { return gen(t*13 + i) })
						y, _ := nn.NewSGDOptimizer(o.LR, o.Decay, o.Mom)
						optRun(c, "use of a twin", &y, o, 1, 3, 2, func(t, i int) float64 { return gen(t*17 + i) })
					}
				})
			}
			epss := []float64{0, 1e-8, 1e-3, 1, -1, inf}
			betas := [][2]float64{{0.9, 0.999}, {0, 0}, {0.5, 0.3}, {1, 1}, {-0.5, 2}}
			for _, eps := range epss {
				for _, b := range betas {
					o := &ref.Opt{Adam: true, LR: lr, Decay: dec, Epsilon: eps, Beta1: b[0], Beta2: b[1]}
					r.Case("adam", func() string { return optName(o) }, func(c *core.C) {
						c.Trace()
						c.State(core.Hash("adam", math.Float64bits(o.LR), math.Float64bits(o.Decay), o.Epsilon, o.Beta1, o.Beta2))
						x, err := nn.NewAdamOptimizer(o.LR, o.Decay, o.Epsilon, o.Beta1, o.Beta2)
						c.Step(1)
						if !(o.LR > 0 && o.Decay >= 0) {
							if err == nil {
								c.Failf("invalid values were accepted")
							}
							return
						}
						sane := o.Epsilon >= 0 && !math.IsInf(o.Epsilon, 0) && o.Beta1 < 1 && o.Beta1 >= 0 && o.Beta2 < 1 && o.Beta2 >= 0
						if !sane {
							noErr(c, "constructor", err)
							if !core.Same(x.Epsilon, o.Epsilon) || !core.Same(x.Beta1, o.Beta1) || !core.Same(x.Beta2, o.Beta2) {
								c.Failf("the optimizer has values %v, %v, %v", x.Epsilon, x.Beta1, x.Beta2)
							}
							return
						}
						noErr(c, "constructor", err)
						if !core.Same(x.LearningRate, o.LR) || !core.Same(x.Decay, o.Decay) || !core.Same(x.Epsilon, o.Epsilon) || !core.Same(x.Beta1, o.Beta1) || !core.Same(x.Beta2, o.Beta2) {
							c.Failf("the optimizer has values %v, %v, %v, %v, %v", x.LearningRate, x.Decay, x.Epsilon, x.Beta1, x.Beta2)
						}
						if ordinary(o.LR, o.Decay) && o.Epsilon > 0 {
							optRun(c, "use", &x, o, 2, 2, 3, func(t, i int) float64 { return gen(t*13 + i) })
						}
					})
				}
			}
		}
	}
	for _, rows := range sizes {
		for _, cols := range sizes {
			rows, cols := rows, cols
			r.Case("matrices", func() string { return fmt.Sprintf("%d x %d", rows, cols) }, func(c *core.C) {
				c.Trace()
				c.State(core.Hash("matrix", rows, cols))
				m, err := nn.NewMatrix(rows, cols)
				c.Step(1)
				if rows < 1 || cols < 1 {
					if err == nil {
						c.Failf("invalid dimensions were accepted")
					}
					return
				}
				noErr(c, "NewMatrix", err)
				wantSame(c, "new matrix", m, ref.Zeros(rows, cols))
			})
		}
	}
}
