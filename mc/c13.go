package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() { checks["C13"] = c13 }

var evalNames = []string{"Predict(A)", "Loss(A)", "Accuracy(A)", "Forward(B,false)", "save", "Predict(B)", "train(A)", "train(B)"}

// c13 inserts evaluations everywhere between training calls.
func c13(r *core.Run) {
	r.Rule = "cases: every history up to a depth over training calls (two data sets) and evaluations (predict, loss, accuracy, inference pass, saving; two batch sizes), for models of all layer kinds and every accuracy mode; after every step the parameters are bit-identical to those of a twin that ran the training calls only, and every evaluation is repeated and equals a reference computed from those parameters; models of every depth up to 6 with every small number of rows, thousands of evaluations in a row, histories in which every call gets the very same matrices, hundreds and thousands of epochs over problems whose loss falls, stays, swings or grows under every log setting, special parameter values (28 patterns, NaN, infinities) and every small one-weight problem over dyadic numbers under every logging setting likewise; states are distinct (model, parameters)"
	nets := fitNets()
	opts := []*ref.Opt{sgd(0.1, 0.1, 0.9), adam(0.05, 0.1)}
	type dataset struct{ x, y M }
	depth := pick(r.Max, 6, pick(r.Thorough, 5, 4))
	for ni, net := range nets {
		data := []dataset{{genM(3, 2, 1), labels(net.Loss, 3, 2, 1)}, {genM(5, 2, 2), labels(net.Loss, 5, 2, 2)}}
		for oi, o := range opts {
			for acc := 0; acc < 3; acc++ {
				if (ni+oi+acc)%2 == 1 && !r.Thorough {
					continue
				}
				ni, net, oi, o, acc := ni, net, oi, o, acc
				// the twin's parameters after every training word, computed once
				cache := map[string][][]float64{}
				var twin func(c *core.C, w []int) [][]float64
				twin = func(c *core.C, w []int) [][]float64 {
					k := fmt.Sprint(w)
					if p, ok := cache[k]; ok {
						return p
					}
					h := buildModel(net, o, acc, 0.4)
					for _, op := range w {
						d := data[op-6]
						noErr(c, "Fit", h.Mod.Fit(mat(d.x), mat(d.y), 1, 2, nn.Matrix{}, nn.Matrix{}, 0))
					}
					p := h.params()
					cache[k] = p
					return p
				}
				words(len(evalNames), depth, depth, func(w []int) {
					w = cp(w)
					r.Case("histories", func() string {
						var s []string
						for _, k := range w {
							s = append(s, evalNames[k])
						}
						return fmt.Sprintf("%s %s accuracy mode %d: %v", netName(net), optName(o), acc, s)
					}, func(c *core.C) {
						c.Trace()
						h := buildModel(net, o, acc, 0.4)
						var trained []int
						for step, op := range w {
							if op >= 6 {
								d := data[op-6]
								X, Y := mat(d.x), mat(d.y)
								noErr(c, "Fit", h.Mod.Fit(X, Y, 1, 2, nn.Matrix{}, nn.Matrix{}, 0))
								c.Step(1)
								untouched(c, "X", X, d.x)
								untouched(c, "Y", Y, d.y)
								trained = append(trained, op)
							} else {
								evaluate(c, h, net, acc, op, data[0].x, data[0].y, data[1].x)
							}
							want := twin(c, trained)
							if !sameParams(h.params(), want) {
								c.Failf("after step %d (%s) the parameters are %v; with the training calls alone they are %v", step, evalNames[op], h.params(), want)
							}
							hh := core.Hash(ni, oi, acc)
							for _, p := range want {
								hh = core.HashF(hh, p...)
							}
							c.State(hh)
						}
					})
				})
			}
		}
	}
	structured13(r)
	shared13(r, nets, opts)
	// logging and validation settings
	for ni, net := range nets {
		for _, o := range opts {
			for acc := 0; acc < 3; acc++ {
				for batch := 0; batch < 3; batch++ {
					net, o, acc, batch, ni := net, o, acc, batch, ni
					r.Case("logging and validation", func() string { return fmt.Sprintf("%s %s mode %d batch %d", netName(net), optName(o), acc, batch) }, func(c *core.C) {
						c.Trace()
						var want [][]float64
						d := data2(net, ni)
						for _, le := range []int{0, 1, 2, 3, 7} {
							for v := 0; v < 3; v++ {
								h := buildModel(net, o, acc, 0.4)
								var vx, vy nn.Matrix
								switch v {
								case 1:
									vx, vy = mat(d[2]), mat(d[3])
								case 2:
									vx, vy = mat(d[0]), mat(d[1])
								}
								noErr(c, "Fit", h.Mod.Fit(mat(d[0]), mat(d[1]), 4, batch, vx, vy, le))
								noErr(c, "Fit", h.Mod.Fit(mat(d[0]), mat(d[1]), 2, batch, vx, vy, le))
								c.Step(2)
								p := h.params()
								if want == nil {
									want = p
								}
								if !sameParams(p, want) {
									c.Failf("with log interval %d and validation variant %d training gives %v, want %v", le, v, p, want)
								}
								c.State(core.Hash("log", ni, acc, batch, le, v))
							}
						}
					})
				}
			}
		}
	}
}

func data2(net *ref.Net, seed int) []M {
	return []M{genM(5, 2, seed), labels(net.Loss, 5, 2, seed+1), genM(3, 2, seed+2), labels(net.Loss, 3, 2, seed+3)}
}

// evaluate runs one evaluation twice and compares with the reference.
func evaluate(c *core.C, h *MH, net *ref.Net, acc, op int, xa, ya, xb M) {
	// the reference with the model's present parameters
	n := net.Clone()
	for i, l := range n.Layers {
		l.W, l.B = h.Layers[i].raw2()
	}
	XA, YA, XB := mat(xa), mat(ya), mat(xb)
	xa0, xb0 := xa, xb
	for rep := 0; rep < 3; rep++ {
		// first with other values in the same matrices
		f := pick(rep == 0, -0.75, 1.0)
		xa = ref.Map(xa0, func(v float64) float64 { return f * v })
		xb = ref.Map(xb0, func(v float64) float64 { return f * v })
		refill(XA, xa)
		refill(XB, xb)
		switch op {
		case 0, 5:
			X, x := XA, xa
			if op == 5 {
				X, x = XB, xb
			}
			p, err := h.Mod.Predict(X)
			noErr(c, "Predict", err)
			wantM(c, "prediction", p, ref.Answer(acc, n.Predict(x)), 1e-9)
			scribble(p)
		case 1:
			v, err := h.Mod.CalculateLoss(XA, YA)
			noErr(c, "CalculateLoss", err)
			if w := ref.Loss(n.Loss, n.Predict(xa), ya); !core.Close(v, w, 1e-7) {
				c.Failf("loss %v, want %v", v, w)
			}
		case 2:
			v, err := h.Mod.CalculateAccuracy(XA, YA)
			noErr(c, "CalculateAccuracy", err)
			if w := ref.Accuracy(acc, n.Predict(xa), ya, 0.4); v != w {
				c.Failf("accuracy %v, want %v", v, w)
			}
		case 3:
			o, err := h.Mod.Forward(XB, false)
			noErr(c, "Forward", err)
			for i, w := range n.Forward(xb, nil) {
				wantM(c, fmt.Sprintf("output %d", i), o[i], w, 1e-9)
			}
			for _, m := range o[1:] {
				scribble(m)
			}
		case 4:
			if rep == 1 {
				f := filepath.Join(scratch(), "evaluated")
				noErr(c, "SaveFile", nn.SaveFile(&h.Mod, f))
				os.Remove(f)
				break
			}
			d := nn.NewSavedModelData(h.Mod)
			var buf bytes.Buffer
			noErr(c, "Serialize", d.Serialize(&buf))
		}
		c.Step(1)
		untouched(c, "X", XA, xa)
		untouched(c, "Y", YA, ya)
		untouched(c, "X", XB, xb)
	}
}

// raw2 is raw with copies already made.
func (h *LH) raw2() (M, []float64) { return h.raw() }

func structured13(r *core.Run) {
	// evaluations leave special parameters alone, and training after them is the same
	all := everyPat()
	kinds := kindMain
	for ki := range kinds {
		for kj := range kinds {
			for _, wi := range append(everyPat(), len(all), len(all)+1, len(all)+2) {
				for acc := 0; acc < 3; acc++ {
					if !r.Thorough && (ki+kj+wi)%3 != acc {
						continue
					}
					ki, kj, wi, acc := ki, kj, wi, acc
					r.Case("special parameters", func() string {
						return fmt.Sprintf("%v-%v parameters %d mode %d", kinds[ki], kinds[kj], wi, acc)
					}, func(c *core.C) {
						c.Trace()
						n := seqNet([]int{ki, kj}, ref.MSE, 2, 2, 3)
						for i, l := range n.Layers {
							if l.Kind == ref.Dropout {
								l.Rate = 0
							}
							switch {
							case wi < len(all):
								l.W, l.B = pattern(wi, l.In, l.Out, i), pattern(wi, 1, l.Out, i+3)[0]
							default:
								v := []float64{nan, inf, -1e308}[wi-len(all)]
								l.W[i][0], l.B[0] = v, v
							}
						}
						o := sgd(0.1, 0.1, 0.5)
						h, twin := buildModel(n, o, acc, 0.4), buildModel(n, o, acc, 0.4)
						x, y := genM(3, 2, 1), genM(3, 2, 2)
						for round := 0; round < 3; round++ {
							for op := 0; op < 7; op++ {
								X, Y := mat(x), mat(y)
								switch op {
								case 0:
									h.Mod.Predict(X)
								case 1:
									h.Mod.CalculateLoss(X, Y)
								case 2:
									h.Mod.CalculateAccuracy(X, Y)
								case 3:
									h.Mod.Forward(mat(genM(4, 2, 5)), false)
								case 4:
									d := nn.NewSavedModelData(h.Mod)
									var buf bytes.Buffer
									d.Serialize(&buf)
								case 5:
									for _, l := range h.Layers {
										l.infer(mat(genM(2, l.In, 6)))
									}
								case 6:
									for k, xx := range everyPat() {
										p, q := pattern(xx, 2, 2, k), pattern(xx, 2, 2, k+1)
										P, Q := mat(p), mat(q)
										h.Mod.Predict(P)
										h.Mod.CalculateLoss(P, Q)
										h.Mod.CalculateAccuracy(P, Q)
										untouched(c, "X", P, p)
										untouched(c, "Y", Q, q)
									}
								}
								c.Step(1)
								untouched(c, "X", X, x)
								untouched(c, "Y", Y, y)
								if !sameParams(h.params(), twin.params()) {
									c.Failf("evaluation %d changed the parameters: %v, were %v", op, h.params(), twin.params())
								}
							}
							h.Mod.Fit(mat(x), mat(y), 1, 2, nn.Matrix{}, nn.Matrix{}, 0)
							twin.Mod.Fit(mat(x), mat(y), 1, 2, nn.Matrix{}, nn.Matrix{}, 0)
							if !sameParams(h.params(), twin.params()) {
								c.Failf("after training round %d the parameters are %v, without the evaluations %v", round, h.params(), twin.params())
							}
							c.State(core.Hash("special", ki, kj, wi, acc, round))
						}
					})
				}
			}
		}
	}
	// every number of rows, models of every depth, labels of any value
	for depth := 1; depth <= 6; depth++ {
		for rows := 1; rows <= 9; rows++ {
			for acc := 0; acc < 3; acc++ {
				for loss := 0; loss < ref.NLosses; loss++ {
					depth, rows, acc, loss := depth, rows, acc, loss
					r.Case("depths and rows", func() string {
						return fmt.Sprintf("%d layers, %d rows, mode %d, %s", depth, rows, acc, ref.LossName[loss])
					}, func(c *core.C) {
						c.Trace()
						w := []int{5, 0, 5, 3, 2, 4}[:depth] // dropout at its full rate is off outside training
						n := seqNet(w, loss, 2, 2, 9)
						if loss >= ref.CE {
							tame(n)
						}
						o := adam(0.05, 0.1)
						h, twin := buildModel(n, o, acc, 0.4), buildModel(n, o, acc, 0.4)
						x := genM(rows, 2, 1)
						for lab := 0; lab < 3; lab++ {
							y := labels(loss, rows, 2, lab)
							if lab == 2 {
								y = genM(rows, 2, 2)
								if loss == ref.CE { // specified for one-hot labels only
									X, Y := mat(x), mat(y)
									h.Mod.CalculateLoss(X, Y)
									h.Mod.CalculateAccuracy(X, Y)
									untouched(c, "X", X, x)
									untouched(c, "Y", Y, y)
									y = oneHot(rows, 2, 1)
								}
							}
							for op := 0; op < 6; op++ {
								evaluate(c, h, n, acc, op, x, y, genM(rows%3+1, 2, 7))
								if !sameParams(h.params(), twin.params()) {
									c.Failf("%s changed the parameters: %v, were %v", evalNames[op], h.params(), twin.params())
								}
							}
						}
						c.State(core.Hash("depth", depth, rows, acc, loss))
					})
				}
			}
		}
	}
	// any number of rows
	for _, s := range append([]int{16, 32, 33, 64, 65, 100, 101, 128, 129, 200, 256, 257, 300, 512, 513, 1000, 1001, 1024, 1025, 2049, 4097, 5000}, huge...) {
		for ni, net := range fitNets() {
			s, ni, net := s, ni, net
			if s > 5000 && ni%2 == 1 && !r.Max {
				continue
			}
			r.Case("many rows", func() string { return fmt.Sprintf("%d rows, %s", s, netName(net)) }, func(c *core.C) {
				c.Trace()
				o, acc := adam(0.05, 0.1), (ni+s)%3
				h, twin := buildModel(net, o, acc, 0.4), buildModel(net, o, acc, 0.4)
				xs, ys := genM(3, 2, 1), labels(net.Loss, 3, 2, 1)
				x, y, xb := genM(s, 2, 1), labels(net.Loss, s, 2, 1), genM(s+1, 2, 2)
				for round := 0; round < 2; round++ {
					for op := 0; op < 6; op++ {
						evaluate(c, h, net, acc, op, x, y, xb)
						if !sameParams(h.params(), twin.params()) {
							c.Failf("%s changed the parameters: %v, were %v", evalNames[op], h.params(), twin.params())
						}
					}
					// as validation data, logged or not
					noErr(c, "Fit", h.Mod.Fit(mat(xs), mat(ys), 2, 2, mat(x), mat(y), 1))
					noErr(c, "Fit", twin.Mod.Fit(mat(xs), mat(ys), 2, 2, nn.Matrix{}, nn.Matrix{}, 0))
					if !sameParams(h.params(), twin.params()) {
						c.Failf("trained with %d validation rows and log the parameters are %v, without %v", s, h.params(), twin.params())
					}
				}
				// as training data
				noErr(c, "Fit", h.Mod.Fit(mat(x), mat(y), 1, s/2, mat(xs), mat(ys), 1))
				noErr(c, "Fit", twin.Mod.Fit(mat(x), mat(y), 1, s/2, nn.Matrix{}, nn.Matrix{}, 0))
				if !sameParams(h.params(), twin.params()) {
					c.Failf("trained on %d rows with log the parameters are %v, without %v", s, h.params(), twin.params())
				}
				c.State(core.Hash("manyrows", ni, s))
			})
		}
	}
	// many evaluations in a row
	for ni, net := range fitNets() {
		ni, net := ni, net
		r.Case("long history", func() string { return netName(net) }, func(c *core.C) {
			c.Trace()
			o := adam(0.05, 0.1)
			h, twin := buildModel(net, o, ni%3, 0.4), buildModel(net, o, ni%3, 0.4)
			x, y, xb := genM(3, 2, 1), labels(net.Loss, 3, 2, 1), genM(5, 2, 2)
			for t := 0; t < pick(r.Max, 40000, pick(r.Thorough, 5000, 600)); t++ {
				evaluate(c, h, net, ni%3, t%6, x, y, xb)
				if t%50 == 7 {
					noErr(c, "Fit", h.Mod.Fit(mat(x), mat(y), 1, 2, nn.Matrix{}, nn.Matrix{}, 0))
					noErr(c, "Fit", twin.Mod.Fit(mat(x), mat(y), 1, 2, nn.Matrix{}, nn.Matrix{}, 0))
				}
				if !sameParams(h.params(), twin.params()) {
					c.Failf("after %d evaluations the parameters are %v, want %v", t+1, h.params(), twin.params())
				}
			}
			c.State(core.Hash("long", ni))
		})
	}
	// logging and validation on one-weight problems, most of which reach a loss of exactly 0,
	// a perfect accuracy, or a validation loss that rises
	D := []float64{0, 1, -1, 0.5, 2}
	product([]int{len(D), len(D), len(D), 3, 3, 3, 2}, func(ix []int) {
		w, x, y, vy := D[ix[0]], D[ix[1]], D[ix[2]], D[ix[3]]
		lr, mom, acc := []float64{0.25, 0.5, 1}[ix[4]], []float64{0, 0.5, 1}[ix[5]], ix[6]*2
		r.Case("one weight", func() string {
			return fmt.Sprintf("w=%v x=%v y=%v validation label %v lr=%v momentum=%v mode %d", w, x, y, vy, lr, mom, acc)
		}, func(c *core.C) {
			c.Trace()
			n := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{{Kind: ref.Linear, In: 1, Out: 1, W: M{{w}}, B: []float64{0}}}}
			o := sgd(lr, 0, mom)
			run := func(le int, v bool, split bool) [][]float64 {
				h := buildModel(n, o, acc, 0.25)
				var vx, vl nn.Matrix
				if v {
					vx, vl = mat(M{{x}, {1}}), mat(M{{vy}, {y}})
				}
				if split {
					noErr(c, "Fit", h.Mod.Fit(mat(M{{x}}), mat(M{{y}}), 5, 0, vx, vl, le))
					noErr(c, "Fit", h.Mod.Fit(mat(M{{x}}), mat(M{{y}}), 3, 1, vx, vl, le))
				} else {
					noErr(c, "Fit", h.Mod.Fit(mat(M{{x}}), mat(M{{y}}), 8, 0, vx, vl, le))
				}
				c.Step(1)
				return h.params()
			}
			want := run(0, false, false)
			c.State(core.HashF(uint64(acc), append(want[0], w, x, y, lr, mom)...))
			for _, le := range []int{0, 1, 2, 3, 8, 100} {
				for k := 0; k < 4; k++ {
					if got := run(le, k&1 == 1, k&2 == 2); !sameParams(got, want) {
						c.Failf("log interval %d, validation %v, in two calls %v: parameters %v, want %v", le, k&1 == 1, k&2 == 2, got, want)
					}
				}
			}
		})
	})
}

// shared13 uses the very same matrices for all calls of a history.
func shared13(r *core.Run, nets []*ref.Net, opts []*ref.Opt) {
	ops := []string{"Predict(A)", "Loss(A)", "Accuracy(A)", "Forward(A,false)", "Predict(B)", "Loss(B)", "Accuracy(B)", "train(A)", "train(B)", "other values in A"}
	for ni, net := range nets {
		for acc := 0; acc < 3; acc++ {
			ni, net, acc := ni, net, acc
			o := opts[(ni+acc)%2]
			words(len(ops), 1, pick(r.Max, 5, pick(r.Thorough, 4, 3)), func(w []int) {
				if w[len(w)-1] > 6 { // ends with an evaluation
					return
				}
				w = cp(w)
				r.Case("the same matrices in every call", func() string {
					var s []string
					for _, k := range w {
						s = append(s, ops[k])
					}
					return fmt.Sprintf("%s %s accuracy mode %d: %v", netName(net), optName(o), acc, s)
				}, func(c *core.C) {
					c.Trace()
					h, twin := buildModel(net, o, acc, 0.4), buildModel(net, o, acc, 0.4)
					x := []M{genM(3, 2, 1), genM(3, 2, 2)}
					y := []M{labels(net.Loss, 3, 2, 1), labels(net.Loss, 3, 2, 2)}
					X, Y := []nn.Matrix{mat(x[0]), mat(x[1])}, []nn.Matrix{mat(y[0]), mat(y[1])}
					n := net.Clone()
					for _, op := range w {
						k := 0
						if op >= 4 && op <= 6 || op == 8 {
							k = 1
						}
						for i, l := range n.Layers {
							l.W, l.B = h.Layers[i].raw2()
						}
						switch op {
						case 0, 4:
							p, err := h.Mod.Predict(X[k])
							noErr(c, "Predict", err)
							wantM(c, "prediction", p, ref.Answer(acc, n.Predict(x[k])), 1e-9)
						case 1, 5:
							v, err := h.Mod.CalculateLoss(X[k], Y[k])
							noErr(c, "CalculateLoss", err)
							if w := ref.Loss(n.Loss, n.Predict(x[k]), y[k]); !core.Close(v, w, 1e-7) {
								c.Failf("loss %v, want %v", v, w)
							}
						case 2, 6:
							v, err := h.Mod.CalculateAccuracy(X[k], Y[k])
							noErr(c, "CalculateAccuracy", err)
							if w := ref.Accuracy(acc, n.Predict(x[k]), y[k], 0.4); v != w {
								c.Failf("accuracy %v, want %v", v, w)
							}
						case 3:
							f, err := h.Mod.Forward(X[0], false)
							noErr(c, "Forward", err)
							for i, w := range n.Forward(x[0], nil) {
								wantM(c, fmt.Sprintf("output %d", i), f[i], w, 1e-9)
							}
						case 7, 8:
							// long enough to change the answers
							noErr(c, "Fit", h.Mod.Fit(X[k], Y[k], 5, 2, nn.Matrix{}, nn.Matrix{}, 0))
							noErr(c, "Fit", twin.Mod.Fit(mat(x[k]), mat(y[k]), 5, 2, nn.Matrix{}, nn.Matrix{}, 0))
						case 9:
							x[0] = ref.Map(x[0], func(v float64) float64 { return -1.5 * v })
							refill(X[0], x[0])
						}
						c.Step(1)
						for k := range x {
							untouched(c, "X", X[k], x[k])
							untouched(c, "Y", Y[k], y[k])
						}
						if !sameParams(h.params(), twin.params()) {
							c.Failf("the parameters are %v; with the training calls alone they are %v", h.params(), twin.params())
						}
					}
					hh := core.Hash("shared", ni, acc)
					for _, p := range h.params() {
						hh = core.HashF(hh, p...)
					}
					c.State(hh)
				})
			})
		}
	}
	// many epochs over problems whose loss falls, stays, swings or grows while
	// the parameters move: no setting of log and validation stops the training
	D := []float64{1, 0.5, -1}
	product([]int{2, len(D), 2, 4, 3, 2}, func(ix []int) {
		w, x, y := float64(ix[0]), D[ix[1]], []float64{0.75, -1}[ix[2]]
		lr, mom := []float64{0.25, 0.5, 0.505, 1e-9}[ix[3]], []float64{0, 0.5, 1}[ix[4]]
		acc := ix[5] * 2
		r.Case("many epochs", func() string {
			return fmt.Sprintf("w=%v x=%v y=%v lr=%v momentum=%v mode %d", w, x, y, lr, mom, acc)
		}, func(c *core.C) {
			c.Trace()
			n := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{{Kind: ref.Linear, In: 1, Out: 1, W: M{{w}}, B: []float64{0}}}}
			for _, epochs := range []int{300, pick(ix[0]+ix[2] == 1, 3000, 30)} {
				var want [][]float64
				for _, le := range []int{0, 1, 3} {
					for v := 0; v < 4; v++ {
						h := buildModel(n, sgd(lr, 0, mom), acc, 0.25)
						var vx, vl nn.Matrix
						switch v {
						case 1: // falls and rises with the training loss
							vx, vl = mat(M{{x}}), mat(M{{y}})
						case 2: // against it
							vx, vl = mat(M{{-x}, {x}}), mat(M{{y}, {-3 * y}})
						case 3:
							vx, vl = mat(M{{0}}), mat(M{{0}})
						}
						noErr(c, "Fit", h.Mod.Fit(mat(M{{x}}), mat(M{{y}}), epochs, 0, vx, vl, le))
						c.Step(1)
						got := h.params()
						if want == nil {
							want = got
						}
						if !sameParams(got, want) {
							c.Failf("%d epochs, log interval %d, validation variant %d: parameters %v, without log and validation %v", epochs, le, v, got, want)
						}
					}
				}
				c.State(core.HashF(uint64(epochs), append(want[0], w, x, y, lr, mom)...))
			}
		})
	})
}
