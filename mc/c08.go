package main

import (
	"cmp"
	"fmt"
	"math"
	"slices"
	"sort"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() { checks["C08"] = c08 }

var extremes = []float64{0, 1, -1, 5e-324, -1e-8, 30, -30, 36.5, -37, 88.7, -104, 700, -700, 709.7, 709.9, -709.9, 710, -745, -746, 1000, -1000, 1e15, -1e15, 1e300, -1e300, math.MaxFloat64, -math.MaxFloat64}

// wantDist checks that p is the softmax distribution of x.
func wantDist(c *core.C, what string, x, p []float64) {
	s := 0.0
	for i, v := range p {
		if math.IsNaN(v) || v < 0 || v > 1 {
			c.Failf("%s: entry %d of softmax(%v) is %v", what, i, x, v)
		}
		s += v
		for k := range p {
			if len(p) > 2000 {
				break // in order, below
			}
			if x[i] > x[k] && p[i] < p[k] || x[i] == x[k] && math.Abs(p[i]-p[k]) > 1e-12 {
				c.Failf("%s: softmax(%v) = %v is not in the order of its inputs", what, x, p)
			}
		}
	}
	if len(p) > 2000 {
		ix := make([]int, len(p))
		for i := range ix {
			ix[i] = i
		}
		slices.SortFunc(ix, func(a, b int) int { return cmp.Compare(x[a], x[b]) })
		first, low, most := 0, 0.0, 0.0 // of the equal inputs; of all lower ones; of all so far
		for k, i := range ix {
			if x[i] != x[ix[first]] {
				first, low = k, most
			}
			most = max(most, p[i])
			if p[i] < low || math.Abs(p[i]-p[ix[first]]) > 1e-12 {
				c.Failf("%s: the softmax of %d entries is not in the order of its inputs at entry %d", what, len(p), i)
			}
		}
	}
	if math.Abs(s-1) > 1e-9 {
		c.Failf("%s: softmax(%v) = %v sums to %v", what, x, p, s)
	}
	w := ref.SoftmaxRow(x)
	for i := range w {
		if math.Abs(w[i]-p[i]) > 1e-9 {
			c.Failf("%s: softmax(%v) = %v, want %v", what, x, p, w)
		}
	}
}

func identity(n int) M {
	m := ref.Zeros(n, n)
	for i := range m {
		m[i][i] = 1
	}
	return m
}

func idLayer(kind, n int) *LH {
	return fromRef(&ref.Layer{Kind: kind, In: n, Out: n, W: identity(n), B: make([]float64, n)})
}

func c08(r *core.Run) {
	r.Rule = "cases: every row of up to 3 entries over 27 extreme finite values (up to 4 over a part of them), long rows with extremes at every position, every pair of rows in one batch over a part of them, and a sweep of single values, through the activation functions, the layers and their gradients; states are distinct inputs"
	soft := map[int]*LH{}
	layer := func(n int) *LH {
		if soft[n] == nil {
			soft[n] = idLayer(ref.Softmax, n)
		}
		return soft[n]
	}
	softCase := func(c *core.C, rows M) {
		for i := range rows {
			c.State(core.HashF(uint64(len(rows)), rows[i]...))
		}
		p := nn.Softmax(mat(rows))
		if !shapeOK(p, len(rows), len(rows[0])) {
			c.Failf("Softmax changed the shape")
		}
		for i := range rows {
			wantDist(c, "Softmax", rows[i], p.M[i])
		}
		h := layer(len(rows[0]))
		X := mat(rows)
		o, err := h.L.Forward(X)
		c.Trace()
		c.Step(2)
		noErr(c, "softmax layer", err)
		for i := range rows {
			// the layer's input is X*I+0: finite and equal to the row
			wantDist(c, "softmax layer", rows[i], o.M[i])
		}
		// the gradient stays finite and correct
		for _, d0 := range []float64{1, -0.5} {
			d := ref.Zeros(len(rows), len(rows[0]))
			for i := range d {
				for j := range d[i] {
					d[i][j] = d0 * float64(1-2*((i+j)%2))
				}
			}
			if len(rows) == 1 {
				_, dB, dX, err := h.L.Backward(X, mat(d))
				c.Trace()
				c.Step(1)
				noErr(c, "softmax backward", err)
				dW, _, _, _ := h.L.Backward(X, mat(d))
				for _, g := range []nn.Matrix{dW, dB, dX} {
					for i := range g.M {
						for j := range g.M[i] {
							if math.IsNaN(g.M[i][j]) || math.IsInf(g.M[i][j], 0) {
								c.Failf("softmax gradient is %v for input %v", g.M[i][j], rows)
							}
						}
					}
				}
				rl := &ref.Layer{Kind: ref.Softmax, In: len(rows[0]), Out: len(rows[0]), W: identity(len(rows[0])), B: make([]float64, len(rows[0]))}
				_, wb, _ := rl.Backward(rows, d, nil, 0)
				for j := range wb {
					if math.Abs(wb[j]-dB.M[0][j]) > 1e-9 {
						c.Failf("softmax gradient of %v is %v, want %v", rows, dB.M, wb)
					}
				}
			}
		}
	}
	E := extremes
	for n := 1; n <= 3; n++ {
		d := make([]int, n)
		for i := range d {
			d[i] = len(E)
		}
		product(d, func(ix []int) {
			x := make([]float64, n)
			for k, v := range ix {
				x[k] = E[v]
			}
			r.Case("softmax rows", func() string { return fmt.Sprint(x) }, func(c *core.C) { softCase(c, M{x}) })
		})
	}
	F := []float64{0, 1, -30, 700, -745, 1000, -1000, math.MaxFloat64, -math.MaxFloat64}
	if r.Thorough {
		F = E
	}
	product([]int{len(F), len(F), len(F), len(F)}, func(ix []int) {
		x := []float64{F[ix[0]], F[ix[1]], F[ix[2]], F[ix[3]]}
		r.Case("softmax rows of 4", func() string { return fmt.Sprint(x) }, func(c *core.C) { softCase(c, M{x}) })
		y := M{{x[0], x[1]}, {x[2], x[3]}}
		r.Case("softmax batches of 2x2", func() string { return str(y) }, func(c *core.C) {
			softCase(c, y)
			// a row gives the same alone
			for i := range y {
				a, b := nn.Softmax(mat(M{y[i]})), nn.Softmax(mat(y))
				if !core.CloseM(a.M, M{b.M[i]}, 1e-12) {
					c.Failf("softmax of row %d depends on the other row", i)
				}
			}
		})
	})
	for _, n := range append(sizesUpTo(pick(r.Max, 200, pick(r.Thorough, 64, 20)), 33), 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 10001, 32769, 65536, 65537, 70000) {
		for _, bg := range []float64{0, -1000, 1000, 1e300} {
			for _, fg := range []float64{0, 1, 800, -800, math.MaxFloat64, -math.MaxFloat64} {
				n, bg, fg := n, bg, fg
				r.Case("long softmax rows", func() string { return fmt.Sprintf("%d entries of %v, one of %v", n, bg, fg) }, func(c *core.C) {
					for _, pos := range []int{0, n / 2, n - 1} {
						x := make([]float64, n)
						for i := range x {
							x[i] = bg + float64(i%7)*0.1
						}
						x[pos] = fg
						c.State(core.HashF(9, x...))
						p := nn.Softmax(mat(M{x}))
						c.Trace()
						c.Step(1)
						wantDist(c, "Softmax", x, p.M[0])
					}
				})
			}
		}
	}
	// shift invariance
	base := []float64{-3, 0, 0.5, 2, 10}
	product([]int{5, 5, 5}, func(ix []int) {
		x := []float64{base[ix[0]], base[ix[1]], base[ix[2]]}
		for _, s := range []float64{1, -1, 50, -50, 500, -500, 709, 720, -720, -760, 1000, -1000, 4096, -4096, 1e6, -1e6} {
			s := s
			r.Case("softmax shifts", func() string { return fmt.Sprint(x, "+", s) }, func(c *core.C) {
				y := make([]float64, 3)
				for i := range x {
					y[i] = x[i] + s
				}
				c.State(core.HashF(10, y...))
				a, b := nn.Softmax(mat(M{x})), nn.Softmax(mat(M{y}))
				c.Trace()
				c.Step(2)
				if !core.CloseM(a.M, b.M, 1e-8) {
					c.Failf("softmax(%v) = %v, but shifted by %v it is %v", x, a.M, s, b.M)
				}
			})
		}
	})
	// sigmoid, ReLU, leaky ReLU
	var S []float64
	S = append(S, E...)
	step := pick(r.Max, 0.001, pick(r.Thorough, 0.01, 0.125))
	for v := -760.0; v <= 760; v += step {
		S = append(S, v)
	}
	for e := -320.0; e < 309; e++ {
		S = append(S, math.Pow(10, e), -math.Pow(10, e))
	}
	r.Case("sigmoid monotone", func() string { return "all values in order" }, func(c *core.C) {
		s := append([]float64{}, S...)
		sort.Float64s(s)
		o := nn.Sigmoid(mat(M{s})).M[0]
		c.Trace()
		c.Step(1)
		for i := 1; i < len(s); i++ {
			if !(o[i] >= o[i-1]) {
				c.Failf("sigmoid decreases from %v at %v to %v at %v", o[i-1], s[i-1], o[i], s[i])
			}
		}
		l := idLayer(ref.Sigmoid, 1)
		p, err := l.L.Forward(mat(ref.T(M{s})))
		c.Trace()
		c.Step(1)
		noErr(c, "sigmoid layer", err)
		for i := range s {
			if math.Abs(p.M[i][0]-ref.SigmoidF(s[i])) > 1e-12 || !(p.M[i][0] >= 0 && p.M[i][0] <= 1) {
				c.Failf("sigmoid layer at %v gives %v", s[i], p.M[i][0])
			}
		}
	})
	sl := idLayer(ref.Sigmoid, 1)
	leaky := map[float64]*LH{}
	slopes := []float64{0, 1e-300, 1e-9, 0.01, 0.5, 0.99, 1, 1.5, 3, 1e6}
	for _, s := range slopes {
		leaky[s] = fromRef(&ref.Layer{Kind: ref.Leaky, In: 1, Out: 1, Slope: s, W: M{{1}}, B: []float64{0}})
	}
	relu := idLayer(ref.Hidden, 1)
	drop := idLayer(ref.Dropout, 1)
	for i := range S {
		x := S[i]
		r.Case("single values", func() string { return fmt.Sprint(x) }, func(c *core.C) {
			c.State(core.HashF(11, x))
			s := nn.Sigmoid(mat(M{{x}})).M[0][0]
			t := nn.Sigmoid(mat(M{{-x}})).M[0][0]
			if !(s >= 0 && s <= 1) || math.Abs(s+t-1) > 1e-12 || math.Abs(s-ref.SigmoidF(x)) > 1e-12 {
				c.Failf("sigmoid(%v) = %v, sigmoid(%v) = %v", x, s, -x, t)
			}
			X := mat(M{{x}})
			o, err := sl.L.Forward(X)
			noErr(c, "sigmoid layer", err)
			if math.Abs(o.M[0][0]-s) > 1e-12 {
				c.Failf("sigmoid layer at %v gives %v", x, o.M[0][0])
			}
			for _, d := range []float64{1, -1, 0.25} {
				dW, dB, dX, err := sl.L.Backward(X, mat(M{{d}}))
				noErr(c, "sigmoid backward", err)
				g := d * ref.SigmoidF(x) * ref.SigmoidF(-x)
				for _, v := range []float64{dW.M[0][0], dB.M[0][0], dX.M[0][0]} {
					if math.IsNaN(v) || math.IsInf(v, 0) {
						c.Failf("sigmoid gradient at %v is %v", x, v)
					}
				}
				if math.Abs(dB.M[0][0]-g) > 1e-12 || math.Abs(dX.M[0][0]-g) > 1e-12 {
					c.Failf("sigmoid gradient at %v is %v, want %v", x, dB.M[0][0], g)
				}
			}
			w := math.Max(x, 0)
			for n, v := range []float64{nn.RELU(mat(M{{x}})).M[0][0], must1(relu.L.Forward(X)), must1(drop.drop.ForwardNoDropout(X))} {
				if v != w {
					c.Failf("ReLU variant %d at %v gives %v", n, x, v)
				}
			}
			for _, sp := range slopes {
				w := x
				if x < 0 {
					w = x * sp
				}
				for n, v := range []float64{nn.LeakyRELU(mat(M{{x}}), sp).M[0][0], must1(leaky[sp].L.Forward(X))} {
					if v != w {
						c.Failf("leaky ReLU variant %d (slope %v) at %v gives %v, want %v", n, sp, x, v, w)
					}
				}
			}
			c.Trace()
			c.Step(12 + 2*len(slopes))
		})
	}
	structured08(r, softCase, slopes)
	// a model ending in softmax or sigmoid, reached through large weights
	for _, kind := range []int{ref.Softmax, ref.Sigmoid} {
		for _, scale := range []float64{1, 1e2, 1e3, 1e6, 1e150} {
			for _, in := range []int{1, 2, 3} {
				kind, scale, in := kind, scale, in
				r.Case("models with large weights", func() string { return fmt.Sprintf("%s weights up to %v", ref.KindName[kind], scale) }, func(c *core.C) {
					c.State(core.Hash("model", kind, scale, in))
					n := &ref.Net{Loss: pick(kind == ref.Softmax, ref.CE, ref.BCE), Layers: []*ref.Layer{refLayer(ref.Linear, in, 3, 1), refLayer(kind, 3, 3, 2)}}
					for _, row := range n.Layers[1].W {
						for j := range row {
							row[j] *= scale
						}
					}
					h := buildModel(n, sgd(0.1, 0, 0), 0, 0.1)
					X, y := mat(genM(4, in, 5)), labels(n.Loss, 4, 3, 1)
					p, err := h.Mod.Predict(X)
					noErr(c, "Predict", err)
					for i := range p.M {
						s := 0.0
						for _, v := range p.M[i] {
							if !(v >= 0 && v <= 1) {
								c.Failf("prediction %v", p.M[i])
							}
							s += v
						}
						if kind == ref.Softmax && math.Abs(s-1) > 1e-9 {
							c.Failf("prediction %v does not sum to 1", p.M[i])
						}
					}
					l, err := h.Mod.CalculateLoss(X, mat(y))
					noErr(c, "CalculateLoss", err)
					if math.IsNaN(l) || math.IsInf(l, 0) {
						c.Failf("loss %v", l)
					}
					outs, err := h.Mod.Forward(X, true)
					noErr(c, "Forward", err)
					gs, err := h.Mod.Backward(outs, mat(y))
					noErr(c, "Backward", err)
					c.Trace()
					c.Step(4)
					for _, g := range gs {
						for _, m := range []nn.Matrix{g.DWeights, g.DBiases} {
							for i := range m.M {
								for _, v := range m.M[i] {
									if math.IsNaN(v) || math.IsInf(v, 0) {
										c.Failf("gradient %v", v)
									}
								}
							}
						}
					}
				})
			}
		}
	}
}

// structured08: structured matrices, scaled up to extremes, through the
// activation functions and the layers.
func structured08(r *core.Run, softCase func(*core.C, M), slopes []float64) {
	scales := []float64{1, 30, 700, 1e4, 1e200}
	shapes := [][2]int{{1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 4}, {4, 2}, {1, 7}, {5, 5}}
	for k := range patNames {
		for _, f := range scales {
			for _, sh := range shapes {
				k, f, sh := k, f, sh
				r.Case("structured activations", func() string { return fmt.Sprint(patNames[k], " times ", f, " ", sh) }, func(c *core.C) {
					x := pattern(k, sh[0], sh[1], 4)
					for i := range x {
						for j := range x[i] {
							x[i][j] *= f
						}
					}
					c.State(core.HashM(21, x))
					softCase(c, x)
					relu, sig := nn.RELU(mat(x)), nn.Sigmoid(mat(x))
					if !shapeOK(relu, sh[0], sh[1]) || !shapeOK(sig, sh[0], sh[1]) {
						c.Failf("activation changed the shape")
					}
					sl, hl, dl := idLayer(ref.Sigmoid, sh[1]), idLayer(ref.Hidden, sh[1]), idLayer(ref.Dropout, sh[1])
					so, err := sl.L.Forward(mat(x))
					noErr(c, "sigmoid layer", err)
					ho, err := hl.L.Forward(mat(x))
					noErr(c, "hidden layer", err)
					do, err := dl.drop.ForwardNoDropout(mat(x))
					noErr(c, "dropout layer", err)
					for i := range x {
						for j, v := range x[i] {
							w := math.Max(v, 0)
							if relu.M[i][j] != w || ho.M[i][j] != w || do.M[i][j] != w {
								c.Failf("ReLU of %v gives %v, %v, %v", v, relu.M[i][j], ho.M[i][j], do.M[i][j])
							}
							w = ref.SigmoidF(v)
							if !(math.Abs(sig.M[i][j]-w) <= 1e-12) || !(math.Abs(so.M[i][j]-w) <= 1e-12) || !(so.M[i][j] >= 0 && so.M[i][j] <= 1 && sig.M[i][j] >= 0 && sig.M[i][j] <= 1) {
								c.Failf("sigmoid of %v gives %v, %v, want %v", v, sig.M[i][j], so.M[i][j], w)
							}
						}
					}
					for _, sp := range slopes {
						ll := fromRef(&ref.Layer{Kind: ref.Leaky, In: sh[1], Out: sh[1], Slope: sp, W: identity(sh[1]), B: make([]float64, sh[1])})
						a := nn.LeakyRELU(mat(x), sp)
						b, err := ll.L.Forward(mat(x))
						noErr(c, "leaky layer", err)
						for i := range x {
							for j, v := range x[i] {
								w := v
								if v < 0 {
									w = v * sp
								}
								if a.M[i][j] != w || b.M[i][j] != w {
									c.Failf("leaky ReLU (slope %v) of %v gives %v, %v, want %v", sp, v, a.M[i][j], b.M[i][j], w)
								}
							}
						}
					}
					d := genM(sh[0], sh[1], 6)
					dW, dB, dX, err := sl.L.Backward(mat(x), mat(d))
					noErr(c, "sigmoid backward", err)
					for _, g := range []nn.Matrix{dW, dB, dX} {
						for i := range g.M {
							for _, v := range g.M[i] {
								if math.IsNaN(v) || math.IsInf(v, 0) {
									c.Failf("sigmoid gradient %v for input %s", v, str(x))
								}
							}
						}
					}
					for i := range x {
						for j, v := range x[i] {
							if w := d[i][j] * ref.SigmoidF(v) * ref.SigmoidF(-v); !(math.Abs(dX.M[i][j]-w) <= 1e-12) {
								c.Failf("sigmoid gradient at %v is %v, want %v", v, dX.M[i][j], w)
							}
						}
					}
					c.Trace()
					c.Step(7 + 2*len(slopes))
				})
			}
		}
		// shift invariance, through the function and through the biases of a layer
		for _, n := range []int{2, 3, 5} {
			for _, s := range []float64{1, -1, 30, -30, 88, 500, -500, 709, 720, -720, -745, 1000, -1000, 1e6, -1e6} {
				k, n, s := k, n, s
				r.Case("structured shifts", func() string { return fmt.Sprint(patNames[k], " of ", n, " plus ", s) }, func(c *core.C) {
					x := pattern(k, 2, n, 4)
					for i := range x {
						for j := range x[i] {
							x[i][j] = math.Max(math.Min(x[i][j], 1e4), -1e4)
						}
					}
					y := ref.Map(x, func(v float64) float64 { return v + s })
					c.State(core.HashM(22, y))
					a, b := nn.Softmax(mat(x)), nn.Softmax(mat(y))
					rl := &ref.Layer{Kind: ref.Softmax, In: n, Out: n, W: identity(n), B: make([]float64, n)}
					for i := range rl.B {
						rl.B[i] = s
					}
					o, err := fromRef(rl).L.Forward(mat(x))
					noErr(c, "softmax layer", err)
					c.Trace()
					c.Step(3)
					if !core.CloseM(a.M, b.M, 1e-8) || !core.CloseM(a.M, o.M, 1e-8) {
						c.Failf("softmax of %s is %s, but shifted by %v it is %s and %s", str(x), str(a.M), s, str(b.M), str(o.M))
					}
				})
			}
		}
	}
}

func must1(m nn.Matrix, err error) float64 {
	if err != nil {
		panic(err)
	}
	return m.M[0][0]
}
