package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() {
	checks["C03"] = c03
}

// raw shape with possibly zero sizes: the zero matrix
func shapeM(rows, cols, seed int) (nn.Matrix, M) {
	if rows == 0 || cols == 0 {
		return nn.Matrix{}, nil
	}
	m := genM(rows, cols, seed)
	return mat(m), m
}

// intact fails if an argument was changed.
func intact(c *core.C, what string, m nn.Matrix, v M) {
	if v == nil {
		if m.Rows != 0 || m.Cols != 0 || len(m.M) != 0 {
			c.Failf("%s: an empty argument was changed", what)
		}
		return
	}
	untouched(c, what, m, v)
}

// must checks that err is non-nil exactly when bad.
func must(c *core.C, what string, err error, bad bool) {
	if bad && err == nil {
		c.Failf("%s: accepted, want an error", what)
	}
	if !bad && err != nil {
		c.Failf("%s: refused a valid call: %v", what, err)
	}
}

func c03(r *core.Run) {
	r.Rule = "cases: every combination of argument shapes 0-3 (0 is the empty matrix) for every entry point, layer kind, loss, optimizer and a set of models, after every short history of valid calls; the rejected call must be an error without effect: a twin object that did not get the call behaves bit-identically afterwards; states are distinct (entry point, history, shapes)"
	r.Assume("not specified: empty training sets, fractional one-hot labels, backward of a linear layer without a forward pass (it keeps no state), sizes of validation data that is never evaluated (log interval 0)")
	c03matrix(r)
	c03layers(r)
	c03losses(r)
	c03opts(r)
	c03onehot(r)
	c03models(r)
	c03sweep(r)
	c03inserted(r)
}

// c03sweep: sizes that differ by little or by a factor, at many sizes.
func c03sweep(r *core.Run) {
	for _, n := range append(sizesUpTo(pick(r.Max, 300, pick(r.Thorough, 140, 40))), 63, 64, 65, 127, 128, 129, 255, 256, 257) {
		var others []int
		for _, o := range []int{n - 1, n + 1, 2 * n, n / 2, n + 64, n + 128, n + 256, n + 1<<16} {
			if o >= 1 && o != n && (o < 1<<16 || n <= 3 || n == 10) {
				others = append(others, o)
			}
		}
		for _, o := range others {
			n, o := n, o
			r.Case("sizes", func() string { return fmt.Sprintf("%d instead of %d", o, n) }, func(c *core.C) {
				c.State(core.Hash("sizes", n, o))
				bad := func(what string, err error) {
					c.Step(1)
					must(c, what, err, true)
				}
				Z := func(r, k int) nn.Matrix { m, _ := nn.NewMatrix(r, k); return m }
				a := Z(n, 2)
				_, err := a.Add(Z(o, 2))
				bad("Add of other rows", err)
				_, err = a.Sub(Z(o, 2))
				bad("Sub of other rows", err)
				_, err = a.Dot(Z(n, 1))
				if n != 2 {
					bad("Dot", err)
				}
				b := Z(2, n)
				_, err = b.Add(Z(2, o))
				bad("Add of other columns", err)
				_, err = b.Sub(Z(2, o))
				bad("Sub of other columns", err)
				_, err = b.Dot(Z(o, 2))
				bad("Dot", err)
				for _, k := range kindCfgs {
					h := fromRef(k.layer(n, 2, 1))
					_, err := h.infer(Z(2, o))
					bad(fmt.Sprint(k, " forward with other features"), err)
					h = fromRef(k.layer(2, n, 1))
					X := mat(genM(2, 2, 1))
					_, err = h.infer(X)
					noErr(c, "forward", err)
					_, _, _, err = h.L.Backward(X, Z(2, o))
					bad(fmt.Sprint(k, " backward with other outputs"), err)
					Y := mat(genM(n, 2, 1))
					_, err = h.infer(Y)
					noErr(c, "forward", err)
					_, _, _, err = h.L.Backward(Y, Z(o, n))
					bad(fmt.Sprint(k, " backward with other rows"), err)
					_, _, _, err = h.L.Backward(mat(genM(o, 2, 1)), Z(n, n))
					bad(fmt.Sprint(k, " backward with an input of other rows"), err)
					if n <= 65 {
						_, _, _, err = h.L.Backward(Y, Z(n, n))
						noErr(c, "backward after the refused ones", err)
					}
				}
				for kind := 0; kind < ref.NLosses; kind++ {
					l := mustLoss(kind, n)
					_, err := l.Forward(Z(2, o), Z(2, o))
					bad("loss of another size", err)
					_, err = l.Forward(Z(2, n), Z(2, o))
					bad("loss with labels of another size", err)
					_, err = l.Backward(Z(2, o), Z(2, o))
					bad("loss gradient of another size", err)
					_, err = l.Backward(Z(2, n), Z(2, o))
					bad("loss gradient with labels of another size", err)
					l = mustLoss(kind, 2)
					_, err = l.Forward(Z(n, 2), Z(o, 2))
					bad("loss with labels of other rows", err)
					_, err = l.Backward(Z(n, 2), Z(o, 2))
					bad("loss gradient with labels of other rows", err)
				}
				for _, ro := range []*ref.Opt{sgd(0.1, 0, 0), sgd(0.1, 0, 0.9), adam(0.1, 0)} {
					for t := 0; t < 2; t++ {
						W, B := Z(2, n), Z(1, n)
						op := mustOpt(ro)
						if t == 1 {
							noErr(c, "Update", op.Update(&W, &B, Z(2, n), Z(1, n)))
						}
						bad("Update with other columns", op.Update(&W, &B, Z(2, o), Z(1, n)))
						bad("Update with other biases", op.Update(&W, &B, Z(2, n), Z(1, o)))
						W, B = Z(n, 2), Z(1, 2)
						op = mustOpt(ro)
						bad("Update with other rows", op.Update(&W, &B, Z(o, 2), Z(1, 2)))
					}
				}
				lab := Z(n, 1)
				lab.M[n-1][0] = float64(n)
				_, err = nn.SparseToOneHot(lab, n)
				bad("SparseToOneHot with the number of classes as label", err)
			})
		}
	}
}

// c03inserted: histories of valid calls with refused ones inserted at every
// position, against the history without them.
func c03inserted(r *core.Run) {
	opts := []*ref.Opt{sgd(0.1, 0, 0), sgd(0.1, 0.3, 0), sgd(0.1, 0, 0.9), sgd(0.1, 0.2, 0.5), adam(0.1, 0), adam(0.1, 0.2)}
	bads := [][4]int{{2, 2, 1, 3}, {3, 3, 1, 3}, {2, 3, 1, 2}, {2, 3, 2, 3}, {3, 2, 1, 3}, {0, 0, 1, 3}, {2, 3, 0, 0}, {2, 4, 1, 4}, {1, 3, 1, 3}}
	steps := pick(r.Max, 7, pick(r.Thorough, 6, 4))
	for oi, ro := range opts {
		for bi, bd := range bads {
			for mask := 1; mask < 1<<(steps+1); mask++ {
				oi, ro, bi, bd, mask := oi, ro, bi, bd, mask
				r.Case("updates with refused ones between", func() string { return fmt.Sprintf("%s, shapes %v at positions %b", optName(ro), bd, mask) }, func(c *core.C) {
					c.State(core.Hash("ins", oi, bi, mask))
					c.Trace()
					run := func(mask int) (M, M) {
						o := mustOpt(ro)
						W, B := mat(genM(2, 3, 1)), mat(genM(1, 3, 2))
						for t := 0; t <= steps; t++ {
							if mask>>t&1 != 0 {
								D, _ := shapeM(bd[0], bd[1], 50)
								E, _ := shapeM(bd[2], bd[3], 51)
								must(c, "Update", o.Update(&W, &B, D, E), true)
								c.Step(1)
							}
							if t < steps {
								noErr(c, "Update", o.Update(&W, &B, mat(genM(2, 3, 10+t)), mat(genM(1, 3, 20+t))))
							}
						}
						return val(W), val(B)
					}
					w1, b1 := run(mask)
					w2, b2 := run(0)
					if !core.BitsM(w1, w2) || !core.BitsM(b1, b2) {
						c.Failf("parameters %v %v, without the refused updates %v %v", w1, b1, w2, b2)
					}
				})
			}
		}
	}
	type call struct {
		name string
		f    func(m *MH, net *ref.Net) error
	}
	Z := func(r, k int) nn.Matrix { x, _ := shapeM(r, k, 60); return x }
	lab := func(net *ref.Net, rows, cols int) nn.Matrix { return mat(labels(net.Loss, rows, cols, 3)) }
	E := nn.Matrix{}
	calls := []call{
		{"Predict other features", func(m *MH, n *ref.Net) error { _, err := m.Mod.Predict(Z(2, 3)); return err }},
		{"Predict nothing", func(m *MH, n *ref.Net) error { _, err := m.Mod.Predict(E); return err }},
		{"CalculateLoss other rows", func(m *MH, n *ref.Net) error { _, err := m.Mod.CalculateLoss(Z(2, 2), lab(n, 3, 3)); return err }},
		{"CalculateLoss other labels", func(m *MH, n *ref.Net) error { _, err := m.Mod.CalculateLoss(Z(2, 2), lab(n, 2, 2)); return err }},
		{"CalculateAccuracy other rows", func(m *MH, n *ref.Net) error { _, err := m.Mod.CalculateAccuracy(Z(2, 2), lab(n, 1, 3)); return err }},
		{"Fit other rows", func(m *MH, n *ref.Net) error { return m.Mod.Fit(Z(4, 2), lab(n, 3, 3), 1, 2, E, E, 0) }},
		{"Fit other features", func(m *MH, n *ref.Net) error { return m.Mod.Fit(Z(4, 3), lab(n, 4, 3), 1, 2, E, E, 0) }},
		{"Fit other labels", func(m *MH, n *ref.Net) error { return m.Mod.Fit(Z(4, 2), lab(n, 4, 2), 1, 2, E, E, 0) }},
		{"Fit negative batch size", func(m *MH, n *ref.Net) error { return m.Mod.Fit(Z(4, 2), lab(n, 4, 3), 1, -1, E, E, 0) }},
		{"Fit other validation rows", func(m *MH, n *ref.Net) error { return m.Mod.Fit(Z(4, 2), lab(n, 4, 3), 2, 2, Z(3, 2), lab(n, 2, 3), 1) }},
		{"Fit other validation labels", func(m *MH, n *ref.Net) error { return m.Mod.Fit(Z(4, 2), lab(n, 4, 3), 2, 2, Z(3, 2), lab(n, 3, 2), 2) }},
		{"Forward other features", func(m *MH, n *ref.Net) error { _, err := m.Mod.Forward(Z(2, 1), true); return err }},
		{"Backward without outputs", func(m *MH, n *ref.Net) error { _, err := m.Mod.Backward(nil, lab(n, 2, 3)); return err }},
		{"AddLayer that does not fit", func(m *MH, n *ref.Net) error { return m.Mod.AddLayer(fromRef(refLayer(ref.Linear, 7, 2, 1)).L) }},
		{"Finalize with a loss that does not fit", func(m *MH, n *ref.Net) error {
			return m.Mod.Finalize(mustLoss(ref.MSE, 9), mustOpt(sgd(0.1, 0, 0)), 0, 0.1)
		}},
		{"Finalize with a negative precision", func(m *MH, n *ref.Net) error {
			return m.Mod.Finalize(mustLoss(n.Loss, 3), mustOpt(sgd(0.1, 0, 0)), 0, -0.1)
		}},
	}
	for ni, net := range modelNets() {
		for oi, ro := range []*ref.Opt{sgd(0.1, 0.1, 0.9), adam(0.05, 0.1)} {
			for bi := 0; bi <= len(calls); bi++ {
				for mask := 1; mask < 16; mask++ {
					ni, net, oi, ro, bi, mask := ni, net, oi, ro, bi, mask
					r.Case("trainings with refused calls between", func() string {
						w := "every one"
						if bi < len(calls) {
							w = calls[bi].name
						}
						return fmt.Sprintf("%s %s: %s at positions %b", netName(net), optName(ro), w, mask)
					}, func(c *core.C) {
						c.State(core.Hash("insm", ni, oi, bi, mask))
						c.Trace()
						run := func(mask int) []M {
							h := buildModel(net, ro, 0, 0.5)
							X, Y := mat(genM(5, 2, 1)), mat(labels(net.Loss, 5, 3, 1))
							var res []M
							for t := 0; t < 4; t++ {
								if mask>>t&1 != 0 {
									for k := range calls {
										if k == bi || bi == len(calls) {
											must(c, calls[k].name, calls[k].f(h, net), true)
											c.Step(1)
										}
									}
								}
								noErr(c, "Fit", h.Mod.Fit(X, Y, 1, 2, E, E, 0))
								p, err := h.Mod.Predict(X)
								noErr(c, "Predict", err)
								l, err := h.Mod.CalculateLoss(X, Y)
								noErr(c, "CalculateLoss", err)
								res = append(res, val(p), M{{l}})
							}
							for _, q := range h.params() {
								res = append(res, M{q})
							}
							return res
						}
						if !sameAll(run(mask), run(0)) {
							c.Failf("the refused calls change what follows")
						}
					})
				}
			}
		}
	}
}

func c03matrix(r *core.Run) {
	S := shapes(4)
	for _, p := range S {
		for _, q := range S {
			p, q := p, q
			r.Case("matrix operations", func() string { return fmt.Sprint(p, q) }, func(c *core.C) {
				c.State(core.Hash("mat", p, q))
				a, b := genM(p[0], p[1], 1), genM(q[0], q[1], 2)
				A, B := mat(a), mat(b)
				_, err := A.Add(B)
				must(c, "Add", err, p != q)
				_, err = A.Sub(B)
				must(c, "Sub", err, p != q)
				_, err = A.Dot(B)
				must(c, "Dot", err, p[1] != q[0])
				c.Step(3)
				untouched(c, "left operand", A, a)
				untouched(c, "right operand", B, b)
			})
		}
	}
}

// layerHist are histories before the bad call: 0 none, k>0 forward of k rows, 10+k forward and backward.
var layerHist = []int{0, 1, 2, 3, 12, 13}

func runHist(c *core.C, h *LH, k int) (rows int) {
	if k == 0 {
		return 0
	}
	rows = k % 10
	X := mat(genM(rows, h.In, 77))
	_, err := h.infer(X)
	noErr(c, "forward", err)
	if k >= 10 {
		_, _, _, err := h.L.Backward(X, mat(genM(rows, h.Out, 78)))
		noErr(c, "backward", err)
	}
	return rows
}

// afterwards runs the calls that must be unaffected and returns all results.
func afterwards(c *core.C, h *LH, rows int) []M {
	var o []M
	keep := func(ms ...nn.Matrix) {
		for _, m := range ms {
			o = append(o, val(m))
		}
	}
	if rows > 0 {
		a, b, d, err := h.L.Backward(mat(genM(rows, h.In, 77)), mat(genM(rows, h.Out, 79)))
		noErr(c, "pending backward after a rejected call", err)
		keep(a, b, d)
	}
	for _, n := range []int{2, 1, 3} {
		X := mat(genM(n, h.In, 80+n))
		y, err := h.infer(X)
		noErr(c, "forward after a rejected call", err)
		a, b, d, err := h.L.Backward(X, mat(genM(n, h.Out, 90+n)))
		noErr(c, "backward after a rejected call", err)
		keep(y, a, b, d)
	}
	w, b := h.raw()
	o = append(o, w, M{b})
	return o
}

func sameAll(a, b []M) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !core.BitsM(a[i], b[i]) {
			return false
		}
	}
	return true
}

func c03layers(r *core.Run) {
	kinds := []kindCfg{{ref.Hidden, 0, 0}, {ref.Linear, 0, 0}, {ref.Sigmoid, 0, 0}, {ref.Leaky, 0.1, 0}, {ref.Leaky, 0, 0}, {ref.Softmax, 0, 0}, {ref.Dropout, 0, 0.5}, {ref.Dropout, 0, 0}}
	sz := [][2]int{{2, 3}, {1, 1}, {3, 2}, {2, 2}}
	if r.Thorough {
		sz = shapes(4)
	}
	n := pick(r.Max, 6, pick(r.Thorough, 5, 4))
	for _, k := range kinds {
		for _, s := range sz {
			for _, hist := range layerHist {
				k, s, hist := k, s, hist
				twin := func(c *core.C, bad func(h *LH, rows int) (string, error, bool, bool)) {
					rl := k.layer(s[0], s[1], 4)
					h := fromRef(rl)
					rows := runHist(c, h, hist)
					what, err, mustFail, any := bad(h, rows)
					c.Step(1)
					if !any {
						must(c, what, err, mustFail)
					}
					if err == nil {
						return
					}
					w, b := h.params(c)
					if !core.BitsM(w, rl.W) || !core.BitsM(M{b}, M{rl.B}) {
						c.Failf("%s: refused, but the parameters changed", what)
					}
					t := fromRef(rl)
					runHist(c, t, hist)
					c.Trace()
					if !sameAll(afterwards(c, h, rows), afterwards(c, t, rows)) {
						c.Failf("%s: after the refused call the layer behaves differently", what)
					}
				}
				for rows := 0; rows < n; rows++ {
					for cols := 0; cols <= n; cols++ {
						rows, cols := rows, cols
						if (rows == 0) != (cols == 0) {
							continue
						}
						r.Case("layer forward", func() string { return fmt.Sprintf("%v %v history %d X %dx%d", k, s, hist, rows, cols) }, func(c *core.C) {
							c.State(core.Hash("fwd", k, s, hist, rows, cols))
							for v := 0; v < 2; v++ {
								if v == 1 && k.kind != ref.Dropout {
									continue
								}
								twin(c, func(h *LH, _ int) (string, error, bool, bool) {
									X, x := shapeM(rows, cols, 3)
									var err error
									if v == 1 {
										_, err = h.drop.Forward(X)
									} else {
										_, err = h.infer(X)
									}
									intact(c, "the input", X, x)
									return "forward", err, cols != s[0], false
								})
							}
						})
					}
				}
				dim := make([]int, 4)
				for i := range dim {
					dim[i] = n
				}
				product(dim, func(ix []int) {
					xr, xc, dr, dc := ix[0], ix[1], ix[2], ix[3]
					if (xr == 0) != (xc == 0) || (dr == 0) != (dc == 0) {
						return
					}
					r.Case("layer backward", func() string {
						return fmt.Sprintf("%v %v history %d X %dx%d D %dx%d", k, s, hist, xr, xc, dr, dc)
					}, func(c *core.C) {
						c.State(core.Hash("bwd", k, s, hist, ix))
						twin(c, func(h *LH, last int) (string, error, bool, bool) {
							X, x := shapeM(xr, xc, 5)
							D, d := shapeM(dr, dc, 6)
							_, _, _, err := h.L.Backward(X, D)
							intact(c, "the input", X, x)
							intact(c, "the gradient", D, d)
							fits := xc == s[0] && dc == s[1] && xr == dr
							if k.kind == ref.Linear {
								return "backward", err, !fits, fits && dr != last
							}
							return "backward", err, !(fits && dr == last), false
						})
					})
				})
				if k.kind != ref.Softmax {
					continue
				}
				dim6 := []int{n - 1, n, n - 1, n, n - 1, n}
				if !r.Thorough {
					if s != [2]int{2, 3} || hist != 2 {
						continue
					}
				}
				product(dim6, func(ix []int) {
					for i := 0; i < 6; i += 2 {
						if (ix[i] == 0) != (ix[i+1] == 0) {
							return
						}
					}
					r.Case("fused softmax backward", func() string { return fmt.Sprintf("%v history %d shapes %v", s, hist, ix) }, func(c *core.C) {
						c.State(core.Hash("fused", s, hist, ix))
						twin(c, func(h *LH, last int) (string, error, bool, bool) {
							X, x := shapeM(ix[0], ix[1], 5)
							Y, y := shapeM(ix[2], ix[3], 6)
							D, d := shapeM(ix[4], ix[5], 7)
							_, _, _, err := h.soft.BackwardCrossEntropy(X, Y, D)
							intact(c, "X", X, x)
							intact(c, "Y", Y, y)
							intact(c, "outputs", D, d)
							fits := ix[1] == s[0] && ix[3] == s[1] && ix[5] == s[1] && ix[0] == ix[2] && ix[2] == ix[4]
							return "BackwardCrossEntropy", err, !fits, fits
						})
					})
				})
			}
		}
	}
}

func c03losses(r *core.Run) {
	n := pick(r.Max, 7, pick(r.Thorough, 6, 5))
	for kind := 0; kind < ref.NLosses; kind++ {
		for size := 1; size < n; size++ {
			kind, size := kind, size
			product([]int{n, n, n, n}, func(ix []int) {
				pr, pc, yr, yc := ix[0], ix[1], ix[2], ix[3]
				if (pr == 0) != (pc == 0) || (yr == 0) != (yc == 0) {
					return
				}
				r.Case("losses", func() string {
					return fmt.Sprintf("%s size %d p %dx%d y %dx%d", ref.LossName[kind], size, pr, pc, yr, yc)
				}, func(c *core.C) {
					c.State(core.Hash("loss", kind, size, ix))
					l := mustLoss(kind, size)
					P, p := shapeM(pr, pc, 3)
					for i := range p {
						for j := range p[i] {
							p[i][j] = 0.5 + p[i][j]*0.4
							P.M[i][j] = p[i][j]
						}
					}
					Y, y := shapeM(yr, yc, 4)
					if y != nil && kind >= ref.CE {
						y = oneHot(yr, yc, 1)
						Y = mat(y)
					}
					bad := !(pc == size && yc == size && pr == yr)
					for k := 0; k < 2; k++ { // twice: the object has no memory of the refusal
						v, err := l.Forward(P, Y)
						must(c, "loss forward", err, bad)
						g, err2 := l.Backward(P, Y)
						must(c, "loss backward", err2, bad)
						c.Step(2)
						if !bad {
							if w := ref.Loss(kind, p, y); !core.Close(v, w, 1e-9) {
								c.Failf("loss %v, want %v", v, w)
							}
							wantM(c, "loss gradient", g, ref.LossGrad(kind, p, y), 1e-9)
						}
						intact(c, "predictions", P, p)
						intact(c, "labels", Y, y)
					}
					q, z := genM(3, size, 1), labels(kind, 3, size, 2)
					for i := range q {
						for j := range q[i] {
							q[i][j] = 0.5 + q[i][j]*0.4
						}
					}
					v, err := l.Forward(mat(q), mat(z))
					noErr(c, "valid loss forward afterwards", err)
					if w := ref.Loss(kind, q, z); !core.Close(v, w, 1e-9) {
						c.Failf("loss afterwards %v, want %v", v, w)
					}
				})
			})
		}
	}
}

func c03opts(r *core.Run) {
	opts := []*ref.Opt{sgd(0.1, 0, 0), sgd(0.1, 0.5, 0), sgd(0.1, 0, 0.9), sgd(0.1, 0.1, 0.5), adam(0.1, 0), adam(0.1, 0.1)}
	n := pick(r.Max, 6, pick(r.Thorough, 5, 4))
	base := [][2]int{{2, 3}, {1, 1}, {2, 2}}
	for oi, ro := range opts {
		for _, s := range base {
			for hist := 0; hist <= 2; hist++ {
				oi, ro, s, hist := oi, ro, s, hist
				product([]int{n, n, n, n}, func(ix []int) {
					if (ix[0] == 0) != (ix[1] == 0) || (ix[2] == 0) != (ix[3] == 0) {
						return
					}
					r.Case("optimizers", func() string {
						return fmt.Sprintf("%s weights %v after %d updates, dW %dx%d dB %dx%d", optName(ro), s, hist, ix[0], ix[1], ix[2], ix[3])
					}, func(c *core.C) {
						c.State(core.Hash("opt", oi, s, hist, ix))
						c.Trace()
						run := func(withBad bool) (M, M) {
							o := mustOpt(ro)
							w, b := genM(s[0], s[1], 1), genM(1, s[1], 2)
							W, B := mat(w), mat(b)
							for k := 0; k < hist; k++ {
								noErr(c, "Update", o.Update(&W, &B, mat(genM(s[0], s[1], 10+k)), mat(genM(1, s[1], 20+k))))
							}
							if withBad {
								w, b = val(W), val(B)
								D, d := shapeM(ix[0], ix[1], 5)
								E, e := shapeM(ix[2], ix[3], 6)
								err := o.Update(&W, &B, D, E)
								c.Step(1)
								bad := !(ix[0] == s[0] && ix[1] == s[1] && ix[2] == 1 && ix[3] == s[1])
								must(c, "Update", err, bad)
								intact(c, "weight gradient", D, d)
								intact(c, "bias gradient", E, e)
								if !bad {
									return nil, nil
								}
								untouched(c, "weights after a refused update", W, w)
								untouched(c, "biases after a refused update", B, b)
							}
							for k := 0; k < 3; k++ {
								noErr(c, "Update after a refused one", o.Update(&W, &B, mat(genM(s[0], s[1], 30+k)), mat(genM(1, s[1], 40+k))))
							}
							return val(W), val(B)
						}
						w1, b1 := run(true)
						if w1 == nil {
							return
						}
						w2, b2 := run(false)
						if !core.BitsM(w1, w2) || !core.BitsM(b1, b2) {
							c.Failf("updates after a refused one give %v %v, without it %v %v", w1, b1, w2, b2)
						}
					})
				})
				if hist > 0 && (ro.Adam || ro.Mom != 0) {
					for _, q := range shapes(3) {
						for _, qb := range append(shapes(3), [2]int{1, q[1]}) {
							q, qb := q, qb
							if q == s && qb == [2]int{1, s[1]} {
								continue
							}
							r.Case("optimizer used for parameters of another shape", func() string { return fmt.Sprintf("%s %v then %v and %v", optName(ro), s, q, qb) }, func(c *core.C) {
								c.State(core.Hash("optshape", oi, s, hist, q, qb))
								c.Trace()
								run := func(other bool) (M, M) {
									o := mustOpt(ro)
									W, B := mat(genM(s[0], s[1], 1)), mat(genM(1, s[1], 2))
									for k := 0; k < hist; k++ {
										noErr(c, "Update", o.Update(&W, &B, mat(genM(s[0], s[1], 10+k)), mat(genM(1, s[1], 20+k))))
									}
									if other {
										w, b := genM(q[0], q[1], 3), genM(qb[0], qb[1], 4)
										W2, B2 := mat(w), mat(b)
										err := o.Update(&W2, &B2, mat(genM(q[0], q[1], 5)), mat(genM(qb[0], qb[1], 6)))
										c.Step(1)
										must(c, "Update with other parameter shapes", err, true)
										untouched(c, "weights", W2, w)
										untouched(c, "biases", B2, b)
									}
									for k := 0; k < 2; k++ {
										noErr(c, "Update", o.Update(&W, &B, mat(genM(s[0], s[1], 30+k)), mat(genM(1, s[1], 40+k))))
									}
									return val(W), val(B)
								}
								w1, b1 := run(true)
								w2, b2 := run(false)
								if !core.BitsM(w1, w2) || !core.BitsM(b1, b2) {
									c.Failf("updates after a refused one give %v %v, without it %v %v", w1, b1, w2, b2)
								}
							})
						}
					}
				}
			}
		}
	}
}

func c03onehot(r *core.Run) {
	for size := -2; size <= 4; size++ {
		L := []float64{-1, -0.5, -0.999999, -1e-9, -5e-324, math.Copysign(0, -1), 0, 1, 2, 3, 4, 5, -2, 1e18, -1e18, inf, -inf, nan, float64(size), float64(size) - 1, float64(size) + 0.5, 1 << 31, 1 << 40}
		size := size
		for rows := 1; rows <= 3; rows++ {
			for pos := 0; pos < rows; pos++ {
				for li := range L {
					rows, pos, v := rows, pos, L[li]
					r.Case("one-hot", func() string { return fmt.Sprintf("size %d rows %d label %v at %d", size, rows, v, pos) }, func(c *core.C) {
						c.State(core.Hash("oh", size, rows, pos, v))
						x := ref.Zeros(rows, 1)
						x[pos][0] = v
						X := mat(x)
						o, err := nn.SparseToOneHot(X, size)
						c.Step(1)
						bad := size <= 0 || !(v >= 0 && v < float64(size))
						must(c, "SparseToOneHot", err, bad)
						untouched(c, "labels", X, x)
						if !bad {
							want := ref.Zeros(rows, size)
							for i := range x {
								want[i][int(x[i][0])] = 1
							}
							wantSame(c, "one-hot labels", o, want)
						}
					})
				}
			}
		}
	}
}

// modelNets are the models of the model-level cases (deterministic).
func modelNets() []*ref.Net {
	mk := func(loss int, ls ...*ref.Layer) *ref.Net { return &ref.Net{Loss: loss, Layers: ls} }
	L := refLayer
	drop := func(in, out, seed int) *ref.Layer { l := L(ref.Dropout, in, out, seed); l.Rate = 0; return l }
	return []*ref.Net{
		mk(ref.MSE, L(ref.Linear, 2, 3, 1)),
		mk(ref.CE, L(ref.Hidden, 2, 3, 1), L(ref.Softmax, 3, 3, 2)),
		mk(ref.BCE, L(ref.Leaky, 2, 2, 1), L(ref.Sigmoid, 2, 3, 2)),
		mk(ref.MAE, drop(2, 4, 1), L(ref.Linear, 4, 3, 2)),
		mk(ref.CE, L(ref.Sigmoid, 2, 3, 3)),
		mk(ref.MSE, L(ref.Softmax, 2, 2, 3), L(ref.Hidden, 2, 3, 4), L(ref.Linear, 3, 3, 5)),
	}
}

func c03models(r *core.Run) {
	nets := modelNets()
	opts := []*ref.Opt{sgd(0.1, 0.1, 0.9), adam(0.05, 0.1)}
	n := 4
	type bad struct {
		name string
		// call returns the error; mustFail and any as for layers
		call func(c *core.C, h *MH, net *ref.Net, outs []nn.Matrix) (err error, mustFail, any bool)
	}
	var bads []bad
	add := func(name string, f func(c *core.C, h *MH, net *ref.Net, outs []nn.Matrix) (error, bool, bool)) {
		bads = append(bads, bad{name, f})
	}
	lab := func(net *ref.Net, rows, cols int) (nn.Matrix, M) {
		if rows == 0 || cols == 0 {
			return nn.Matrix{}, nil
		}
		y := labels(net.Loss, rows, cols, 3)
		return mat(y), y
	}
	for xr := 0; xr < n; xr++ {
		for xc := 0; xc < n+1; xc++ {
			if (xr == 0) != (xc == 0) {
				continue
			}
			xr, xc := xr, xc
			add(fmt.Sprintf("Forward X %dx%d", xr, xc), func(c *core.C, h *MH, net *ref.Net, outs []nn.Matrix) (error, bool, bool) {
				X, x := shapeM(xr, xc, 3)
				_, err := h.Mod.Forward(X, true)
				intact(c, "X", X, x)
				return err, xc != 2, false
			})
			add(fmt.Sprintf("Predict X %dx%d", xr, xc), func(c *core.C, h *MH, net *ref.Net, outs []nn.Matrix) (error, bool, bool) {
				X, x := shapeM(xr, xc, 3)
				_, err := h.Mod.Predict(X)
				intact(c, "X", X, x)
				return err, xc != 2, false
			})
			for yr := 0; yr < n; yr++ {
				for yc := 0; yc < n+1; yc++ {
					if (yr == 0) != (yc == 0) {
						continue
					}
					yr, yc := yr, yc
					fits := xc == 2 && yc == 3 && xr == yr && xr > 0
					for m := 0; m < 2; m++ {
						m := m
						add(fmt.Sprintf("%s X %dx%d Y %dx%d", []string{"CalculateLoss", "CalculateAccuracy"}[m], xr, xc, yr, yc), func(c *core.C, h *MH, net *ref.Net, outs []nn.Matrix) (error, bool, bool) {
							X, x := shapeM(xr, xc, 3)
							Y, y := lab(net, yr, yc)
							var err error
							if m == 0 {
								_, err = h.Mod.CalculateLoss(X, Y)
							} else {
								_, err = h.Mod.CalculateAccuracy(X, Y)
							}
							intact(c, "X", X, x)
							intact(c, "Y", Y, y)
							return err, !fits, false
						})
					}
					for _, batch := range []int{0, 1, 2, 5, -1, math.MinInt} {
						batch := batch
						add(fmt.Sprintf("Fit X %dx%d Y %dx%d batch %d", xr, xc, yr, yc, batch), func(c *core.C, h *MH, net *ref.Net, outs []nn.Matrix) (error, bool, bool) {
							X, x := shapeM(xr, xc, 3)
							Y, y := lab(net, yr, yc)
							if fits && batch >= 0 {
								return nil, false, true // a valid call: not a case here
							}
							err := h.Mod.Fit(X, Y, 2, batch, nn.Matrix{}, nn.Matrix{}, 0)
							intact(c, "X", X, x)
							intact(c, "Y", Y, y)
							return err, true, xr == 0 && yr == 0 && batch >= 0
						})
						if xr != yr || batch < 0 {
							add(fmt.Sprintf("Fit of no epochs X %dx%d Y %dx%d batch %d", xr, xc, yr, yc, batch), func(c *core.C, h *MH, net *ref.Net, outs []nn.Matrix) (error, bool, bool) {
								X, x := shapeM(xr, xc, 3)
								Y, y := lab(net, yr, yc)
								err := h.Mod.Fit(X, Y, 0, batch, nn.Matrix{}, nn.Matrix{}, 0)
								intact(c, "X", X, x)
								intact(c, "Y", Y, y)
								return err, true, false
							})
						}
					}
					// validation data of these shapes
					if yr > 0 && !fits {
						add(fmt.Sprintf("Fit with validation X %dx%d Y %dx%d", xr, xc, yr, yc), func(c *core.C, h *MH, net *ref.Net, outs []nn.Matrix) (error, bool, bool) {
							X, x := shapeM(xr, xc, 3)
							Y, y := lab(net, yr, yc)
							err := h.Mod.Fit(mat(genM(4, 2, 1)), mat(labels(net.Loss, 4, 3, 1)), 3, 2, X, Y, 2)
							intact(c, "xVal", X, x)
							intact(c, "yVal", Y, y)
							return err, true, false
						})
					}
				}
			}
		}
	}
	for yr := 0; yr < n; yr++ {
		for yc := 0; yc < n+1; yc++ {
			if (yr == 0) != (yc == 0) {
				continue
			}
			yr, yc := yr, yc
			add(fmt.Sprintf("Backward Y %dx%d", yr, yc), func(c *core.C, h *MH, net *ref.Net, outs []nn.Matrix) (error, bool, bool) {
				Y, y := lab(net, yr, yc)
				if outs == nil {
					return nil, false, true
				}
				_, err := h.Mod.Backward(outs, Y)
				intact(c, "Y", Y, y)
				return err, !(yr == outs[0].Rows && yc == 3), false
			})
		}
	}
	for k := 0; k < 3; k++ {
		k := k
		add(fmt.Sprintf("Backward with %d outputs missing", k+1), func(c *core.C, h *MH, net *ref.Net, outs []nn.Matrix) (error, bool, bool) {
			if outs == nil {
				_, err := h.Mod.Backward(nil, mat(labels(net.Loss, 2, 3, 1)))
				return err, true, false
			}
			m := len(outs) - 1 - k
			if m < 0 {
				m = 0
			}
			_, err := h.Mod.Backward(outs[:m], mat(labels(net.Loss, outs[0].Rows, 3, 1)))
			return err, true, false
		})
	}
	add("Backward with one output too many", func(c *core.C, h *MH, net *ref.Net, outs []nn.Matrix) (error, bool, bool) {
		if outs == nil {
			return nil, false, true
		}
		_, err := h.Mod.Backward(append(append([]nn.Matrix{}, outs...), outs[len(outs)-1]), mat(labels(net.Loss, outs[0].Rows, 3, 1)))
		return err, true, false
	})

	// histories: 0 none; 1 two epochs of training; 2 a pending forward pass; 3 both
	for ni, net := range nets {
		for oi, o := range opts {
			for hist := 0; hist < 4; hist++ {
				for bi := range bads {
					ni, net, oi, o, hist, b := ni, net, oi, o, hist, bads[bi]
					if !r.Thorough && (ni+oi+hist)%2 == 1 {
						continue
					}
					r.Case("models", func() string { return fmt.Sprintf("%s %s history %d: %s", netName(net), optName(o), hist, b.name) }, func(c *core.C) {
						c.State(core.Hash("model", ni, oi, hist, b.name))
						c.Trace()
						run := func(withBad bool) ([]M, bool) {
							h := buildModel(net, o, 0, 0.5)
							X, Y := mat(genM(4, 2, 1)), mat(labels(net.Loss, 4, 3, 1))
							if hist&1 != 0 {
								noErr(c, "Fit", h.Mod.Fit(X, Y, 2, 3, nn.Matrix{}, nn.Matrix{}, 0))
							}
							var outs []nn.Matrix
							var err error
							if hist&2 != 0 {
								outs, err = h.Mod.Forward(mat(genM(2, 2, 9)), true)
								noErr(c, "Forward", err)
							}
							if withBad {
								p := h.params()
								err, mustFail, any := b.call(c, h, net, outs)
								c.Step(1)
								if !any {
									must(c, b.name, err, mustFail)
								}
								if err == nil {
									return nil, false
								}
								if !sameParams(p, h.params()) {
									c.Failf("%s was refused, but changed the parameters", b.name)
								}
							}
							var res []M
							// Only a call refused before reaching the layers may leave a forward
							// pass pending; evaluation and training calls replace it.
							if outs != nil && (b.name[:7] == "Forward" || b.name[:7] == "Backwar") {
								gs, err := h.Mod.Backward(outs, mat(labels(net.Loss, 2, 3, 1)))
								noErr(c, "pending backward", err)
								for _, g := range gs {
									res = append(res, val(g.DWeights), val(g.DBiases))
								}
							}
							noErr(c, "Fit afterwards", h.Mod.Fit(X, Y, 2, 3, nn.Matrix{}, nn.Matrix{}, 0))
							p, err := h.Mod.Predict(X)
							noErr(c, "Predict afterwards", err)
							res = append(res, val(p))
							for _, q := range h.params() {
								res = append(res, M{q})
							}
							return res, true
						}
						a, ok := run(true)
						if !ok {
							return
						}
						t, _ := run(false)
						if !sameAll(a, t) {
							c.Failf("after the refused call (%s) the model behaves differently", b.name)
						}
					})
				}
			}
		}
	}
}
