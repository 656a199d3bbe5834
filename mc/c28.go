package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() { checks["C28"] = c28 }

// moved is the squared length of the way the parameters went.
func moved(a, b [][]float64) float64 {
	s := 0.0
	for i := range a {
		for j := range a[i] {
			s += (a[i][j] - b[i][j]) * (a[i][j] - b[i][j])
		}
	}
	return s
}

// descends trains n for a few short steps, and compares how far the loss the model
// reports falls with how far the parameters went: along the negative gradient, at
// rate lr over b equal batches, the fall is the squared way over lr*b.
func descends(c *core.C, n *ref.Net, o *ref.Opt, x, y M, batch, steps int) {
	c.Trace()
	n = n.Clone()
	h := buildModel(n, o, 0, 0.5)
	rows := len(x)
	b := 1
	if batch > 0 {
		b = rows / batch
	}
	X, Y := mat(x), mat(y)
	for s := 0; s < steps; s++ {
		l0, err := h.Mod.CalculateLoss(X, Y)
		noErr(c, "CalculateLoss", err)
		p0 := h.params()
		noErr(c, "Fit", h.Mod.Fit(X, Y, 1, batch, nn.Matrix{}, nn.Matrix{}, 0))
		l1, err := h.Mod.CalculateLoss(X, Y)
		noErr(c, "CalculateLoss", err)
		p1 := h.params()
		c.Step(3)
		way := moved(p0, p1)
		if o.Adam {
			// every step has the signs of the gradient, so the loss falls too, unless the
			// gradient is as small as the step
			if !(l1 <= l0+1e-9*math.Max(1, math.Abs(l0))) {
				c.Failf("step %d of Adam raises the loss from %v to %v", s, l0, l1)
			}
			continue
		}
		want := way / (o.LR * float64(b))
		if want < 1e-9*math.Max(1, math.Abs(l0))*1e-3 {
			// too close to a stationary point to see the fall in the digits of the loss
			if l1 > l0+1e-11*math.Max(1, math.Abs(l0)) {
				c.Failf("step %d raises the loss from %v to %v", s, l0, l1)
			}
			continue
		}
		if fall := l0 - l1; !(math.Abs(fall-want) <= 0.05*want+1e-13*math.Max(1, math.Abs(l0))) {
			c.Failf("step %d: the parameters move by %v at learning rate %v over %d batches, so the loss should fall by %v; it falls by %v (from %v)", s, math.Sqrt(way), o.LR, b, want, fall, l0)
		}
	}
}

// solve returns the least-squares minimum of |A p - y|^2 over p (pseudo-inverse by
// elimination with dependent columns left out).
func leastSquares(a M, y []float64) float64 {
	// Gram-Schmidt on the columns: what remains of y is the residual.
	res := append([]float64(nil), y...)
	var q [][]float64
	for j := range a[0] {
		v := make([]float64, len(a))
		for i := range a {
			v[i] = a[i][j]
		}
		for rep := 0; rep < 2; rep++ {
			for _, u := range q {
				d := 0.0
				for i := range v {
					d += u[i] * v[i]
				}
				for i := range v {
					v[i] -= d * u[i]
				}
			}
		}
		s := 0.0
		for i := range v {
			s += v[i] * v[i]
		}
		if s < 1e-9 {
			continue
		}
		for i := range v {
			v[i] /= math.Sqrt(s)
		}
		q = append(q, v)
		d := 0.0
		for i := range v {
			d += v[i] * res[i]
		}
		for i := range v {
			res[i] -= d * v[i]
		}
	}
	s := 0.0
	for _, v := range res {
		s += v * v
	}
	return s
}

func c28(r *core.Run) {
	r.Rule = "cases: every stack of up to three layers of all kinds with every loss that fits, batch sizes, data (also with large and small inputs and errors) and parameters: the fall of the reported loss in a short training step against the way the parameters went; every linear regression over small integers against the least-squares minimum in closed form; every small classification against the loss of all parameters on a grid; with SGD, momentum, decay and Adam; states are distinct problems"
	kinds := []int{ref.Linear, ref.Hidden, ref.Sigmoid, ref.Softmax, ref.Leaky, ref.Dropout}
	layer := func(kind, in, out, seed int) *ref.Layer {
		l := refLayer(kind, in, out, seed)
		if kind == ref.Dropout {
			l.Rate = 0
		}
		return l
	}
	// one short step
	words(len(kinds), 1, 3, func(w []int) {
		w = cp(w)
		for loss := 0; loss < 4; loss++ {
			last := kinds[w[len(w)-1]]
			if loss >= ref.CE && last != ref.Sigmoid && last != ref.Softmax {
				continue // outputs that are no probabilities
			}
			for seed := 0; seed < pick(r.Max, 40, pick(r.Thorough, 6, 2)); seed++ {
				for _, t := range []struct {
					rows, batch int
				}{{1, 0}, {4, 0}, {4, 2}, {6, 2}, {3, 1}} {
					loss, seed, t := loss, seed, t
					r.Case("one step", func() string {
						s := ""
						for _, k := range w {
							s += ref.KindName[kinds[k]] + " "
						}
						return fmt.Sprintf("%s%s, %d rows, batch %d, data %d", s, ref.LossName[loss], t.rows, t.batch, seed)
					}, func(c *core.C) {
						dims := []int{3, 2, 4, 2}
						n := &ref.Net{Loss: loss}
						for i, k := range w {
							n.Layers = append(n.Layers, layer(kinds[k], dims[i], dims[i+1], seed*7+i))
						}
						x := genM(t.rows, 3, seed+20)
						y := labels(loss, t.rows, dims[len(w)], seed+30)
						descends(c, n, sgd(1e-5, 0, 0), x, y, t.batch, 3)
						if t.batch == 0 {
							descends(c, n, sgd(1e-5, 0, 0.9), x, y, 0, 1) // the first step has no momentum yet
							descends(c, n, adam(1e-6, 0), x, y, 0, 3)
						}
						c.State(core.Hash("step", w, loss, seed, t))
					})
				}
			}
		}
	})
	// large and small errors and inputs
	words(len(kinds), 1, pick(r.Max, 3, 2), func(w []int) {
		w = cp(w)
		for _, xs := range []float64{0.01, 1, 30} {
			for _, ys := range []float64{0.01, 30, 1000} {
				for seed := 0; seed < pick(r.Max, 10, 3); seed++ {
					for _, rows := range []int{1, 3, 40} {
						xs, ys, seed, rows := xs, ys, seed, rows
						r.Case("scaled", func() string {
							s := ""
							for _, k := range w {
								s += ref.KindName[kinds[k]] + " "
							}
							return fmt.Sprintf("%smse, %d rows, inputs times %v, labels times %v, data %d", s, rows, xs, ys, seed)
						}, func(c *core.C) {
							dims := []int{3, 2, 4, 2}
							n := &ref.Net{Loss: ref.MSE}
							for i, k := range w {
								n.Layers = append(n.Layers, layer(kinds[k], dims[i], dims[i+1], seed*7+i))
							}
							x := ref.Map(genM(rows, 3, seed+20), func(v float64) float64 { return v * xs })
							y := ref.Map(genM(rows, dims[len(w)], seed+30), func(v float64) float64 { return v * ys })
							lr := 1e-5 / (math.Max(1, xs*xs) * math.Max(1, ys))
							descends(c, n, sgd(lr, 0, 0), x, y, 0, 3)
							c.State(core.Hash("scaled", w, xs, ys, seed, rows))
						})
					}
				}
			}
		}
	})
	// linear regression: the least-squares minimum
	vals := []float64{-1, 0, 1, 2}
	for rows := 1; rows <= 3; rows++ {
		for ins := 1; ins <= 2; ins++ {
			nx := pick(r.Max, 4, 3)
			if ins == 1 {
				nx = 4
			} else if rows == 3 && !r.Max {
				nx = 2
			}
			words(nx, rows*ins, rows*ins, func(wx []int) {
				wx = cp(wx)
				words(3, rows, rows, func(wy []int) {
					wy = cp(wy)
					for oi, o := range []*ref.Opt{sgd(0.1, 0, 0), sgd(0.05, 0, 0.5)} {
						rows, ins, oi, o := rows, ins, oi, o
						r.Case("linear regression", func() string {
							return fmt.Sprintf("%d rows of %d inputs, data %v, labels %v, %s", rows, ins, wx, wy, optName(o))
						}, func(c *core.C) {
							c.Trace()
							x, y := ref.Zeros(rows, ins), ref.Zeros(rows, 1)
							a := ref.Zeros(rows, ins+1)
							for i := range x {
								a[i][ins] = 1
								for j := range x[i] {
									x[i][j] = vals[wx[i*ins+j]]
									a[i][j] = x[i][j]
								}
								y[i][0] = vals[wy[i]]
							}
							n := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{refLayer(ref.Linear, ins, 1, 3)}}
							h := buildModel(n, o, 0, 0.5)
							noErr(c, "Fit", h.Mod.Fit(mat(x), mat(y), 1500, 0, nn.Matrix{}, nn.Matrix{}, 0))
							l, err := h.Mod.CalculateLoss(mat(x), mat(y))
							noErr(c, "CalculateLoss", err)
							c.Step(2)
							ys := make([]float64, rows)
							for i := range ys {
								ys[i] = y[i][0]
							}
							best := leastSquares(a, ys) / float64(rows)
							if !(math.Abs(l-best) <= 1e-5) {
								c.Failf("1500 epochs of linear regression reach the loss %v, the least-squares minimum is %v", l, best)
							}
							c.State(core.Hash("regression", rows, ins, wx, wy, oi))
						})
					}
				})
			})
		}
	}
	// classification: no worse than any parameters on a grid
	grid := []float64{-3, -1.5, -0.5, 0, 0.5, 1.5, 3}
	for _, loss := range []int{ref.BCE, ref.CE} {
		for rows := 1; rows <= pick(r.Max, 5, 4); rows++ {
			words(3, rows, rows, func(wx []int) {
				wx = cp(wx)
				words(2, rows, rows, func(wy []int) {
					wy = cp(wy)
					for oi, o := range []*ref.Opt{sgd(0.5, 0, 0), sgd(0.5, 0.0001, 0.5), adam(0.05, 0)} {
						loss, rows, oi, o := loss, rows, oi, o
						r.Case("classification", func() string {
							return fmt.Sprintf("%s, data %v, labels %v, %s", ref.LossName[loss], wx, wy, optName(o))
						}, func(c *core.C) {
							c.Trace()
							outs := 1
							if loss == ref.CE {
								outs = 2
							}
							x, y := ref.Zeros(rows, 1), ref.Zeros(rows, outs)
							for i := range x {
								x[i][0] = vals[wx[i]]
								if loss == ref.CE {
									y[i][wy[i]] = 1
								} else {
									y[i][0] = float64(wy[i])
								}
							}
							kind := pick(loss == ref.CE, ref.Softmax, ref.Sigmoid)
							n := &ref.Net{Loss: loss, Layers: []*ref.Layer{refLayer(kind, 1, outs, 3)}}
							h := buildModel(n, o, 0, 0.5)
							noErr(c, "Fit", h.Mod.Fit(mat(x), mat(y), 1500, 0, nn.Matrix{}, nn.Matrix{}, 0))
							l, err := h.Mod.CalculateLoss(mat(x), mat(y))
							noErr(c, "CalculateLoss", err)
							c.Step(2)
							best := math.Inf(1)
							for _, a := range grid {
								for _, b := range grid {
									s := 0.0
									for i := range x {
										z := a*x[i][0] + b
										if wy[i] == 0 {
											z = -z
										}
										s += math.Log1p(math.Exp(-z))
									}
									best = math.Min(best, s/float64(rows))
								}
							}
							if !(l <= best+0.01) {
								c.Failf("1500 epochs reach the loss %v, other parameters reach %v", l, best)
							}
							c.State(core.Hash("classes", loss, rows, wx, wy, oi))
						})
					}
				})
			})
		}
	}
}
