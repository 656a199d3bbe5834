package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() {
	checks["C06"] = c06
	checks["C07"] = c07
}

var preds = []float64{0, math.Copysign(0, -1), 1, 5e-324, 1e-9, 1e-7, 1.5e-7, 1e-3, 0.2, 0.5, 0.9, 1 - 1e-3, 1 - 1.5e-7, 1 - 1e-7, 1 - 1e-9, 1 - 1e-16, -0.5, 1.5, -1e-9, 1 + 1e-9, 1e10, -1e10, 1e300, -1e300, 1.0001e-7, 1.05e-7, 1.01e-6, 1 - 1.0001e-7, 1 - 1.05e-7, 1 - 1.01e-6}
var plain = []float64{0, 1, -1, 0.5, -2.5, 1e-8, 1e6, -1e100, 1e-10, 1 + 1e-12, -1e-15, 1e-150, -5e-324, 1e160, -1e200, 1e300}

// lossTol is the rounding allowed for a loss value: relative to the terms it is a mean of.
func lossTol(kind int, p, y M, want float64) float64 {
	t := 0.0
	for i := range p {
		for j := range p[i] {
			a, b := math.Abs(p[i][j]), math.Abs(y[i][j])
			switch kind {
			case ref.MSE:
				t += 1e-13 * (a*a + b*b)
			case ref.MAE:
				t += 1e-13 * (a + b)
			default:
				t += 1e-13
			}
		}
	}
	return 1e-9*math.Abs(want) + t/float64(len(p)*len(p[0])) + 1e-318
}

// reused gives the pair of matrices of a caller that has already called f with
// other values in the same storage.
func reused(p, y M, f func(P, Y nn.Matrix)) (nn.Matrix, nn.Matrix) {
	P := mat(ref.Map(p, func(v float64) float64 { return 0.25 + 0.5*v }))
	Y := mat(y)
	f(P, Y)
	refill(P, p)
	refill(Y, y)
	return P, Y
}

func lossForward(c *core.C, kind int, l nn.Loss, p, y M) float64 {
	P, Y := reused(p, y, func(P, Y nn.Matrix) { l.Forward(P, Y) })
	v, err := l.Forward(P, Y)
	c.Step(1)
	noErr(c, "loss forward", err)
	w := ref.Loss(kind, p, y)
	if !core.Same(v, w) && !(math.Abs(v-w) <= lossTol(kind, p, y, w)) || kind >= ref.CE && (math.IsNaN(v) || math.IsInf(v, 0)) {
		c.Failf("%s loss of %s against %s is %v, want %v", ref.LossName[kind], str(p), str(y), v, w)
	}
	untouched(c, "predictions", P, p)
	untouched(c, "labels", Y, y)
	return v
}

func inside(p float64) bool { return p > ref.Eps*1.0000001 && p < 1-ref.Eps*1.0000001 }

func lossBackward(c *core.C, kind int, l nn.Loss, p, y M, dual bool) nn.Matrix {
	P, Y := reused(p, y, func(P, Y nn.Matrix) { g, _ := l.Backward(P, Y); scribble(g) })
	g, err := l.Backward(P, Y)
	c.Step(1)
	noErr(c, "loss backward", err)
	if !shapeOK(g, len(p), len(p[0])) {
		c.Failf("%s gradient has shape %dx%d, want %dx%d", ref.LossName[kind], g.Rows, g.Cols, len(p), len(p[0]))
	}
	want := ref.LossGrad(kind, p, y)
	if dual {
		n := len(p) * len(p[0])
		next := 0
		q := p
		if kind >= ref.CE { // entries are independent: keep the others off the poles
			q = ref.Map(p, func(v float64) float64 { return pick(inside(v), v, 0.5) })
		}
		v := ref.LossD(kind, ref.VarM(q, &next, n), y)
		for k := 0; k < n; k++ {
			x := 0.0
			if v.G != nil {
				x = v.G[k]
			}
			i, j := k/len(p[0]), k%len(p[0])
			if kind < ref.CE || inside(p[i][j]) {
				want[i][j] = x
			}
		}
	}
	for i := range p {
		for j := range p[i] {
			v := g.M[i][j]
			if kind >= ref.CE && !inside(p[i][j]) {
				if math.IsNaN(v) || math.IsInf(v, 0) || y[i][j] == 1 && v > 0 || y[i][j] == 0 && v < 0 {
					c.Failf("%s gradient at prediction %v label %v is %v", ref.LossName[kind], p[i][j], y[i][j], v)
				}
				continue
			}
			n := float64(len(p) * len(p[0]))
			a, b, t := math.Abs(p[i][j]), math.Abs(y[i][j]), 0.0
			switch kind {
			case ref.MSE:
				t = 1e-13 * (a + b) / n
			case ref.BCE:
				t = 1e-9 * (b/a + math.Abs(1-y[i][j])/(1-a)) / n
			}
			if !core.Same(v, want[i][j]) && !(math.Abs(v-want[i][j]) <= 1e-9*math.Abs(want[i][j])+t+1e-318) {
				c.Failf("%s gradient[%d][%d] of %s against %s is %v, want %v", ref.LossName[kind], i, j, str(p), str(y), v, want[i][j])
			}
		}
	}
	untouched(c, "predictions", P, p)
	untouched(c, "labels", Y, y)
	if overlaps(g, P) || overlaps(g, Y) {
		c.Failf("the gradient shares storage with the predictions or labels")
	}
	return g
}

// lossCases enumerates (kind, predictions, labels).
func lossCases(r *core.Run, f func(c *core.C, kind int, p, y M)) {
	one := func(kind int, group string, p, y M) {
		r.Case(group+" "+ref.LossName[kind], func() string { return str(p) + " against " + str(y) }, func(c *core.C) {
			c.State(core.HashM(core.HashM(uint64(kind), p), y))
			f(c, kind, p, y)
		})
	}
	// one entry
	for _, p := range preds {
		for _, y := range []float64{0, 1, 0.3} {
			one(ref.BCE, "1x1", M{{p}}, M{{y}})
		}
		one(ref.CE, "1x1", M{{p}}, M{{1}})
	}
	for _, p := range plain {
		for _, y := range plain {
			one(ref.MSE, "1x1", M{{p}}, M{{y}})
			one(ref.MAE, "1x1", M{{p}}, M{{y}})
		}
	}
	// two entries as a row and as a column
	for _, p := range preds {
		for _, q := range preds {
			for k := 0; k < 4; k++ {
				y := M{{float64(k & 1), float64(k >> 1)}}
				one(ref.BCE, "1x2", M{{p, q}}, y)
				one(ref.BCE, "2x1", ref.T(M{{p, q}}), ref.T(y))
				if k == 1 || k == 2 {
					one(ref.CE, "1x2", M{{p, q}}, y)
				}
			}
			one(ref.CE, "2x1", M{{p}, {q}}, M{{1}, {1}})
		}
	}
	product([]int{len(plain), len(plain), len(plain), len(plain)}, func(ix []int) {
		p, y := M{{plain[ix[0]], plain[ix[1]]}}, M{{plain[ix[2]], plain[ix[3]]}}
		for kind := ref.MSE; kind <= ref.MAE; kind++ {
			one(kind, "1x2", p, y)
			one(kind, "2x1", ref.T(p), ref.T(y))
		}
	})
	// 2x2 over smaller alphabets
	Q := []float64{0, 1, 0.2, 0.9, 1e-9, 0.5}
	product([]int{6, 6, 6, 6, 16}, func(ix []int) {
		p := M{{Q[ix[0]], Q[ix[1]]}, {Q[ix[2]], Q[ix[3]]}}
		k := ix[4]
		y := M{{float64(k & 1), float64(k >> 1 & 1)}, {float64(k >> 2 & 1), float64(k >> 3)}}
		one(ref.BCE, "2x2", p, y)
		if k == 5 || k == 6 || k == 9 || k == 10 {
			one(ref.CE, "2x2", p, y)
		}
		if k&3 == 0 {
			one(ref.MSE, "2x2", p, y)
			one(ref.MAE, "2x2", p, y)
		}
	})
	// structured matrices
	all := everyPat()
	for _, sh := range [][2]int{{1, 1}, {2, 2}, {3, 2}, {2, 4}, {5, 3}} {
		rows, cols := sh[0], sh[1]
		product([]int{len(all), len(all)}, func(ix []int) {
			p, y := pattern(ix[0], rows, cols, 1), pattern(ix[1], rows, cols, 2)
			one(ref.MSE, "structured", p, y)
			one(ref.MAE, "structured", p, y)
			if ix[0] == ix[1] {
				one(ref.MSE, "structured equal", p, p)
				one(ref.MAE, "structured equal", p, p)
				for i := range p {
					for j := range p[i] {
						q := core.CopyM(p)
						q[i][j] += 0.5
						one(ref.MSE, "structured one difference", p, q)
						one(ref.MAE, "structured one difference", q, p)
					}
				}
			}
		})
		for _, pi := range all {
			raw := pattern(pi, rows, cols, 1)
			for _, p := range []M{raw, ref.Map(raw, ref.SigmoidF), ref.Map(raw, func(v float64) float64 { return 0.5 + v/4 }), ref.Map(raw, func(v float64) float64 { return 1 - v*1e-5 })} {
				for shift := 0; shift < cols; shift++ {
					one(ref.CE, "structured", p, oneHot(rows, cols, shift))
					same := ref.Zeros(rows, cols)
					for i := range same {
						same[i][shift] = 1
					}
					one(ref.CE, "structured", p, same)
				}
				for k := 0; k < 5; k++ {
					y := bitLabels(rows, cols, k)
					if k >= 3 {
						y = ref.Map(y, func(float64) float64 { return float64(k - 3) })
					}
					one(ref.BCE, "structured", p, y)
				}
			}
		}
	}
	// shapes and sizes
	n := pick(r.Max, 12, pick(r.Thorough, 9, 6))
	size := func(group string, rows, cols int) {
		for kind := 0; kind < ref.NLosses; kind++ {
			p := genM(rows, cols, rows+3*cols)
			if kind >= ref.CE {
				p = ref.Map(p, func(v float64) float64 { return 0.5 + 0.45*v })
			}
			y := labels(kind, rows, cols, rows)
			one(kind, group, p, y)
			if kind == ref.CE {
				one(kind, group+" last class", p, oneHot(rows, cols, cols-1))
			}
			// every few entries saturated or beyond the range
			q := core.CopyM(p)
			for i := range q {
				for j := range q[i] {
					if (i*cols+j)%7 == 3 || i == rows-1 && j == cols-1 {
						q[i][j] = []float64{0, 1, 1e-9, 1 - 1e-9, -0.5, 1.5}[(i+j)%6]
					}
				}
			}
			one(kind, group+" saturated", q, y)
			if kind < ref.CE { // every few entries exact
				q := core.CopyM(p)
				for i := range q {
					for j := range q[i] {
						if (i*cols+j)%3 == 0 || i == j || i == rows-1 {
							q[i][j] = y[i][j]
						}
					}
				}
				one(kind, group+" partly equal", q, y)
			}
		}
	}
	for i := 1; i <= n; i++ {
		for j := 1; j <= n; j++ {
			size("shapes", i, j)
		}
	}
	for _, s := range append(sizesUpTo(pick(r.Max, 400, pick(r.Thorough, 140, 40))), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 1025, 5000) {
		size("size sweep", s, 1)
		size("size sweep", 1, s)
		size("size sweep", s, 3)
		size("size sweep", 3, s)
	}
	for _, s := range huge {
		size("very large", s, 1)
		size("very large", 1, s)
	}
	for _, s := range []int{33, 65, 129, 200} {
		size("large", s, s)
	}
}

func c06(r *core.Run) {
	r.Rule = "cases: every loss with every tuple of predictions (0, 1, within 1e-7 of them, beyond them, huge) and labels for 1-4 entries, every pair of structured matrices (28 patterns), every shape of a grid and a sweep of sizes, and every history of forward/backward calls of one loss object over different batches; compared with the textbook formula; states are distinct (loss, predictions, labels)"
	r.Assume("cross-entropy is specified for one-hot labels only", "values are compared to 1e-9 relative (and 1e-13 of the magnitude of the terms)")
	obj := map[[2]int]nn.Loss{}
	lossCases(r, func(c *core.C, kind int, p, y M) {
		k := [2]int{kind, len(p[0])}
		if obj[k] == nil {
			obj[k] = mustLoss(kind, len(p[0]))
		}
		lossForward(c, kind, obj[k], p, y)
	})
	lossHist(r)
}

func c07(r *core.Run) {
	r.Rule = "cases: as for the loss values; every gradient entry is compared with the derivative (dual numbers for up to 50 entries, else the closed form), entries outside the differentiable range are checked for finiteness and sign; states are distinct (loss, predictions, labels)"
	r.Assume("gradients are compared to 1e-9 relative")
	obj := map[[2]int]nn.Loss{}
	lossCases(r, func(c *core.C, kind int, p, y M) {
		k := [2]int{kind, len(p[0])}
		if obj[k] == nil {
			obj[k] = mustLoss(kind, len(p[0]))
		}
		lossBackward(c, kind, obj[k], p, y, len(p)*len(p[0]) <= 50)
	})
	lossHist(r)
}

// lossHist runs every history of calls on one loss object.
func lossHist(r *core.Run) {
	for kind := 0; kind < ref.NLosses; kind++ {
		kind := kind
		words(6, 1, pick(r.Max, 7, pick(r.Thorough, 6, 5)), func(w []int) {
			w = cp(w)
			r.Case("histories", func() string {
				return fmt.Sprintf("%s ops %v (0-2 forward of 1-3 rows, 3-5 backward)", ref.LossName[kind], w)
			}, func(c *core.C) {
				c.Trace()
				l := mustLoss(kind, 2)
				var gs []nn.Matrix
				var vs []M
				for step, op := range w {
					rows := op%3 + 1
					p := ref.Map(genM(rows, 2, op+step), func(v float64) float64 { return 0.5 + 0.4*v })
					y := labels(kind, rows, 2, op)
					if op < 3 {
						lossForward(c, kind, l, p, y)
					} else {
						g := lossBackward(c, kind, l, p, y, false)
						gs, vs = append(gs, g), append(vs, val(g))
					}
					for i := range gs {
						if !core.BitsM(gs[i].M, vs[i]) {
							c.Failf("a gradient returned earlier changed at step %d", step)
						}
					}
					c.State(core.Hash(kind, w[:step+1]))
				}
			})
		})
		for size := 1; size <= 3; size++ {
			size := size
			r.Case("long history", func() string { return fmt.Sprint(ref.LossName[kind], size) }, func(c *core.C) {
				c.Trace()
				l := mustLoss(kind, size)
				for t := 0; t < pick(r.Max, 200000, pick(r.Thorough, 20000, 1500)); t++ {
					rows := t%5 + 1
					p := ref.Map(genM(rows, size, t), func(v float64) float64 { return 0.5 + 0.4*v })
					y := labels(kind, rows, size, t)
					lossForward(c, kind, l, p, y)
					lossBackward(c, kind, l, p, y, false)
					c.State(core.Hash(kind, size, t))
				}
			})
		}
	}
}
