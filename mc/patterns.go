package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

// Structured matrices: the special values, symmetries and magnitudes on which
// a change is likely to treat data specially. Every name gives one matrix per shape.

var patNames = []string{"generic", "zero", "negative zero", "ones", "minus ones", "1e-9 scale", "1e-14 scale", "denormal", "1e100 scale", "row magnitudes", "rows +-800", "checker", "zero row sums", "constant rows", "equal rows", "first row zero", "last row zero", "first column zero", "last column zero", "first corner", "last corner", "identity", "ascending", "descending", "large first entry", "negative", "positive", "ties"}

func pattern(k, r, c, seed int) M {
	m := genM(r, c, seed+k*13)
	n := r * c
	for i := range m {
		for j := range m[i] {
			g, at := m[i][j], i*c+j
			zero := false
			switch patNames[k] {
			case "generic":
			case "zero":
				g = 0
			case "negative zero":
				g = math.Copysign(0, -1)
			case "ones":
				g = 1
			case "minus ones":
				g = -1
			case "1e-9 scale":
				g *= 1e-9
			case "1e-14 scale":
				g *= 1e-14
			case "denormal":
				g = float64(at+1) * 5e-324
				if at%2 == 1 {
					g = -g
				}
			case "1e100 scale":
				g *= 1e100
			case "row magnitudes":
				g *= []float64{1e4, 1e-4, -30, 1}[i%4]
			case "rows +-800":
				g = 800
				if i%2 == 1 {
					g = -800
				}
				g += float64(j) / 4
			case "checker":
				g = 1
				if (i+j)%2 == 1 {
					g = -1
				}
			case "zero row sums":
				switch {
				case j%2 == 1:
					g = -m[i][j-1]
				case j == c-1:
					g = 0
				}
			case "constant rows":
				g = []float64{0.5, -2, 0, 3}[i%4]
			case "equal rows":
				if i > 0 {
					g = m[0][j]
				}
			case "first row zero":
				zero = i == 0
			case "last row zero":
				zero = i == r-1
			case "first column zero":
				zero = j == 0
			case "last column zero":
				zero = j == c-1
			case "first corner":
				zero = at != 0
				g = 1
			case "last corner":
				zero = at != n-1
				g = 1
			case "identity":
				zero = i != j
				g = 1
			case "ascending":
				g = float64(at)
			case "descending":
				g = float64(n - at)
			case "large first entry":
				if at == 0 {
					g = 1e6
				}
			case "negative":
				g = -math.Abs(g)
			case "positive":
				g = math.Abs(g)
			case "ties":
				g = []float64{1, 1, 0.25}[(i+j)%3]
			}
			if zero {
				g = 0
			}
			m[i][j] = g
		}
	}
	return m
}

func everyPat() []int {
	o := make([]int, len(patNames))
	for i := range o {
		o[i] = i
	}
	return o
}

// patSet picks patterns by name.
func patSet(names ...string) []int {
	var o []int
	for _, n := range names {
		for i := range patNames {
			if patNames[i] == n {
				o = append(o, i)
			}
		}
	}
	if len(o) != len(names) {
		panic(fmt.Sprint("unknown pattern in ", names))
	}
	return o
}

func zscale(rl *ref.Layer, x M) M {
	o := ref.Zeros(len(x), rl.Out)
	for i := range x {
		for j := range o[i] {
			s := math.Abs(rl.B[j])
			for k := range x[i] {
				s += math.Abs(x[i][k] * rl.W[k][j])
			}
			o[i][j] = s
		}
	}
	return o
}

// inferScaled compares an inference pass with a tolerance that follows from
// the rounding of the pre-activations only.
func inferScaled(c *core.C, h *LH, rl *ref.Layer, x M, what string) {
	X := mat(x)
	o, err := h.infer(X)
	c.Step(1)
	noErr(c, what, err)
	outScaled(c, o, rl, x, what)
	untouched(c, what+": input", X, x)
}

func outScaled(c *core.C, o nn.Matrix, rl *ref.Layer, x M, what string) {
	if !shapeOK(o, len(x), rl.Out) {
		c.Failf("%s: got shape %dx%d, want %dx%d", what, o.Rows, o.Cols, len(x), rl.Out)
	}
	pre, want, zs := rl.Pre(x), rl.Forward(x, nil), zscale(rl, x)
	for i := range want {
		row := 0.0
		for j := range want[i] {
			row = math.Max(row, zs[i][j])
		}
		for j, w := range want[i] {
			g := o.M[i][j]
			var lo, hi float64
			e := 1e-14 * zs[i][j]
			switch rl.Kind {
			case ref.Sigmoid:
				lo, hi = ref.SigmoidF(pre[i][j]-e)*(1-1e-12)-1e-300, ref.SigmoidF(pre[i][j]+e)*(1+1e-12)+1e-300
			case ref.Softmax:
				f := math.Exp(math.Min(2e-14*row, 700))
				lo, hi = w/f*(1-1e-12)-1e-300, math.Min(w*f, 1)*(1+1e-12)+1e-300
			default:
				t := 1e-12*zs[i][j]*math.Max(1, math.Abs(rl.Slope)) + 1e-322
				lo, hi = w-t, w+t
			}
			if !(g >= lo && g <= hi) {
				c.Failf("%s: entry [%d][%d] is %v, want %v (got %s, want %s)", what, i, j, g, w, str(o.M), str(want))
			}
		}
	}
}

// backScaled compares gradients with a tolerance relative to the terms they are
// sums of. It says nothing (false) where rounding decides on which side of a
// kink a pre-activation lies or where the pre-activations are too inexact.
func backScaled(c *core.C, what string, rl *ref.Layer, x, d, mask M, dW, dB, dX nn.Matrix) bool {
	pre, zs := rl.Pre(x), zscale(rl, x)
	gs := ref.Zeros(len(x), rl.Out)
	kinked := false
	e := 0.0
	for i := range pre {
		p := pre[i]
		if rl.Kind == ref.Softmax {
			p = ref.SoftmaxRow(pre[i])
		}
		dot := 0.0
		for j := range p {
			dot += p[j] * math.Abs(d[i][j])
		}
		for j, v := range pre[i] {
			ad := math.Abs(d[i][j])
			switch rl.Kind {
			case ref.Hidden, ref.Leaky, ref.Dropout:
				if v == 0 && zs[i][j] == 0 {
					kinked = true
				} else if math.Abs(v) <= 1e-13*zs[i][j] {
					return false
				}
				gs[i][j] = ad * math.Max(1, math.Abs(rl.Slope))
				if mask != nil {
					gs[i][j] = ad * mask[i][j]
				}
			case ref.Linear:
				gs[i][j] = ad
			case ref.Sigmoid:
				e = math.Max(e, 1e-14*zs[i][j])
				gs[i][j] = ad * ref.SigmoidF(v)
			case ref.Softmax:
				e = math.Max(e, 2e-14*zs[i][j])
				gs[i][j] = p[j] * (ad + dot)
			}
			gs[i][j] += 1e-308 // rounding of denormals
		}
	}
	if e > 1e-3 {
		return false
	}
	tol := 1e-12 + 4*e
	sW, sB, sX := ref.Zeros(rl.In, rl.Out), ref.Zeros(1, rl.Out), ref.Zeros(len(x), rl.In)
	for i := range x {
		for j := 0; j < rl.Out; j++ {
			sB[0][j] += gs[i][j]
			for k := 0; k < rl.In; k++ {
				sW[k][j] += math.Abs(x[i][k]) * gs[i][j]
				sX[i][k] += gs[i][j] * math.Abs(rl.W[k][j])
			}
		}
	}
	msg := ""
	for kink := 0; kink < pick(kinked, 2, 1); kink++ {
		w, b, xx := rl.Backward(x, d, mask, kink)
		msg = diffScaled("weights", dW, w, sW, tol) + diffScaled("biases", dB, M{b}, sB, tol) + diffScaled("inputs", dX, xx, sX, tol)
		if msg == "" {
			return true
		}
	}
	c.Failf("%s: %s", what, msg)
	return true
}

func diffScaled(what string, got nn.Matrix, want, scale M, tol float64) string {
	if !shapeOK(got, len(want), len(want[0])) {
		return fmt.Sprintf("gradient of the %s has shape %dx%d, want %dx%d; ", what, got.Rows, got.Cols, len(want), len(want[0]))
	}
	for i := range want {
		for j := range want[i] {
			if !(math.Abs(got.M[i][j]-want[i][j]) <= tol*scale[i][j]+1e-300) {
				return fmt.Sprintf("gradient of the %s is %s, want %s; ", what, str(got.M), str(want))
			}
		}
	}
	return ""
}

// patShapes are the (rows, in, out) shapes of the pattern cases.
var patShapes = [][3]int{{2, 2, 2}, {3, 2, 3}, {1, 3, 2}, {3, 3, 1}, {4, 1, 4}}

func patternCases04(r *core.Run) {
	all := everyPat()
	for _, k := range kindCfgs {
		for _, s := range patShapes {
			k, s := k, s
			rl0 := k.layer(s[1], s[2], 0)
			h := fromRef(rl0)
			product([]int{len(all), len(all), len(all)}, func(ix []int) {
				xi, wi, bi := ix[0], ix[1], ix[2]
				r.Case("structured values", func() string {
					return fmt.Sprintf("%v %v X=%s W=%s B=%s", k, s, patNames[xi], patNames[wi], patNames[bi])
				}, func(c *core.C) {
					c.State(core.Hash("pat", k, s, xi, wi, bi))
					rl := *rl0
					rl.W, rl.B = pattern(wi, s[1], s[2], 1), pattern(bi, 1, s[2], 2)[0]
					h.set(rl.W, rl.B)
					inferScaled(c, h, &rl, pattern(xi, s[0], s[1], 3), "forward")
				})
			})
		}
	}
	// every pair of patterns stacked into one batch
	for _, k := range kindCfgs {
		k := k
		rl := k.layer(3, 3, 4)
		for _, big := range []float64{1, 1000} {
			big := big
			product([]int{len(all), len(all)}, func(ix []int) {
				p, q := ix[0], ix[1]
				r.Case("structured rows mixed", func() string { return fmt.Sprintf("%v times %v: %s over %s", k, big, patNames[p], patNames[q]) }, func(c *core.C) {
					c.State(core.Hash("mix", k, big, p, q))
					x := append(pattern(p, 2, 3, 1), pattern(q, 2, 3, 2)...)
					for i := range x {
						for j := range x[i] {
							x[i][j] *= big
						}
					}
					inferScaled(c, fromRef(rl), rl, x, "mixed batch")
				})
			})
		}
	}
	// long histories
	for _, k := range kindCfgs {
		k := k
		r.Case("long history", func() string { return fmt.Sprint(k) }, func(c *core.C) {
			c.Trace()
			rl := k.layer(3, 2, 3)
			h := fromRef(rl)
			for t := 0; t < pick(r.Max, 100000, pick(r.Thorough, 20000, 1500)); t++ {
				c.State(core.Hash("long", k, t))
				x := genM(1+t%4, 3, t)
				inferScaled(c, h, rl, x, fmt.Sprintf("pass %d", t))
				if t%3 == 0 {
					h.L.Backward(mat(x), mat(genM(len(x), 2, t)))
				}
				if t%5 == 0 {
					h.L.Forward(mat(x))
				}
			}
		})
	}
}

func patternCases05(r *core.Run) {
	all := everyPat()
	par := patSet("generic", "zero", "1e-9 scale", "row magnitudes", "checker", "zero row sums", "identity", "negative", "ascending", "equal rows")
	bias := patSet("generic", "zero", "large first entry", "negative")
	for _, k := range kindCfgs {
		for _, s := range patShapes {
			k, s := k, s
			rl0 := k.layer(s[1], s[2], 0)
			h := fromRef(rl0)
			product([]int{len(all), len(par), len(bias), len(all)}, func(ix []int) {
				xi, wi, bi, di := ix[0], par[ix[1]], bias[ix[2]], ix[3]
				r.Case("structured values", func() string {
					return fmt.Sprintf("%v %v X=%s W=%s B=%s upstream=%s", k, s, patNames[xi], patNames[wi], patNames[bi], patNames[di])
				}, func(c *core.C) {
					c.State(core.Hash("pat", k, s, xi, wi, bi, di))
					rl := *rl0
					rl.W, rl.B = pattern(wi, s[1], s[2], 1), pattern(bi, 1, s[2], 2)[0]
					h.set(rl.W, rl.B)
					x, d := pattern(xi, s[0], s[1], 3), pattern(di, s[0], s[2], 4)
					X, D := mat(x), mat(d)
					_, err := h.infer(X)
					noErr(c, "forward", err)
					dW, dB, dX, err := h.L.Backward(X, D)
					c.Step(2)
					noErr(c, "backward", err)
					backScaled(c, "backward", &rl, x, d, nil, dW, dB, dX)
					untouched(c, "the input passed to backward", X, x)
					untouched(c, "the gradient passed to backward", D, d)
				})
			})
		}
	}
	for _, k := range kindCfgs {
		k := k
		r.Case("long history", func() string { return fmt.Sprint(k) }, func(c *core.C) {
			c.Trace()
			rl := k.layer(3, 2, 3)
			h := fromRef(rl)
			for t := 0; t < pick(r.Max, 100000, pick(r.Thorough, 20000, 1500)); t++ {
				c.State(core.Hash("long", k, t))
				x, d := genM(1+t%4, 3, t), genM(1+t%4, 2, t+7)
				o, err := h.L.Forward(mat(x))
				noErr(c, "forward", err)
				var mask M
				if k.kind == ref.Dropout {
					mask = maskOf(rl, x, o)
				}
				dW, dB, dX, err := h.L.Backward(mat(x), mat(d))
				noErr(c, "backward", err)
				c.Step(2)
				wantGrads(c, fmt.Sprintf("backward %d", t), rl, x, d, mask, dW, dB, dX)
			}
		})
	}
}
