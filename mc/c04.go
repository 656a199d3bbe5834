package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() {
	checks["C04"] = c04
	checks["C05"] = c05
}

type kindCfg struct {
	kind        int
	slope, rate float64
}

func (k kindCfg) String() string {
	switch k.kind {
	case ref.Leaky:
		return fmt.Sprintf("leaky(%v)", k.slope)
	case ref.Dropout:
		return fmt.Sprintf("dropout(%v)", k.rate)
	}
	return ref.KindName[k.kind]
}

var kindCfgs = []kindCfg{{ref.Hidden, 0, 0}, {ref.Linear, 0, 0}, {ref.Sigmoid, 0, 0}, {ref.Leaky, 0, 0}, {ref.Leaky, 0.01, 0}, {ref.Leaky, 0.3, 0}, {ref.Leaky, 1, 0}, {ref.Leaky, 2, 0}, {ref.Softmax, 0, 0}, {ref.Dropout, 0, 0}, {ref.Dropout, 0, 0.5}, {ref.Dropout, 0, 1}}

// one per kind
var kindMain = []kindCfg{{ref.Hidden, 0, 0}, {ref.Linear, 0, 0}, {ref.Sigmoid, 0, 0}, {ref.Leaky, 0.1, 0}, {ref.Softmax, 0, 0}, {ref.Dropout, 0, 0.5}}

func (k kindCfg) layer(in, out, seed int) *ref.Layer {
	l := refLayer(k.kind, in, out, seed)
	l.Slope, l.Rate = k.slope, k.rate
	return l
}

const tolF = 1e-9

func wantInfer(c *core.C, h *LH, rl *ref.Layer, x M, what string) nn.Matrix {
	X := mat(x)
	o, err := h.infer(X)
	c.Step(1)
	noErr(c, what, err)
	wantM(c, what, o, rl.Forward(x, nil), tolF)
	untouched(c, what+": input", X, x)
	return o
}

func c04(r *core.Run) {
	r.Rule = "cases: every layer kind with every tuple of weight, bias and input values of an alphabet (sizes 1-2), every triple of structured matrices (28 patterns of special magnitudes, signs, symmetries, ties) for parameters and inputs, every small shape, a sweep of sizes, every permutation of small batches, every history of forward/backward/parameter changes up to a depth, and every model of up to 3 layer kinds; compared with the textbook layer; states are distinct (layer, parameters, input) combinations"
	A := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -2, 1e-8, 30, -30, 1000, -1000}
	for _, k := range kindCfgs {
		k := k
		h1 := fromRef(k.layer(1, 1, 0))
		product([]int{len(A), len(A), len(A)}, func(ix []int) {
			w, b, x := A[ix[0]], A[ix[1]], A[ix[2]]
			r.Case("1x1 values", func() string { return fmt.Sprintf("%v w=%v b=%v x=%v", k, w, b, x) }, func(c *core.C) {
				c.State(core.HashF(core.Hash(k), w, b, x))
				rl := &ref.Layer{Kind: k.kind, In: 1, Out: 1, Slope: k.slope, Rate: k.rate, W: M{{w}}, B: []float64{b}}
				h1.set(rl.W, rl.B)
				wantInfer(c, h1, rl, M{{x}}, "forward")
			})
		})
		B := []float64{-1, 0, 2}
		h2 := fromRef(k.layer(2, 2, 0))
		product([]int{3, 3, 3, 3, 3, 3, 3, 3}, func(ix []int) {
			rl := &ref.Layer{Kind: k.kind, In: 2, Out: 2, Slope: k.slope, Rate: k.rate, W: M{{B[ix[0]], B[ix[1]]}, {B[ix[2]], B[ix[3]]}}, B: []float64{B[ix[4]], B[ix[5]]}}
			x := M{{B[ix[6]], B[ix[7]]}, {0.5, 0.25}}
			r.Case("2x2 values", func() string { return fmt.Sprintf("%v W=%v B=%v x=%v", k, rl.W, rl.B, x) }, func(c *core.C) {
				c.State(core.HashF(core.HashM(core.HashM(core.Hash(k), rl.W), x), rl.B...))
				h2.set(rl.W, rl.B)
				wantInfer(c, h2, rl, x, "forward")
			})
		})
	}
	n := pick(r.Max, 9, pick(r.Thorough, 7, 4))
	for _, k := range kindCfgs {
		for in := 1; in <= n; in++ {
			for out := 1; out <= n; out++ {
				for rows := 1; rows <= n; rows++ {
					k, in, out, rows := k, in, out, rows
					r.Case("shapes", func() string { return fmt.Sprintf("%v %dx%d rows %d", k, in, out, rows) }, func(c *core.C) {
						layerShape(c, k, in, out, rows, true)
					})
				}
			}
		}
		sweep := sizesUpTo(pick(r.Max, 300, pick(r.Thorough, 140, 40)), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 513, 1000, 1024, 1025)
		for _, s := range sweep {
			k, s := k, s
			r.Case("size sweep", func() string { return fmt.Sprintf("%v size %d", k, s) }, func(c *core.C) {
				layerShape(c, k, s, 2, 2, false)
				layerShape(c, k, 2, s, 2, false)
				layerShape(c, k, 2, 3, s, false)
			})
		}
		for _, s := range huge {
			k, s := k, s
			r.Case("very large", func() string { return fmt.Sprintf("%v size %d", k, s) }, func(c *core.C) {
				layerShape(c, k, s, 1, 2, false)
				layerShape(c, k, 1, s, 2, false)
				layerShape(c, k, 1, 2, s, false)
			})
		}
		if r.Thorough {
			for _, s := range []int{33, 65, 129, 200} {
				k, s := k, s
				r.Case("large", func() string { return fmt.Sprintf("%v size %d", k, s) }, func(c *core.C) { layerShape(c, k, s, s, s, false) })
			}
		}
	}
	patternCases04(r)
	// a second layer of the same kind and a dropout training pass at rate 0
	r.Case("dropout training at rate 0", func() string { return "" }, func(c *core.C) {
		rl := kindCfg{ref.Dropout, 0, 0}.layer(3, 4, 1)
		h := fromRef(rl)
		x := genM(5, 3, 2)
		o, err := h.L.Forward(mat(x))
		c.Step(1)
		noErr(c, "training pass", err)
		wantM(c, "training pass with dropout rate 0", o, rl.Forward(x, nil), tolF)
	})
	// histories
	for _, k := range kindCfgs {
		k := k
		words(7, 1, pick(r.Max, 7, pick(r.Thorough, 6, 5)), func(w []int) {
			w = cp(w)
			r.Case("histories", func() string {
				return fmt.Sprintf("%v ops %v (0-2 forward batch of 1-3 rows, 3 backward, 4 training pass, 5 new parameters, 6 one weight changed)", k, w)
			}, func(c *core.C) {
				c.Trace()
				rl := k.layer(2, 3, 3)
				h := fromRef(rl)
				type kept struct {
					m nn.Matrix
					v M
				}
				var outs []kept
				var lastX M
				for step, op := range w {
					switch op {
					case 0, 1, 2:
						lastX = genM(op+1, 2, op+step)
						o := wantInfer(c, h, rl, lastX, fmt.Sprintf("forward at step %d", step))
						outs = append(outs, kept{o, val(o)})
					case 3:
						if lastX != nil {
							d := genM(len(lastX), 3, 9)
							h.L.Backward(mat(lastX), mat(d))
							c.Step(1)
						}
					case 4:
						lastX = genM(2, 2, op+step)
						h.L.Forward(mat(lastX))
						c.Step(1)
					case 5:
						rl.W, rl.B = genM(2, 3, 40+step), genM(1, 3, 60+step)[0]
						h.set(rl.W, rl.B)
					case 6:
						rl.W[1][2] += 0.5
						h.W().M[1][2] += 0.5
					}
					for i, k := range outs {
						if !core.BitsM(k.m.M, k.v) {
							c.Failf("output %d changed at step %d: now %s, was %s", i, step, str(k.m.M), str(k.v))
						}
					}
					c.State(core.Hash(k, w[:step+1]))
				}
				w2, b2 := h.params(c)
				if !core.BitsM(w2, rl.W) || !core.BitsM(M{b2}, M{rl.B}) {
					c.Failf("parameters changed by forward/backward: %v %v", w2, b2)
				}
			})
		})
	}
	// models
	words(len(kindMain), 1, pick(r.Max, 5, pick(r.Thorough, 4, 3)), func(w []int) {
		w = cp(w)
		for _, rows := range []int{1, 3} {
			rows := rows
			r.Case("models", func() string { return fmt.Sprintf("kinds %v rows %d", w, rows) }, func(c *core.C) {
				c.State(core.Hash("model", w, rows))
				c.Trace()
				n := seqNet(w, ref.MSE, 3, 2, 5)
				h := buildModel(n, sgd(0.1, 0, 0), 0, 0.1)
				x := genM(rows, 3, 8)
				X := mat(x)
				outs, err := h.Mod.Forward(X, false)
				c.Step(1)
				noErr(c, "Forward", err)
				want := n.Forward(x, nil)
				if len(outs) != len(want) {
					c.Failf("Forward returned %d matrices, want %d", len(outs), len(want))
				}
				for i := range want {
					wantM(c, fmt.Sprintf("output of layer %d", i), outs[i], want[i], tolF)
				}
				untouched(c, "X", X, x)
				p, err := h.Mod.Predict(X)
				c.Step(1)
				noErr(c, "Predict", err)
				wantM(c, "Predict", p, want[len(want)-1], tolF)
				untouched(c, "X", X, x)
				for i := 1; i < len(want); i++ {
					wantM(c, fmt.Sprintf("output of layer %d after another pass", i), outs[i], want[i], tolF)
				}
			})
		}
	})
}

// seqNet makes a network of the given kinds (indices into kindMain) with varying widths.
func seqNet(kinds []int, loss, in, out, seed int) *ref.Net {
	n := &ref.Net{Loss: loss}
	widths := []int{in}
	for i := 1; i < len(kinds); i++ {
		widths = append(widths, 2+(i+1)%2)
	}
	widths = append(widths, out)
	for i, k := range kinds {
		l := kindMain[k].layer(widths[i], widths[i+1], seed+i*17)
		n.Layers = append(n.Layers, l)
	}
	return n
}

func layerShape(c *core.C, k kindCfg, in, out, rows int, perms bool) {
	c.State(core.Hash("shape", k, in, out, rows))
	c.Trace()
	rl := k.layer(in, out, in*7+out)
	h := fromRef(rl)
	x := genM(rows, in, rows)
	o := wantInfer(c, h, rl, x, "batch")
	full := val(o)
	// every row on its own
	step := 1 + rows/6
	for i := 0; i < rows; i += step {
		p := wantInfer(c, h, rl, M{x[i]}, "single row")
		if !core.CloseM(M{full[i]}, p.M, 1e-12) {
			c.Failf("row %d in the batch gives %v, alone %v", i, full[i], p.M[0])
		}
	}
	if !core.BitsM(o.M, full) {
		c.Failf("the batch's output changed during later passes")
	}
	// the caller's batch matrix and the parameters filled with new values
	buf := mat(x)
	for t := 0; t < 3; t++ {
		y := genM(rows, in, rows+50+t)
		refill(buf, y)
		if t == 2 {
			rl.W, rl.B = genM(in, out, in+90), genM(1, out, out+91)[0]
			refill(*h.W(), rl.W)
			refill(*h.B(), M{rl.B})
		}
		p, err := h.infer(buf)
		c.Step(1)
		noErr(c, "refilled batch", err)
		wantM(c, "refilled batch", p, rl.Forward(y, nil), tolF)
		untouched(c, "refilled batch", buf, y)
		if overlaps(p, o) || overlaps(p, buf) {
			c.Failf("an output shares storage with an earlier output or the input")
		}
		if t == 1 {
			scribble(p)
		}
	}
	if !core.BitsM(o.M, full) {
		c.Failf("the batch's output changed during later passes")
	}
	o = wantInfer(c, h, rl, x, "batch again")
	full = val(o)
	// reversed and rotated and with a duplicated row
	for _, f := range []func(i int) int{func(i int) int { return rows - 1 - i }, func(i int) int { return (i + 1) % rows }, func(i int) int { return i / 2 }} {
		y := make(M, rows)
		for i := range y {
			y[i] = x[f(i)]
		}
		p := wantInfer(c, h, rl, y, "reordered batch")
		for i := range y {
			if !core.CloseM(M{p.M[i]}, M{full[f(i)]}, 1e-12) {
				c.Failf("row %d of a reordered batch gives %v, want %v", i, p.M[i], full[f(i)])
			}
		}
	}
	// changing one row changes no other
	if rows > 1 && perms {
		for i := 0; i < rows; i++ {
			y := core.CopyM(x)
			for j := range y[i] {
				y[i][j] = -3 * y[i][j]
			}
			p := wantInfer(c, h, rl, y, "batch with one row changed")
			for q := range y {
				if q != i && !core.CloseM(M{p.M[q]}, M{full[q]}, 1e-12) {
					c.Failf("row %d depends on row %d", q, i)
				}
			}
		}
	}
}

// ---- C05 ----

// maskOf recovers the factors of a training dropout pass from its output.
func maskOf(rl *ref.Layer, x M, out nn.Matrix) M {
	plain := rl.Forward(x, nil)
	m := ref.Zeros(len(plain), rl.Out)
	for i := range m {
		for j := range m[i] {
			if plain[i][j] != 0 {
				m[i][j] = out.M[i][j] / plain[i][j]
			}
		}
	}
	return m
}

// wantGrads compares with both conventions at the kink.
func wantGrads(c *core.C, what string, rl *ref.Layer, x, d, mask M, dW, dB, dX nn.Matrix) {
	conv := 1
	if rl.HasKink(x) {
		conv = 2
	}
	var msg string
	for kink := 0; kink < conv; kink++ {
		w, b, xx := rl.Backward(x, d, mask, kink)
		msg = diff("weights", dW, w) + diff("biases", dB, M{b}) + diff("inputs", dX, xx)
		if msg == "" {
			return
		}
	}
	c.Failf("%s: %s", what, msg)
}

func diff(what string, got nn.Matrix, want M) string {
	if !shapeOK(got, len(want), len(want[0])) {
		return fmt.Sprintf("gradient of the %s has shape %dx%d, want %dx%d; ", what, got.Rows, got.Cols, len(want), len(want[0]))
	}
	if !core.CloseM(got.M, want, 1e-9) {
		return fmt.Sprintf("gradient of the %s is %s, want %s; ", what, str(got.M), str(want))
	}
	return ""
}

// dualGrads differentiates sum(d*out) by dual numbers.
func dualGrads(rl *ref.Layer, x, d, mask M, kink int) (dW M, dB []float64, dX M) {
	n := rl.In*rl.Out + rl.Out + len(x)*rl.In
	next := 0
	w := ref.VarM(rl.W, &next, n)
	b := ref.VarM(M{rl.B}, &next, n)
	xx := ref.VarM(x, &next, n)
	o := ref.ForwardD(rl, xx, w, b[0], mask, kink)
	s := ref.Cst(0)
	for i := range o {
		for j := range o[i] {
			s = ref.Add(s, ref.Scale(o[i][j], d[i][j]))
		}
	}
	g := s.G
	if g == nil {
		g = make([]float64, n)
	}
	k := 0
	take := func(r, c int) M {
		m := ref.Zeros(r, c)
		for i := range m {
			for j := range m[i] {
				m[i][j] = g[k]
				k++
			}
		}
		return m
	}
	return take(rl.In, rl.Out), take(1, rl.Out)[0], take(len(x), rl.In)
}

func oneBackward(c *core.C, h *LH, rl *ref.Layer, x, d M, dual bool) {
	X, D := mat(x), mat(d)
	training := rl.Kind == ref.Dropout
	o, err := h.L.Forward(X)
	noErr(c, "Forward", err)
	var mask M
	if training {
		mask = maskOf(rl, x, o)
	}
	dW, dB, dX, err := h.L.Backward(X, D)
	c.Step(2)
	noErr(c, "Backward", err)
	wantGrads(c, "backward", rl, x, d, mask, dW, dB, dX)
	if dual {
		ok := false
		for kink := 0; kink < 2 && !ok; kink++ {
			w, b, xx := dualGrads(rl, x, d, mask, kink)
			ok = core.CloseM(dW.M, w, 1e-8) && core.CloseM(dB.M, M{b}, 1e-8) && core.CloseM(dX.M, xx, 1e-8)
		}
		if !ok {
			c.Failf("gradients differ from the dual-number derivative")
		}
	}
	untouched(c, "the input passed to backward", X, x)
	untouched(c, "the gradient passed to backward", D, d)
	w, b := h.params(c)
	if !core.BitsM(w, rl.W) || !core.BitsM(M{b}, M{rl.B}) {
		c.Failf("backward changed the parameters")
	}
	for _, g := range []nn.Matrix{dW, dB, dX} {
		if overlaps(g, X) || overlaps(g, D) || overlaps(g, *h.W()) || overlaps(g, *h.B()) || overlaps(g, o) {
			c.Failf("a returned gradient shares storage with an argument, a parameter or the output")
		}
	}
	if overlaps(dW, dB) || overlaps(dW, dX) || overlaps(dB, dX) {
		c.Failf("returned gradients share storage")
	}
	// the caller scribbles on everything it was given, refills its own buffers
	// and (the second time) the parameters, and goes again
	kept, keptV := []nn.Matrix{dW, dB, dX}, []M{val(dW), val(dB), val(dX)}
	for t := 0; t < 3 && (dual || rl.In != 2 || rl.Out != 2); t++ {
		x2, d2 := x, d
		if t > 0 {
			f := float64(t)
			x2 = ref.Map(x, func(v float64) float64 { return 0.25*v - f })
			d2 = ref.Map(d, func(v float64) float64 { return f - 0.5*v })
			refill(X, x2)
			refill(D, d2)
		}
		rl2 := rl
		if t == 2 {
			q := *rl
			rl2 = &q
			rl2.W = ref.Map(rl.W, func(v float64) float64 { return 0.5*v + 0.125 })
			rl2.B = ref.Map(M{rl.B}, func(v float64) float64 { return 0.25 - v })[0]
			refill(*h.W(), rl2.W)
			refill(*h.B(), M{rl2.B})
		}
		o2, err := h.L.Forward(X)
		noErr(c, "Forward again", err)
		var mask2 M
		if training {
			mask2 = maskOf(rl2, x2, o2)
		}
		scribble(o2)
		for rep := 0; rep < 2; rep++ {
			w2, b2, xx2, err := h.L.Backward(X, D)
			c.Step(2)
			noErr(c, "Backward again", err)
			wantGrads(c, "backward with refilled buffers", rl2, x2, d2, mask2, w2, b2, xx2)
			scribble(w2)
			scribble(b2)
			scribble(xx2)
		}
		untouched(c, "the refilled input", X, x2)
		untouched(c, "the refilled gradient", D, d2)
	}
	for i := range kept {
		if !core.BitsM(kept[i].M, keptV[i]) {
			c.Failf("a gradient returned earlier changed")
		}
	}
	refill(X, x)
	refill(D, d)
	refill(*h.W(), rl.W)
	refill(*h.B(), M{rl.B})
	// inference pass of dropout, then backward: nothing dropped
	if training {
		_, err := h.drop.ForwardNoDropout(X)
		noErr(c, "ForwardNoDropout", err)
		dW, dB, dX, err := h.L.Backward(X, D)
		c.Step(2)
		noErr(c, "Backward", err)
		wantGrads(c, "backward after an inference pass", rl, x, d, nil, dW, dB, dX)
	}
}

func c05(r *core.Run) {
	r.Rule = "cases: every layer kind with every tuple of parameter, input and upstream values of an alphabet (sizes 1-2), every combination of structured matrices (28 patterns) for inputs and upstream gradient with 10x4 for the parameters, every small shape (also against dual-number differentiation), a sweep of sizes, and every history of forward passes (3 batch sizes), backward passes, scribbling on returned matrices, parameter updates and rejected calls up to a depth; states are distinct (layer, history) pairs or inputs"
	r.Assume("at exactly 0 the ReLU derivative may be taken as 0 or 1 and the leaky ReLU derivative as slope or 1", "parameters are not changed between a forward pass and its backward pass", "the factors of a dropout pass are read off its output (its distribution is C14)")
	A := []float64{0, 1, -1, 0.5, -2, 1e-8, 20, -20}
	for _, k := range kindCfgs {
		k := k
		h1 := fromRef(k.layer(1, 1, 0))
		product([]int{len(A), len(A), len(A), 4}, func(ix []int) {
			w, b, x, d := A[ix[0]], A[ix[1]], A[ix[2]], A[ix[3]]
			r.Case("1x1 values", func() string { return fmt.Sprintf("%v w=%v b=%v x=%v d=%v", k, w, b, x, d) }, func(c *core.C) {
				c.State(core.HashF(core.Hash(k), w, b, x, d))
				rl := &ref.Layer{Kind: k.kind, In: 1, Out: 1, Slope: k.slope, Rate: k.rate, W: M{{w}}, B: []float64{b}}
				h1.set(rl.W, rl.B)
				oneBackward(c, h1, rl, M{{x}}, M{{d}}, true)
			})
		})
		B := []float64{-1, 0.5, 2}
		h2 := fromRef(k.layer(2, 2, 0))
		product([]int{3, 3, 3, 3, 3, 3, 3, 3}, func(ix []int) {
			rl := &ref.Layer{Kind: k.kind, In: 2, Out: 2, Slope: k.slope, Rate: k.rate, W: M{{B[ix[0]], B[ix[1]]}, {B[ix[2]], 0.7}}, B: []float64{B[ix[3]], -0.3}}
			x := M{{B[ix[4]], B[ix[5]]}, {0.5, -0.25}}
			d := M{{B[ix[6]], B[ix[7]]}, {0.5, 1.25}}
			r.Case("2x2 values", func() string { return fmt.Sprintf("%v W=%v B=%v x=%v d=%v", k, rl.W, rl.B, x, d) }, func(c *core.C) {
				c.State(core.HashM(core.HashF(core.HashM(core.HashM(core.Hash(k), rl.W), x), rl.B...), d))
				h2.set(rl.W, rl.B)
				oneBackward(c, h2, rl, x, d, false)
			})
		})
	}
	n := pick(r.Max, 8, pick(r.Thorough, 6, 4))
	for _, k := range kindCfgs {
		product([]int{n, n, n}, func(ix []int) {
			in, out, rows := ix[0]+1, ix[1]+1, ix[2]+1
			r.Case("shapes", func() string { return fmt.Sprintf("%v %dx%d rows %d", k, in, out, rows) }, func(c *core.C) {
				c.State(core.Hash("shape", k, in, out, rows))
				c.Trace()
				rl := k.layer(in, out, in*5+out)
				oneBackward(c, fromRef(rl), rl, genM(rows, in, rows), genM(rows, out, rows+3), true)
			})
		})
		sweep := sizesUpTo(pick(r.Max, 260, pick(r.Thorough, 140, 40)), 63, 64, 65, 100, 127, 128, 129)
		long := append(append([]int{}, sweep...), 255, 256, 257, 300, 512, 513, 1000, 1025)
		for _, s := range long {
			s, k := s, k
			r.Case("size sweep", func() string { return fmt.Sprintf("%v size %d", k, s) }, func(c *core.C) {
				c.State(core.Hash("sweep", k, s))
				c.Trace()
				for _, q := range [][3]int{{s, 2, 2}, {2, s, 2}, {2, 3, s}} {
					if k.kind == ref.Softmax && q[1] > 257 && !r.Thorough {
						continue
					}
					rl := k.layer(q[0], q[1], s)
					oneBackward(c, fromRef(rl), rl, genM(q[2], q[0], 4), genM(q[2], q[1], 5), false)
				}
			})
		}
	}
	for _, k := range kindCfgs {
		for _, s := range huge {
			s, k := s, k
			r.Case("very large", func() string { return fmt.Sprintf("%v size %d", k, s) }, func(c *core.C) {
				c.State(core.Hash("huge", k, s))
				c.Trace()
				for _, q := range [][3]int{{s, 1, 2}, {1, s, 2}, {1, 2, s}} {
					if k.kind == ref.Softmax && q[1] > 2 {
						continue // its Jacobian has the square of that many entries
					}
					rl := k.layer(q[0], q[1], s)
					oneBackward(c, fromRef(rl), rl, genM(q[2], q[0], 4), genM(q[2], q[1], 5), false)
				}
			})
		}
	}
	patternCases05(r)
	// histories
	hist := []kindCfg{{ref.Hidden, 0, 0}, {ref.Linear, 0, 0}, {ref.Sigmoid, 0, 0}, {ref.Leaky, 0.3, 0}, {ref.Leaky, 0, 0}, {ref.Softmax, 0, 0}, {ref.Dropout, 0, 0.5}, {ref.Dropout, 0, 0}, {ref.Dropout, 0, 1}}
	for _, k := range hist {
		k := k
		words(8, 2, pick(r.Max, 7, pick(r.Thorough, 6, 5)), func(w []int) {
			if w[len(w)-1] != 3 && w[len(w)-1] != 4 {
				return // only histories ending in a backward pass say anything new
			}
			w = cp(w)
			r.Case("histories", func() string {
				return fmt.Sprintf("%v ops %v (0-2 forward with 1-3 rows, 3-4 backward, 5 scribble on everything returned, 6 parameter update, 7 rejected calls)", k, w)
			}, func(c *core.C) { backHistory(c, k, w) })
		})
	}
}

func backHistory(c *core.C, k kindCfg, w []int) {
	c.Trace()
	rl := k.layer(2, 3, 3)
	h := fromRef(rl)
	var x, mask M
	var X nn.Matrix
	fresh := false // a forward pass with the current parameters
	var returned []nn.Matrix
	for step, op := range w {
		switch op {
		case 0, 1, 2:
			x = genM(op+1, 2, op*3+step)
			X = mat(x)
			var o nn.Matrix
			var err error
			mask = nil
			if k.kind == ref.Dropout && (op == 1 || step%2 == 0) {
				o, err = h.drop.Forward(X)
				noErr(c, "Forward", err)
				mask = maskOf(rl, x, o)
			} else {
				o, err = h.infer(X)
				noErr(c, "Forward", err)
			}
			c.Step(1)
			returned = append(returned, o)
			fresh = true
		case 3, 4:
			if !fresh {
				continue
			}
			d := genM(len(x), 3, op*11+step)
			D := mat(d)
			dW, dB, dX, err := h.L.Backward(X, D)
			c.Step(1)
			noErr(c, fmt.Sprintf("backward at step %d", step), err)
			wantGrads(c, fmt.Sprintf("backward at step %d", step), rl, x, d, mask, dW, dB, dX)
			untouched(c, "the gradient passed in", D, d)
			untouched(c, "the input passed in", X, x)
			returned = append(returned, dW, dB, dX)
		case 5:
			for _, m := range returned {
				scribble(m)
			}
			returned = nil
		case 6:
			if step%2 == 1 { // one weight, then one bias
				rl.W[1][2] += 0.5
				h.W().M[1][2] += 0.5
			} else {
				rl.W, rl.B = genM(2, 3, 80+step), genM(1, 3, 90+step)[0]
				h.set(rl.W, rl.B)
			}
			fresh = false
		case 7:
			if _, err := h.infer(mat(genM(2, 4, 1))); err == nil {
				c.Failf("forward accepted 4 features for a layer of 2")
			}
			if _, _, _, err := h.L.Backward(mat(genM(5, 2, 1)), mat(genM(4, 3, 1))); err == nil {
				c.Failf("backward accepted 5 inputs with 4 gradients")
			}
			if _, _, _, err := h.L.Backward(mat(genM(2, 2, 1)), mat(genM(2, 5, 1))); err == nil {
				c.Failf("backward accepted gradients of 5 outputs for a layer of 3")
			}
			c.Step(3)
		}
		c.State(core.Hash(k, w[:step+1]))
	}
	gw, gb := h.params(c)
	if !core.BitsM(gw, rl.W) || !core.BitsM(M{gb}, M{rl.B}) {
		c.Failf("the parameters changed: %v %v, want %v %v", gw, gb, rl.W, rl.B)
	}
}
