package main

import (
	"fmt"
	"math"
	"strings"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
	"nnverif/seam/ctl"
)

func init() { checks["C14"] = c14 }

// maskFrom reads the dropout factors off an output: only defined where the
// inference output is positive; elsewhere the factor has no effect and is nil'd to 0.
func maskFrom(c *core.C, what string, rate float64, full M, out nn.Matrix) (mask M, pattern string) {
	if !shapeOK(out, len(full), len(full[0])) {
		c.Failf("%s: shape %dx%d, want %dx%d", what, out.Rows, out.Cols, len(full), len(full[0]))
	}
	var pat []byte
	mask = ref.Zeros(len(full), len(full[0]))
	for i := range full {
		for j, f := range full[i] {
			o := out.M[i][j]
			kept := f / (1 - rate)
			switch {
			case f == 0:
				if o != 0 {
					c.Failf("%s: entry [%d][%d] is %v where the ReLU output is 0", what, i, j, o)
				}
				pat = append(pat, '.')
			case o == 0:
				pat = append(pat, '0')
			case rate < 1 && core.Close(o, kept, 1e-12):
				pat = append(pat, '1')
				mask[i][j] = 1 / (1 - rate)
			default:
				c.Failf("%s: entry [%d][%d] is %v, want 0 or %v/(1-%v)", what, i, j, o, f, rate)
			}
		}
	}
	return mask, string(pat)
}

// patternProb is the probability the property gives to a pattern.
func patternProb(p string, rate float64) float64 {
	q := 1.0
	for _, ch := range p {
		switch ch {
		case '0':
			q *= rate
		case '1':
			q *= 1 - rate
		}
	}
	return q
}

// allPatterns enumerates the patterns of a matrix.
func allPatterns(full M, rate float64, f func(p string)) {
	ps := []string{""}
	for i := range full {
		for _, v := range full[i] {
			var next []string
			for _, p := range ps {
				switch {
				case v == 0:
					next = append(next, p+".")
				default:
					next = append(next, p+"0", p+"1")
				}
			}
			ps = next
		}
	}
	for _, p := range ps {
		f(p)
	}
}

func wantProbs(c *core.C, what string, got map[string]float64, want map[string]float64) {
	for p, w := range want {
		if math.Abs(got[p]-w) > 1e-9 {
			c.Failf("%s: outcome %q has probability %v, want %v (all: %v)", what, p, got[p], w, got)
		}
	}
	for p, g := range got {
		if _, ok := want[p]; !ok && g > 1e-9 {
			c.Failf("%s: outcome %q (probability %v) should not occur", what, p, g)
		}
	}
}

// checkBackward compares a backward pass with the reference under a mask.
func checkBackward(c *core.C, h *LH, l *ref.Layer, x, mask M, seed int) {
	d := genM(len(x), l.Out, seed)
	X, D := mat(x), mat(d)
	dw, db, dx, err := h.L.Backward(X, D)
	c.Step(1)
	noErr(c, "Backward", err)
	w, b, e := l.Backward(x, d, mask, 0)
	wantM(c, "dWeights", dw, w, 1e-9)
	wantM(c, "dBiases", db, M{b}, 1e-9)
	wantM(c, "dInputs", dx, e, 1e-9)
	untouched(c, "gradient passed in", D, d)
	untouched(c, "X", X, x)
}

func dropLayer(in, out, seed int, rate float64) *ref.Layer {
	l := refLayer(ref.Dropout, in, out, seed)
	l.Rate = rate
	return l
}

// positive makes the layer's pre-activations positive for positive inputs.
func positive(l *ref.Layer) *ref.Layer {
	for i := range l.W {
		for j := range l.W[i] {
			l.W[i][j] = math.Abs(l.W[i][j]) + 0.01
		}
	}
	for j := range l.B {
		l.B[j] = math.Abs(l.B[j]) + 0.01
	}
	return l
}

func absM(m M) M { return ref.Map(m, math.Abs) }

// controlled says whether the dropout draws go through the seam.
func controlled() bool {
	l := dropLayer(1, 1, 1, 0.5)
	h := fromRef(l)
	n := ctl.Draws()
	h.L.Forward(mat(M{{1}}))
	return ctl.Draws() > n
}

func c14(r *core.Run) {
	r.Rule = "cases: dropout layers of every small shape and batch size, rates on and off the grid, input signs, alone and in models, the point at which a draw changes the outcome, larger layers one draw at a time; each case walks every outcome of the random draws (choice tree over the random source) and compares the exact distribution of outcomes, the backward pass of each outcome and training under each outcome with the reference; states are distinct (layer, outcome)"
	r.Assume("a uniform draw is represented by the midpoints of a grid of equal cells; the rates of the exact cases are multiples of the cell width", "sources seeded at different times are independent, sources with equal seeds are identical")
	tree := controlled()
	r.Extra("random_source_controlled", tree)
	if tree {
		c14tree(r)
	}
	c14plain(r, tree)
}

func c14tree(r *core.Run) {
	type shape struct{ rows, in, out, grid int }
	var shapes []shape
	for rows := 1; rows <= 4; rows++ {
		for in := 1; in <= 2; in++ {
			for out := 1; out <= 4; out++ {
				n := rows * out
				switch {
				case n <= 3:
					shapes = append(shapes, shape{rows, in, out, 10}, shape{rows, in, out, 8}, shape{rows, in, out, 4})
				case n <= 4:
					shapes = append(shapes, shape{rows, in, out, 5}, shape{rows, in, out, 4})
				case n <= 6:
					shapes = append(shapes, shape{rows, in, out, 4})
				case n <= pick(r.Max, 14, pick(r.Thorough, 12, 9)):
					shapes = append(shapes, shape{rows, in, out, 2})
				}
			}
		}
	}
	for _, s := range shapes {
		for k := 0; k <= s.grid; k++ {
			for sign := 0; sign < 2; sign++ {
				s, sign := s, sign
				rate := float64(k) / float64(s.grid)
				r.Case("distribution of one pass", func() string {
					return fmt.Sprintf("rows %d %dx%d rate %v signs %d", s.rows, s.in, s.out, rate, sign)
				}, func(c *core.C) {
					l := dropLayer(s.in, s.out, k+s.grid, rate)
					x := genM(s.rows, s.in, 3)
					if sign == 0 {
						positive(l)
						x = absM(x)
					} else if s.out > 1 {
						l.B[0] = 0 // a pre-activation of exactly 0 in the first column for a zero row
						for i := range x[0] {
							x[0][i] = 0
						}
					}
					full := l.Forward(x, nil)
					got, exp := map[string]float64{}, ref.Zeros(s.rows, s.out)
					n, done := ctl.Explore(s.grid, 1<<21, func(prob func() float64) {
						h := fromRef(l)
						X := mat(x)
						o, err := h.L.Forward(X)
						c.Step(1)
						c.Trace()
						noErr(c, "Forward", err)
						untouched(c, "X", X, x)
						m, p := maskFrom(c, "training pass", rate, full, o)
						w := prob()
						got[p] += w
						for i := range exp {
							for j := range exp[i] {
								exp[i][j] += w * o.M[i][j]
							}
						}
						if p1 := prob(); p1 != w {
							c.Failf("reading the output draws again")
						}
						checkBackward(c, h, l, x, m, 11)
						c.State(core.Hash(s, k, sign, p))
					})
					if !done {
						panic(core.Undecided("the choice tree is too large"))
					}
					_ = n
					want := map[string]float64{}
					allPatterns(full, rate, func(p string) {
						if q := patternProb(p, rate); q > 0 {
							want[p] = q
						}
					})
					wantProbs(c, "training pass", got, want)
					if rate < 1 {
						for i := range exp {
							for j := range exp[i] {
								if !core.Close(exp[i][j], full[i][j], 1e-9) {
									c.Failf("the average output [%d][%d] over all outcomes is %v, the inference output is %v", i, j, exp[i][j], full[i][j])
								}
							}
						}
					}
				})
			}
		}
	}
	// any rate, on a fine grid: the number of kept cells is right to one cell
	fine := pick(r.Max, 20000, pick(r.Thorough, 4000, 1000))
	for k := 0; k <= 64+8; k++ {
		rate := float64(k) / 64
		if k > 64 {
			rate = []float64{0.001, 0.999, 0.1, 0.3, 1.0 / 3, 0.7, 0.9, 0.05}[k-65]
		}
		r.Case("any rate on a fine grid", func() string { return fmt.Sprint(rate) }, func(c *core.C) {
			l := positive(dropLayer(1, 1, 1, rate))
			full := l.Forward(M{{1}}, nil)
			kept := 0.0
			ctl.Explore(fine, 1<<20, func(prob func() float64) {
				h := fromRef(l)
				o, err := h.L.Forward(mat(M{{1}}))
				noErr(c, "Forward", err)
				c.Step(1)
				_, p := maskFrom(c, "training pass", rate, full, o)
				if p == "1" {
					kept += prob()
				}
			})
			c.Trace()
			c.State(core.Hash("fine", k))
			if math.Abs(kept-(1-rate)) > 1.01/float64(fine) {
				c.Failf("an output is kept with probability %v, want %v", kept, 1-rate)
			}
		})
	}
	// any rate at all: the draw at which the outcome turns is the rate, to 2^-22
	const cells = 1 << 40
	var rates []float64
	for k := 1; k <= 20; k++ {
		rates = append(rates, math.Ldexp(1, -k), 1-math.Ldexp(1, -k), math.Pow(10, -float64(k)/3), 1-math.Pow(10, -float64(k)/3))
	}
	for k := 1; k < 40; k++ {
		rates = append(rates, float64(k)/40)
	}
	for _, rate := range append(rates, 0, 1) {
		rate := rate
		r.Case("where the outcome turns", func() string { return fmt.Sprint(rate) }, func(c *core.C) {
			l := positive(dropLayer(1, 1, 1, rate))
			full := l.Forward(M{{1}}, nil)
			n, direct := 0, true
			kept := func(cell int) (k bool) {
				n = ctl.Fixed(cells, func(at, n int) int {
					if n != cells {
						direct = false
						return cell % n
					}
					return cell
				}, func() {
					o, err := fromRef(l).L.Forward(mat(M{{1}}))
					noErr(c, "Forward", err)
					c.Step(1)
					_, p := maskFrom(c, "training pass", rate, full, o)
					k = p == "1"
				})
				return
			}
			first, last := kept(0), kept(cells-1)
			c.Trace()
			c.State(core.Hash("turns", math.Float64bits(rate)))
			if n > 1 || !direct {
				r.Add("rates_not_drawn_as_one_uniform_float", 1)
				return
			}
			var at []int // cells that say something about the rate
			for k := 0; k < 40; k++ {
				at = append(at, 1<<k, cells-1<<k)
			}
			if rate == 0 || rate == 1 {
				for _, v := range append(at, 0, cells-1) {
					if kept(v) != (rate == 0) {
						c.Failf("an output is kept: %v, for the draw %v", kept(v), (float64(v)+0.5)/cells)
					}
				}
				return
			}
			if first == last {
				c.Failf("both extremes of the draw give kept = %v", first)
			}
			lo, hi := 0, cells-1
			for hi-lo > 1 {
				if m := (lo + hi) / 2; kept(m) == first {
					lo = m
				} else {
					hi = m
				}
			}
			share := float64(hi) / cells
			if !first {
				share = 1 - share
			}
			if math.Abs(share-(1-rate)) > 3e-7 {
				c.Failf("an output is kept with probability %v, want %v", share, 1-rate)
			}
			for _, v := range at { // there is one turn only
				if kept(v) != (first == (v <= lo)) {
					c.Failf("the outcome turns more than once, at %v and around %v", share, float64(v)/cells)
				}
			}
		})
	}
	// joint distribution over several passes of one layer and over two layers
	for _, two := range []bool{false, true} {
		for rows := 1; rows <= 2; rows++ {
			for out := 1; out <= 2; out++ {
				for k := 0; k <= 4; k++ {
					rate := float64(k) / 4
					two, rows, out := two, rows, out
					if rows*out == 4 && !r.Thorough && k != 2 {
						continue
					}
					r.Case("two passes are independent", func() string {
						return fmt.Sprintf("different layers %v, rows %d, %d outputs, rate %v", two, rows, out, rate)
					}, func(c *core.C) {
						l := positive(dropLayer(2, out, 4, rate))
						x1, x2 := absM(genM(rows, 2, 1)), absM(genM(rows, 2, 2))
						f1, f2 := l.Forward(x1, nil), l.Forward(x2, nil)
						got, want := map[string]float64{}, map[string]float64{}
						allPatterns(f1, rate, func(p string) {
							allPatterns(f2, rate, func(q string) {
								if w := patternProb(p, rate) * patternProb(q, rate); w > 0 {
									want[p+"|"+q] = w
								}
							})
						})
						g := 4
						if rows*out == 4 {
							g = 2
							if k%2 != 0 {
								return
							}
						}
						_, done := ctl.Explore(g, 1<<22, func(prob func() float64) {
							h := fromRef(l)
							h2 := h
							if two {
								h2 = fromRef(l)
							}
							o1, err := h.L.Forward(mat(x1))
							noErr(c, "Forward", err)
							_, p := maskFrom(c, "first pass", rate, f1, o1)
							o2, err := h2.L.Forward(mat(x2))
							noErr(c, "Forward", err)
							m2, q := maskFrom(c, "second pass", rate, f2, o2)
							c.Step(2)
							c.Trace()
							got[p+"|"+q] += prob()
							checkBackward(c, h2, l, x2, m2, 5)
							c.State(core.Hash("two", two, rows, out, k, p, q))
						})
						if !done {
							panic(core.Undecided("the choice tree is too large"))
						}
						wantProbs(c, "two passes", got, want)
					})
				}
			}
		}
	}
	// histories of passes: the backward pass belongs to the latest forward pass
	names := []string{"train(A)", "train(B)", "infer(A)", "infer(B)", "refused"}
	words(len(names), 1, pick(r.Max, 5, pick(r.Thorough, 4, 3)), func(w []int) {
		w = cp(w)
		r.Case("histories", func() string {
			var s []string
			for _, k := range w {
				s = append(s, names[k])
			}
			return fmt.Sprint(s)
		}, func(c *core.C) {
			l := dropLayer(1, 2, 9, 0.5)
			l.B[0], l.B[1] = 0.5, 0.7
			xs := []M{{{0.3}}, {{0.9}, {-0.2}}}
			ctl.Explore(2, 1<<16, func(func() float64) {
				h := fromRef(l)
				var x, mask M
				for _, op := range w {
					switch op {
					case 0, 1:
						x = xs[op]
						o, err := h.L.Forward(mat(x))
						noErr(c, "Forward", err)
						mask, _ = maskFrom(c, "training pass", 0.5, l.Forward(x, nil), o)
						scribble(o)
					case 2, 3:
						x, mask = xs[op-2], nil
						o, err := h.drop.ForwardNoDropout(mat(x))
						noErr(c, "ForwardNoDropout", err)
						wantM(c, "inference output", o, l.Forward(x, nil), 1e-12)
						scribble(o)
					case 4:
						if _, err := h.L.Forward(mat(genM(3, 2, 1))); err == nil {
							c.Failf("a batch with the wrong feature count was accepted")
						}
						if x == nil {
							continue
						}
					}
					c.Step(1)
					checkBackward(c, h, l, x, mask, 3)
					c.State(core.Hash(w, str(mask)))
				}
				c.Trace()
			})
		})
	})
	c14models(r)
	c14wide(r)
}

// c14wide: layers too large for the whole choice tree. With every other draw
// fixed, each draw is given each outcome: it must decide one output, and each
// output must be decided by one draw, with the right probability.
func c14wide(r *core.Run) {
	skipped := 0
	for _, s := range [][2]int{{1, 5}, {1, 17}, {17, 1}, {1, 24}, {1, 25}, {1, 26}, {25, 1}, {30, 1}, {1, 33}, {8, 8}, {5, 17}, {3, 40}, {1, 65}, {65, 1}, {16, 17}, {1, 129}, {129, 1}, {1, 257}} {
		for k := 0; k <= 4; k++ {
			for base := 0; base < 4; base++ {
				s, k, base := s, k, base
				rate := float64(k) / 4
				r.Case("each draw decides one output", func() string {
					return fmt.Sprintf("rows %d, %d outputs, rate %v, other draws %d/4", s[0], s[1], rate, base)
				}, func(c *core.C) {
					l := positive(dropLayer(2, s[1], 4, rate))
					x := absM(genM(s[0], 2, 1))
					full := l.Forward(x, nil)
					var pat string
					run := func(draw, v int) int {
						return ctl.Fixed(4, func(at, n int) int {
							if at == draw {
								return v % n
							}
							return base % n
						}, func() {
							h := fromRef(l)
							o, err := h.L.Forward(mat(x))
							noErr(c, "Forward", err)
							c.Step(1)
							_, pat = maskFrom(c, "training pass", rate, full, o)
						})
					}
					n := run(-1, 0)
					c.State(core.Hash("wide", s, k, base))
					if n != s[0]*s[1] {
						skipped++
						r.Extra("wide_layers_not_drawn_per_output", skipped)
						return
					}
					c.Trace()
					base := pat
					owner := make([]int, n)
					for i := range owner {
						owner[i] = -1
					}
					for d := 0; d < n; d++ {
						kept := map[int]int{}
						for v := 0; v < 4; v++ {
							run(d, v)
							for i := range pat {
								if pat[i] == '1' {
									kept[i]++
								}
							}
						}
						for i := range base {
							k := kept[i]
							if k == 0 && base[i] == '0' || k == 4 && base[i] == '1' {
								continue
							}
							if owner[i] >= 0 {
								c.Failf("output %d depends on the draws %d and %d", i, owner[i], d)
							}
							owner[i] = d
							if math.Abs(float64(k)/4-(1-rate)) > 1e-9 {
								c.Failf("output %d is kept in %d of 4 outcomes of its draw, want %v", i, k, 4*(1-rate))
							}
						}
					}
					owned := map[int]bool{}
					for i, d := range owner {
						if rate == 0 || rate == 1 {
							if base[i] != "10"[int(rate)] {
								c.Failf("output %d at rate %v: %c", i, rate, base[i])
							}
							continue
						}
						if d < 0 || owned[d] {
							c.Failf("output %d of %d has no draw of its own", i, n)
						}
						owned[d] = true
					}
				})
			}
		}
	}
}

// c14models checks dropout inside models, also in training.
func c14models(r *core.Run) {
	L := refLayer
	pos := func(in, out, seed int, rate float64) *ref.Layer { return positive(dropLayer(in, out, seed, rate)) }
	nets := []*ref.Net{
		{Loss: ref.MSE, Layers: []*ref.Layer{pos(1, 2, 1, 0.5), L(ref.Linear, 2, 1, 2)}},
		{Loss: ref.MSE, Layers: []*ref.Layer{L(ref.Sigmoid, 1, 2, 1), pos(2, 2, 3, 0.5)}},
		{Loss: ref.CE, Layers: []*ref.Layer{pos(1, 2, 1, 0.5), L(ref.Softmax, 2, 2, 2)}},
		{Loss: ref.MSE, Layers: []*ref.Layer{pos(1, 1, 1, 0.5), pos(1, 1, 4, 0.5), L(ref.Linear, 1, 1, 2)}},
		{Loss: ref.BCE, Layers: []*ref.Layer{pos(1, 1, 1, 0.25), L(ref.Sigmoid, 1, 1, 2)}},
		{Loss: ref.MSE, Layers: []*ref.Layer{L(ref.Linear, 1, 1, 1), pos(1, 1, 3, 0.5), L(ref.Sigmoid, 1, 1, 2), pos(1, 1, 5, 0.5)}},
		{Loss: ref.CE, Layers: []*ref.Layer{pos(1, 1, 1, 0.5), L(ref.Sigmoid, 1, 1, 2), L(ref.Leaky, 1, 1, 3), pos(1, 1, 3, 0.5), L(ref.Linear, 1, 1, 6), pos(1, 1, 8, 0.5), L(ref.Softmax, 1, 2, 4)}},
	}
	for ni, net := range nets {
		ni, net := ni, net
		grid := pick(ni == 4, 4, 2)
		in, out := net.Layers[0].In, net.Layers[len(net.Layers)-1].Out
		r.Case("model inference", func() string { return netName(net) }, func(c *core.C) {
			x, y := absM(genM(2, in, 1)), labels(net.Loss, 2, out, 1)
			want := net.Predict(x)
			ctl.Explore(grid, 1<<16, func(func() float64) {
				for acc := 0; acc < 3; acc++ {
					h := buildModel(net, sgd(0.1, 0, 0), acc, 0.3)
					o, err := h.Mod.Forward(mat(x), false)
					noErr(c, "Forward", err)
					wantM(c, "inference output", o[len(o)-1], want, 1e-9)
					p, err := h.Mod.Predict(mat(x))
					noErr(c, "Predict", err)
					wantM(c, "prediction", p, ref.Answer(acc, want), 1e-9)
					v, err := h.Mod.CalculateLoss(mat(x), mat(y))
					noErr(c, "CalculateLoss", err)
					if !core.Close(v, ref.Loss(net.Loss, want, y), 1e-9) {
						c.Failf("loss %v, want %v", v, ref.Loss(net.Loss, want, y))
					}
					a, err := h.Mod.CalculateAccuracy(mat(x), mat(y))
					noErr(c, "CalculateAccuracy", err)
					if a != ref.Accuracy(acc, want, y, 0.3) {
						c.Failf("accuracy %v, want %v", a, ref.Accuracy(acc, want, y, 0.3))
					}
					c.Step(4)
				}
				c.Trace()
			})
			c.State(core.Hash("inf", ni))
		})
		r.Case("model forward and backward", func() string { return netName(net) }, func(c *core.C) {
			x, y := absM(genM(2, in, 1)), labels(net.Loss, 2, out, 1)
			ctl.Explore(grid, 1<<18, func(func() float64) {
				h := buildModel(net, sgd(0.1, 0, 0), 0, 0.3)
				o, err := h.Mod.Forward(mat(x), true)
				noErr(c, "Forward", err)
				masks := make([]M, len(net.Layers))
				cur := x
				pat := ""
				for i, l := range net.Layers {
					full := l.Forward(cur, nil)
					if l.Kind == ref.Dropout {
						var p string
						masks[i], p = maskFrom(c, fmt.Sprintf("layer %d", i), l.Rate, full, o[i+1])
						pat += p + "|"
					} else {
						wantM(c, fmt.Sprintf("layer %d", i), o[i+1], full, 1e-9)
					}
					cur = val(o[i+1])
				}
				gs, err := h.Mod.Backward(o, mat(y))
				noErr(c, "Backward", err)
				want := net.Backward(net.Forward(x, masks), y, masks, 0)
				for i := range want {
					g := gs[len(gs)-1-i]
					wantM(c, fmt.Sprintf("layer %d dWeights", i), g.DWeights, want[i].W, 1e-7)
					wantM(c, fmt.Sprintf("layer %d dBiases", i), g.DBiases, M{want[i].B}, 1e-7)
				}
				c.Step(2)
				c.Trace()
				c.State(core.Hash("fb", ni, pat))
			})
		})
		for _, o := range []*ref.Opt{sgd(0.1, 0, 0.5), adam(0.05, 0.1)} {
			for _, run := range [][3]int{{1, 0, 1}, {2, 1, 1}, {1, 0, 2}} { // rows, batch, epochs
				o, run := o, run
				r.Case("training", func() string {
					return fmt.Sprintf("%s %s rows %d batch %d epochs %d", netName(net), optName(o), run[0], run[1], run[2])
				}, func(c *core.C) {
					x, y := absM(genM(run[0], in, 1)), labels(net.Loss, run[0], out, 1)
					// reference: all masks of every step
					type res struct {
						p [][]float64
						w float64
					}
					var want []res
					var rec func(n *ref.Net, step int, w float64)
					batch := run[1]
					if batch == 0 {
						batch = run[0]
					}
					per := (run[0] + batch - 1) / batch
					total := per * run[2]
					add := func(list []res, p [][]float64, w float64) []res {
						for i := range list {
							if closeParams(list[i].p, p) {
								list[i].w += w
								return list
							}
						}
						return append(list, res{p, w})
					}
					rec = func(n *ref.Net, step int, w float64) {
						if step == total {
							want = add(want, netParams(n), w)
							return
						}
						a := (step % per) * batch
						b := min(a+batch, run[0])
						forMasks(n, b-a, func(masks []M, q float64) {
							m := cloneFull(n)
							m.StepMasked(x[a:b], y[a:b], masks)
							rec(m, step+1, w*q)
						})
					}
					n0 := net.Clone()
					n0.SetOpt(o)
					rec(n0, 0, 1)
					var got []res
					_, done := ctl.Explore(grid, 1<<18, func(prob func() float64) {
						h := buildModel(net, o, 0, 0.3)
						noErr(c, "Fit", h.Mod.Fit(mat(x), mat(y), run[2], run[1], nn.Matrix{}, nn.Matrix{}, 0))
						got = add(got, h.params(), prob())
						c.Step(1)
						c.Trace()
					})
					if !done {
						panic(core.Undecided("the choice tree is too large"))
					}
					for _, g := range got {
						c.State(core.HashF(core.Hash(ni, run, optName(o)), flat2(g.p)...))
						f := 0.0
						for _, w := range want {
							if closeParams(g.p, w.p) {
								f = w.w
							}
						}
						if math.Abs(f-g.w) > 1e-9 {
							c.Failf("training ends with probability %v in %v; over all dropout masks that has probability %v", g.w, g.p, f)
						}
					}
				})
			}
		}
	}
}

func flat2(p [][]float64) []float64 {
	var o []float64
	for _, q := range p {
		o = append(o, q...)
	}
	return o
}

func closeParams(a, b [][]float64) bool {
	x, y := flat2(a), flat2(b)
	for i := range x {
		if !core.Close(x[i], y[i], 1e-8) {
			return false
		}
	}
	return len(x) == len(y)
}

// forMasks enumerates the dropout masks of all layers with their probability.
func forMasks(n *ref.Net, rows int, f func(masks []M, w float64)) {
	var cells [][3]int
	for i, l := range n.Layers {
		if l.Kind == ref.Dropout {
			for a := 0; a < rows; a++ {
				for b := 0; b < l.Out; b++ {
					cells = append(cells, [3]int{i, a, b})
				}
			}
		}
	}
	for bits := 0; bits < 1<<len(cells); bits++ {
		masks := make([]M, len(n.Layers))
		w := 1.0
		for k, cell := range cells {
			l := n.Layers[cell[0]]
			if masks[cell[0]] == nil {
				masks[cell[0]] = ref.Zeros(rows, l.Out)
			}
			if bits>>k&1 == 1 {
				masks[cell[0]][cell[1]][cell[2]] = 1 / (1 - l.Rate)
				w *= 1 - l.Rate
			} else {
				w *= l.Rate
			}
		}
		f(masks, w)
	}
}

// cloneFull clones a net with its optimizers' state.
func cloneFull(n *ref.Net) *ref.Net {
	m := n.Clone()
	for _, o := range n.Opts {
		m.Opts = append(m.Opts, o.Clone())
	}
	return m
}

// c14plain runs with the generator's own stream: larger shapes, ties between passes.
func c14plain(r *core.Run, tree bool) {
	rates := []float64{0, 0.001, 0.1, 0.2, 0.25, 0.3, 0.5, 0.6, 0.75, 0.8, 0.9, 0.99, 1}
	for _, rate := range rates {
		for _, rows := range []int{1, 2, 5, 16, 33} {
			for _, out := range []int{1, 3, 8, 17, 40} {
				for _, in := range []int{1, 4} {
					rate, rows, out, in := rate, rows, out, in
					r.Case("larger layers", func() string { return fmt.Sprintf("rate %v rows %d %dx%d", rate, rows, in, out) }, func(c *core.C) {
						l := dropLayer(in, out, rows, rate)
						h := fromRef(l)
						x := genM(rows, in, out)
						for pass := 0; pass < 3; pass++ {
							o, err := h.L.Forward(mat(x))
							noErr(c, "Forward", err)
							m, p := maskFrom(c, "training pass", rate, l.Forward(x, nil), o)
							if rate == 0 {
								for _, ch := range p {
									if ch == '0' {
										c.Failf("an output was dropped at rate 0")
									}
								}
							}
							checkBackward(c, h, l, x, m, pass)
							inf, err := h.drop.ForwardNoDropout(mat(x))
							noErr(c, "ForwardNoDropout", err)
							wantM(c, "inference output", inf, l.Forward(x, nil), 1e-12)
							checkBackward(c, h, l, x, nil, pass)
							c.Step(2)
						}
						c.Trace()
						c.State(core.Hash("larger", rate, rows, out, in))
					})
				}
			}
		}
	}
	// any number of rows, inputs and outputs
	many := []int{48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2049, 4097}
	if r.Max {
		many = append(sizesUpTo(600), many...)
	}
	for _, s := range append(many, huge...) {
		for _, rate := range []float64{0, 0.25, 0.5, 1} {
			s, rate := s, rate
			r.Case("size sweep", func() string { return fmt.Sprintf("rate %v size %d", rate, s) }, func(c *core.C) {
				c.Trace()
				for _, q := range [][3]int{{s, 2, 2}, {2, s, 2}, {2, 3, s}} { // inputs, outputs, rows
					if s > 5000 && q[1] == s {
						q[0], q[2] = 1, 1
					}
					l := positive(dropLayer(q[0], q[1], 3, rate))
					x := absM(genM(q[2], q[0], 1))
					full := l.Forward(x, nil)
					h := fromRef(l)
					for pass := 0; pass < 2; pass++ {
						o, err := h.L.Forward(mat(x))
						noErr(c, "Forward", err)
						m, p := maskFrom(c, "training pass", rate, full, o)
						dropped := strings.Count(p, "0")
						if rate == 0 && dropped > 0 || rate == 1 && dropped < len(p) {
							c.Failf("at rate %v, %d of %d outputs were dropped", rate, dropped, len(p))
						}
						// rows (columns) of a wide (tall) pass are not copies of one another
						if n := q[1]; rate == 0.5 && len(p) > 100 && (dropped == 0 || dropped == len(p) || q[2] == 2 && n == s && n > 60 && p[:n] == p[n:2*n]) {
							c.Failf("the mask of a pass over %d outputs is not random: %d dropped", len(p), dropped)
						}
						for i, run := 1, 0; rate == 0.5 && q[1] == 3 && i < q[2]; i++ {
							if run++; p[3*i:3*i+3] != p[3*i-3:3*i] {
								run = 0
							}
							if run == 40 {
								c.Failf("all of rows %d to %d have the same mask", i-40, i)
							}
						}
						checkBackward(c, h, l, x, m, pass)
						inf, err := h.drop.ForwardNoDropout(mat(x))
						noErr(c, "ForwardNoDropout", err)
						wantM(c, "inference output", inf, full, 1e-12)
						checkBackward(c, h, l, x, nil, pass)
						c.Step(4)
					}
				}
				c.State(core.Hash("dropsweep", rate, s))
			})
		}
		s := s
		r.Case("models and many rows", func() string { return fmt.Sprintf("%d rows", s) }, func(c *core.C) {
			c.Trace()
			for k := 0; k < 2; k++ {
				n := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{refLayer(ref.Linear, 1, 1, 1), positive(dropLayer(1, 2, 3, 0.5))}}
				if k == 1 {
					n = &ref.Net{Loss: ref.CE, Layers: []*ref.Layer{positive(dropLayer(1, 2, 1, 0.5)), refLayer(ref.Softmax, 2, 2, 2)}}
				}
				positive(n.Layers[0])
				x, y := absM(genM(s, 1, 1)), labels(n.Loss, s, 2, 1)
				want := n.Predict(x)
				for acc := 0; acc < 3; acc++ {
					h := buildModel(n, sgd(0.1, 0, 0), acc, 0.3)
					for rep := 0; rep < 2; rep++ {
						o, err := h.Mod.Forward(mat(x), false)
						noErr(c, "Forward", err)
						wantM(c, "inference output", o[len(o)-1], want, 1e-9)
						p, err := h.Mod.Predict(mat(x))
						noErr(c, "Predict", err)
						wantM(c, "prediction", p, ref.Answer(acc, want), 1e-9)
						v, err := h.Mod.CalculateLoss(mat(x), mat(y))
						noErr(c, "CalculateLoss", err)
						if !core.Close(v, ref.Loss(n.Loss, want, y), 1e-7) {
							c.Failf("loss %v, want %v", v, ref.Loss(n.Loss, want, y))
						}
						a, err := h.Mod.CalculateAccuracy(mat(x), mat(y))
						noErr(c, "CalculateAccuracy", err)
						if a != ref.Accuracy(acc, want, y, 0.3) {
							c.Failf("accuracy %v, want %v", a, ref.Accuracy(acc, want, y, 0.3))
						}
						t, err := h.Mod.Forward(mat(x), true)
						noErr(c, "Forward", err)
						i := 1 - k // the dropout layer
						cur := x
						if i == 1 {
							cur = n.Layers[0].Forward(x, nil)
						}
						_, pat := maskFrom(c, "training pass", 0.5, n.Layers[i].Forward(cur, nil), t[i+1])
						if d := strings.Count(pat, "0"); d == 0 || d == len(pat) {
							c.Failf("%d of %d outputs were dropped in a training pass at rate 0.5", d, len(pat))
						}
						c.Step(5)
					}
				}
			}
			c.State(core.Hash("dropmodels", s))
		})
	}
	// a layer used for long
	for _, rate := range []float64{0.5, 0.2, 1, 0} {
		rate := rate
		r.Case("long history", func() string { return fmt.Sprintf("rate %v", rate) }, func(c *core.C) {
			c.Trace()
			l := positive(dropLayer(2, 40, 3, rate))
			x := absM(genM(2, 2, 1))
			full := l.Forward(x, nil)
			h := fromRef(l)
			seen := map[string]int{}
			for pass := 1; pass <= pick(r.Max, 200000, 5000); pass++ {
				o, err := h.L.Forward(mat(x))
				noErr(c, "Forward", err)
				m, p := maskFrom(c, "training pass", rate, full, o)
				if before, ok := seen[p]; ok && rate > 0 && rate < 1 {
					c.Failf("passes %d and %d over %d outputs have the same mask %s", before, pass, len(p), p)
				}
				seen[p] = pass
				if d := strings.Count(p, "0"); rate == 0 && d > 0 || rate == 1 && d < len(p) {
					c.Failf("at rate %v, %d of %d outputs were dropped in pass %d", rate, d, len(p), pass)
				}
				if pass%3 != 0 {
					checkBackward(c, h, l, x, m, pass)
				}
				if pass%3 != 1 {
					inf, err := h.drop.ForwardNoDropout(mat(x))
					noErr(c, "ForwardNoDropout", err)
					wantM(c, "inference output", inf, full, 1e-12)
					if pass%2 == 0 {
						checkBackward(c, h, l, x, nil, pass)
					}
				}
				c.Step(2)
			}
			c.State(core.Hash("droplong", rate))
		})
	}
	// Fit trains with dropping, however many rows, batches and epochs
	for _, f := range [][3]int{{700, 0, 2}, {5000, 0, 1}, {70000, 0, 1}, {700, 1, 2}, {1100, 1, 1}, {5000, 1100, 2}, {3, 2, 700}, {2, 0, 2100}, {1, 1, 5000}} {
		for pos := 0; pos < 2; pos++ {
			f, pos := f, pos
			r.Case("long training", func() string {
				return fmt.Sprintf("%d rows, batch size %d, %d epochs, dropout layer %d", f[0], f[1], f[2], pos)
			}, func(c *core.C) {
				n := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{positive(dropLayer(1, 1, 1, 1)), refLayer(ref.Linear, 1, 1, 2)}}
				if pos == 1 {
					n.Layers[0], n.Layers[1] = n.Layers[1], n.Layers[0]
				}
				fitCompare(c, n, sgd(0.01, 0, 0), absM(genM(f[0], 1, 1)), genM(f[0], 1, 2), []fitCall{{f[2], f[1]}})
			})
		}
	}
	// at any place of a model of any depth
	for depth := 1; depth <= pick(r.Max, 130, 40); depth++ {
		depth := depth
		r.Case("deep models", func() string { return fmt.Sprintf("%d layers", depth) }, func(c *core.C) {
			c.Trace()
			for at := 0; at <= depth; at++ { // at depth all layers are dropout layers
				n := &ref.Net{Loss: ref.MSE}
				for i := 0; i < depth; i++ {
					l := refLayer(ref.Linear, 5, 5, i)
					if i == at || at == depth {
						l = dropLayer(5, 5, i, 0.5)
					}
					for _, row := range l.W {
						for j := range row {
							row[j] = 0.05 + 0.1*math.Abs(row[j])
						}
					}
					l.B = []float64{0.5, 0.25, 0.125, 1, 0.75}
					n.Layers = append(n.Layers, l)
				}
				h := buildModel(n, sgd(0.1, 0, 0), 0, 0.3)
				x := absM(genM(16, 5, depth))
				o, err := h.Mod.Forward(mat(x), false)
				noErr(c, "Forward", err)
				wantM(c, "inference output", o[depth], n.Predict(x), 1e-9)
				o, err = h.Mod.Forward(mat(x), true)
				noErr(c, "Forward", err)
				cur, last := x, ""
				for i, l := range n.Layers {
					full := l.Forward(cur, nil)
					if l.Kind != ref.Dropout {
						wantM(c, fmt.Sprintf("layer %d", i), o[i+1], full, 1e-9)
					} else {
						_, p := maskFrom(c, fmt.Sprintf("layer %d", i), 0.5, full, o[i+1])
						if d := strings.Count(p, "0"); d == 0 || d == len(p) || p == last {
							c.Failf("training pass, dropout layer %d of %d: %d of %d outputs are dropped, the mask is that of the layer before: %v", i, depth, d, len(p), p == last)
						}
						last = p
					}
					cur = core.CopyM(o[i+1].M)
				}
				c.Step(2)
			}
			c.State(core.Hash("dropdeep", depth))
		})
	}
	// over 96 passes no two outputs are dropped together always, or never together
	for _, s := range [][2]int{{1, 2}, {2, 1}, {1, 40}, {40, 1}, {16, 16}, {3, 100}, {130, 2}, {2, 700}, {700, 2}, {1, 4100}, {4100, 1}} {
		for _, newEach := range []bool{false, true} {
			s, newEach := s, newEach
			r.Case("outputs are not tied", func() string {
				return fmt.Sprintf("rows %d, %d outputs, a new layer for each pass: %v", s[0], s[1], newEach)
			}, func(c *core.C) {
				l := positive(dropLayer(2, s[1], 3, 0.5))
				x := absM(genM(s[0], 2, 1))
				h := fromRef(l)
				bits := make([][]byte, s[0]*s[1])
				for pass := 0; pass < 96; pass++ {
					if newEach {
						h = fromRef(l)
					}
					o, err := h.L.Forward(mat(x))
					noErr(c, "Forward", err)
					c.Step(1)
					_, p := maskFrom(c, "training pass", 0.5, l.Forward(x, nil), o)
					for i := range bits {
						bits[i] = append(bits[i], p[i])
					}
				}
				c.Trace()
				c.State(core.Hash("tied", s, newEach))
				seen := map[string]int{}
				for i := range bits {
					b := string(bits[i])
					inv := strings.NewReplacer("0", "1", "1", "0").Replace(b)
					for _, k := range []string{b, inv} {
						if j, ok := seen[k]; ok {
							c.Failf("outputs %d and %d are tied over 96 passes", j, i)
						}
					}
					seen[b] = i
				}
			})
		}
	}
	for _, newEach := range []bool{false, true} {
		newEach := newEach
		r.Case("passes use different masks", func() string { return fmt.Sprintf("a new layer for each pass: %v", newEach) }, func(c *core.C) {
			l := positive(dropLayer(2, 8, 3, 0.5))
			x := absM(genM(8, 2, 1))
			h := fromRef(l)
			seen := map[string]bool{}
			for pass := 0; pass < 12; pass++ {
				if newEach {
					h = fromRef(l)
				}
				o, err := h.L.Forward(mat(x))
				noErr(c, "Forward", err)
				c.Step(1)
				_, p := maskFrom(c, "training pass", 0.5, l.Forward(x, nil), o)
				if seen[p] {
					c.Failf("two of %d passes over 64 outputs have the same mask %s", pass+1, p)
				}
				seen[p] = true
				for i := 1; i < 8; i++ {
					same := 0
					for k := 0; k < 8; k++ {
						if p[8*k:8*k+8] == p[:8] {
							same++
						}
					}
					if same == 8 {
						c.Failf("all rows of a pass have the same mask %s", p)
					}
				}
				c.State(core.Hash("mask", newEach, p))
			}
			c.Trace()
		})
	}
}
