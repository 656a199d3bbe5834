package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() {
	checks["C10"] = func(r *core.Run) { optCheck(r, sgdConfigs(r.Thorough)) }
	checks["C11"] = func(r *core.Run) { optCheck(r, adamConfigs(r.Thorough)) }
}

func sgdConfigs(thorough bool) []*ref.Opt {
	var o []*ref.Opt
	lrs, decs, moms := []float64{1, 0.1, 0.003}, []float64{0, 0.1, 1, 1e-4}, []float64{0, 1e-3, 0.5, 0.9, 1, 1.5}
	if thorough {
		lrs, decs, moms = append(lrs, 1e-6, 30), append(decs, 7, 1e-6), append(moms, 0.999, 3)
	}
	for _, lr := range lrs {
		for _, d := range decs {
			for _, m := range moms {
				o = append(o, sgd(lr, d, m))
			}
		}
	}
	// unusual values
	for _, d := range []float64{2, 5, 100, 1e6, 1e-9} {
		o = append(o, sgd(0.1, d, 0), sgd(0.5, d, 0.5))
	}
	for _, m := range []float64{1e-6, 1e-12, 0.999999, 2} {
		o = append(o, sgd(0.1, 0, m), sgd(0.5, 0.3, m))
	}
	for _, lr := range []float64{1e-12, 1e-300, 1000, 1e12} {
		o = append(o, sgd(lr, 0, 0), sgd(lr, 0.1, 0.5))
	}
	return o
}

func adamConfigs(thorough bool) []*ref.Opt {
	var o []*ref.Opt
	lrs, decs := []float64{1, 0.1, 0.003}, []float64{0, 0.1, 1}
	betas := [][2]float64{{0.9, 0.999}, {0.5, 0.5}, {0, 0}, {0.99, 0.8}, {0, 0.9}, {0.9, 0}}
	eps := []float64{1e-7, 1e-3}
	if thorough {
		lrs, decs, eps = append(lrs, 1e-6, 30), append(decs, 7, 1e-4), append(eps, 1, 1e-8)
	}
	for _, lr := range lrs {
		for _, d := range decs {
			for _, b := range betas {
				for _, e := range eps {
					o = append(o, &ref.Opt{Adam: true, LR: lr, Decay: d, Epsilon: e, Beta1: b[0], Beta2: b[1]})
				}
			}
		}
	}
	// unusual values
	a := func(lr, d, e, b1, b2 float64) {
		o = append(o, &ref.Opt{Adam: true, LR: lr, Decay: d, Epsilon: e, Beta1: b1, Beta2: b2})
	}
	for _, d := range []float64{2, 5, 100, 1e6, 1e-9} {
		a(0.1, d, 1e-7, 0.9, 0.999)
	}
	for _, e := range []float64{1e-12, 1e-15, 1e-100, 1, 1e6} {
		a(0.1, 0, e, 0.9, 0.999)
		a(0.5, 0.1, e, 0.3, 0.6)
	}
	for _, b := range [][2]float64{{0.9, 0.999}, {0, 0}, {0.5, 0.7}} {
		a(0.1, 0, 0, b[0], b[1])
		a(0.1, 0.5, 0, b[0], b[1])
	}
	for _, b := range [][2]float64{{0.999, 0.999}, {0.999999, 0.9}, {0.9, 0.999999}, {1e-6, 1e-6}, {1e-12, 0.9}, {0.9, 1e-12}, {0.999, 0.1}} {
		a(0.1, 0, 1e-7, b[0], b[1])
		a(0.1, 0.3, 1e-3, b[0], b[1])
	}
	for _, lr := range []float64{1e-12, 1e-300, 1000, 1e12} {
		a(lr, 0, 1e-7, 0.9, 0.999)
	}
	return o
}

func optValues(o *ref.Opt) (nn.OptimizerType, map[string]float64) {
	if o.Adam {
		return nn.AdamOptimizerType, map[string]float64{"learningRate": o.LR, "decay": o.Decay, "epsilon": o.Epsilon, "beta1": o.Beta1, "beta2": o.Beta2}
	}
	return nn.SGDOptimizerType, map[string]float64{"learningRate": o.LR, "decay": o.Decay, "momentum": o.Mom}
}

// optRun drives an optimizer through gradients made by g (step, index) and compares after every step.
func optRun(c *core.C, what string, o nn.Optimizer, ro *ref.Opt, rows, cols, steps int, g func(t, i int) float64) {
	optRunFrom(c, what, o, ro, genM(rows, cols, 1), genM(1, cols, 2), steps, g)
	c.Step(1)
}

// optRunFrom compares with a tolerance relative to what the parameters were and by how much they moved.
func optRunFrom(c *core.C, what string, o nn.Optimizer, ro *ref.Opt, w, b M, steps int, g func(t, i int) float64) {
	ro = ro.Fresh()
	rows, cols := len(w), len(w[0])
	W, B := mat(w), mat(b)
	p := ref.Flat(w, b[0])
	n := len(p)
	q := make([]float64, n)
	scale, vel := make([]float64, n), make([]float64, n)
	for i := range p {
		scale[i] = math.Abs(p[i])
	}
	prev := append([]float64{}, p...)
	rounded := make([]bool, n)
	// the same gradient matrices are reused by the caller, as a training loop may
	DW, DB := mat(ref.Zeros(rows, cols)), mat(ref.Zeros(1, cols))
	for t := 0; t < steps; t++ {
		for i := 0; i < n; i++ {
			q[i] = g(t, i)
			if i < rows*cols {
				DW.M[i/cols][i%cols] = q[i]
			} else {
				DB.M[0][i-rows*cols] = q[i]
			}
		}
		if err := o.Update(&W, &B, DW, DB); err != nil {
			c.Failf("%s: update %d refused: %v", what, t, err)
		}
		c.Step(1)
		ro.Step(p, q)
		if !shapeOK(W, rows, cols) || !shapeOK(B, 1, cols) {
			c.Failf("%s: update %d changed the shape of the parameters", what, t)
		}
		for i := 0; i < n; i++ {
			var got, gg float64
			if i < rows*cols {
				got, gg = W.M[i/cols][i%cols], DW.M[i/cols][i%cols]
			} else {
				got, gg = B.M[0][i-rows*cols], DB.M[0][i-rows*cols]
			}
			if !core.Bits(gg, q[i]) {
				c.Failf("%s: update %d changed the gradient passed in", what, t)
			}
			if ro.Adam {
				// cancellation in the first moment: relative to the rate
				scale[i] += math.Abs(p[i]-prev[i]) + 1e-6*ro.LR
			} else {
				vel[i] = ro.Mom*vel[i] + math.Abs(ro.LR*q[i])
				scale[i] += vel[i]
			}
			prev[i] = p[i]
			if ro.Adam && ro.Epsilon == 0 && q[i] != 0 && math.Abs(q[i]) < 1e-140 {
				rounded[i] = true // the square underflows and nothing is added to its root: 0/0 or x/0
			}
			if rounded[i] {
				continue
			}
			if !core.Same(got, p[i]) && !(math.Abs(got-p[i]) <= 1e-10*scale[i]+1e-318) {
				c.Failf("%s: after update %d (gradient %v) parameter %d is %v, want %v", what, t, q[i], i, got, p[i])
			}
		}
		if t < 64 {
			c.State(core.HashF(core.Hash(what), p...))
		}
	}
}

func optCheck(r *core.Run, cfgs []*ref.Opt) {
	r.Rule = "cases: every history of gradients over an alphabet up to a depth for every hyperparameter combination of a grid (both as constructed and as rebuilt from type and values), every small parameter shape, structured gradient matrices (every pair of 28 patterns), gradients of every magnitude from 1e-300 to 1e140, optimizers made in a row, and histories of 40000 updates and more; the parameters are compared with the update rule after every step; states are distinct (configuration, parameter values)"
	r.Assume("parameters are compared to 1e-10 of their starting value and total movement; gradients are below 1e150 in magnitude (their squares must not overflow) and, with an epsilon of 0, 0 or above 1e-140 (their squares must not underflow); Adam's betas lie in [0,1) and epsilon is not negative")
	G := []float64{0, 1, -0.5, 1e-4, -1e-13}
	if r.Thorough {
		G = append(G, 30)
	}
	depth := pick(r.Thorough, 6, 5)
	make2 := func(c *core.C, ro *ref.Opt, how int) nn.Optimizer {
		if how == 0 {
			return mustOpt(ro)
		}
		t, v := optValues(ro)
		o, err := nn.NewOptimizerFromType(t, v)
		noErr(c, "NewOptimizerFromType", err)
		return o
	}
	for ci, ro := range cfgs {
		ci, ro := ci, ro
		words(len(G), depth, depth, func(w []int) {
			w = cp(w)
			how := (ci + w[0]) % 2
			r.Case("histories", func() string { return fmt.Sprintf("%s gradients %v of %v, made by %d", optName(ro), w, G, how) }, func(c *core.C) {
				c.Trace()
				w0, b0 := M{{0}}, M{{0}}
				if w[1]%2 == 0 {
					w0, b0 = M{{gen(1)}}, M{{-5}}
				}
				optRunFrom(c, optName(ro), make2(c, ro, how), ro, w0, b0, depth, func(t, i int) float64 {
					v := G[(w[t]+i)%len(G)]
					if i == 1 {
						v = -v
					}
					return v
				})
			})
		})
		for how := 0; how < 2; how++ {
			how := how
			for _, s := range append(shapes(4), [2]int{1, 17}, [2]int{17, 1}, [2]int{33, 5}, [2]int{5, 65}, [2]int{64, 64}, [2]int{129, 2}, [2]int{2, 130}, [2]int{300, 3}, [2]int{3, 1025}, [2]int{65537, 1}, [2]int{1, 65537}, [2]int{70000, 1}, [2]int{1, 70000}) {
				s := s
				if s[0]*s[1] > 600 && ci%5 != 0 && !r.Thorough {
					continue
				}
				r.Case("shapes", func() string { return fmt.Sprintf("%s %v made by %d", optName(ro), s, how) }, func(c *core.C) {
					c.Trace()
					optRun(c, optName(ro), make2(c, ro, how), ro, s[0], s[1], 6, func(t, i int) float64 {
						if (t+i)%5 == 0 {
							return 0
						}
						return gen(t*37+i) * math.Pow(10, float64((t+i)%4-2))
					})
				})
			}
			n := pick(r.Max, 200000, 40000) // past 2^15, in the widest bounds past 2^17
			r.Case("long histories", func() string { return fmt.Sprintf("%s %d steps made by %d", optName(ro), n, how) }, func(c *core.C) {
				c.Trace()
				if ro.Mom > 1 {
					n = 100 // diverges
				}
				optRun(c, optName(ro), make2(c, ro, how), ro, 1, 1, n, func(t, i int) float64 {
					// bursts, zeros and sign changes
					if t%11 < 3 {
						return 0
					}
					return gen(t+i*13) * math.Pow(10, float64(t/7%5-2))
				})
			})
		}
		// extreme magnitudes, one after the other
		for _, mag := range []float64{1e-300, 1e-150, 1e-30, 1e-18, 1e-14, 1e-12, 1e-10, 1e-8, 1e6, 1e12, 1e30, 1e140} {
			mag := mag
			r.Case("magnitudes", func() string { return fmt.Sprintf("%s %v", optName(ro), mag) }, func(c *core.C) {
				c.Trace()
				optRun(c, optName(ro), make2(c, ro, 0), ro, 2, 2, 5, func(t, i int) float64 {
					if t == 2 {
						return 0
					}
					return gen(i) * mag
				})
			})
		}
	}
	// structured gradients: every pair of patterns, twice in a row
	pats := append(everyPat(), len(patNames), len(patNames)+1)
	if cfgs[0].Adam {
		pats = everyPat()
	}
	for ci, ro := range cfgs {
		for _, sh := range [][2]int{{2, 2}, {1, 3}, {3, 1}} {
			ci, ro, sh := ci, ro, sh
			if !r.Thorough && ci%3 != sh[1]%3 {
				continue
			}
			for _, pa := range pats {
				for _, pb := range pats {
					pa, pb := pa, pb
					r.Case("structured gradients", func() string { return fmt.Sprintf("%s %v patterns %d %d", optName(ro), sh, pa, pb) }, func(c *core.C) {
						c.Trace()
						n := sh[0] * sh[1]
						get := func(k int) []float64 {
							if k >= len(patNames) { // an infinity or NaN among ordinary entries
								f := genM(1, n+sh[1], 3)[0]
								f[k%len(f)] = pick(k == len(patNames), inf, nan)
								return f
							}
							return ref.Flat(pattern(k, sh[0], sh[1], 1), pattern(k, 1, sh[1], 2)[0])
						}
						a, b := get(pa), get(pb)
						w0, b0 := ref.Zeros(sh[0], sh[1]), ref.Zeros(1, sh[1])
						if ci%2 == 1 {
							w0, b0 = pattern(pb%len(patNames), sh[0], sh[1], 7), pattern(pa%len(patNames), 1, sh[1], 8)
						}
						optRunFrom(c, optName(ro), make2(c, ro, ci%2), ro, w0, b0, 4, func(t, i int) float64 {
							return pick(t%2 == 0, a[i], b[i])
						})
					})
				}
			}
		}
	}
	// two optimizers with different parameters in turn: neither sees the other (independence itself is C20)
	// and one optimizer kept while another is made
	for ci, ro := range cfgs {
		ci, ro := ci, ro
		r.Case("made in a row", func() string { return optName(ro) }, func(c *core.C) {
			c.Trace()
			a := make2(c, ro, ci%2)
			other := cfgs[(ci+1)%len(cfgs)]
			b := make2(c, other, (ci+1)%2)
			optRun(c, optName(ro), a, ro, 2, 3, 5, func(t, i int) float64 { return gen(t*7 + i) })
			optRun(c, optName(other), b, other, 2, 3, 5, func(t, i int) float64 { return gen(t*5 + i) })
		})
	}
}
