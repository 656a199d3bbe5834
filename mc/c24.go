package main

import (
	"fmt"
	"math"
	"sort"

	"nnverif/core"
	"nnverif/ref"
	"nnverif/seam/ctl"
)

func init() { checks["C24"] = c24 }

// matchDraws fails unless every weight, scaled back, is a different one of the normal draws.
func matchDraws(c *core.C, what string, layers []*LH, draws []float64) {
	var ws []float64
	for li, l := range layers {
		w, _ := l.params(c)
		std := math.Sqrt(2 / float64(l.In))
		for i := range w {
			for j, v := range w[i] {
				if math.IsNaN(v) || math.IsInf(v, 0) || v == 0 {
					c.Failf("%s: layer %d weight [%d][%d] is %v", what, li, i, j, v)
				}
				ws = append(ws, v/std)
			}
		}
	}
	sort.Float64s(ws)
	// math/rand makes its normal numbers from 32 bits: among very many of them
	// equal ones are to be expected, and were really drawn twice (below).
	equal := 0
	for i := 1; i < len(ws); i++ {
		if math.Abs(ws[i]-ws[i-1]) <= 1e-14*math.Abs(ws[i]) {
			if equal++; draws != nil && len(ws) > 300 || draws == nil && len(ws) > 3000 && float64(equal) < 5+float64(len(ws))*float64(len(ws))/(1<<30) {
				continue
			}
			c.Failf("%s: two weights come from the same draw %v", what, ws[i])
		}
	}
	if draws == nil {
		return
	}
	ds := append([]float64(nil), draws...)
	sort.Float64s(ds)
	k := 0
	for _, v := range ws {
		for k < len(ds) && ds[k] < v-1e-11*math.Abs(v) {
			k++
		}
		if k == len(ds) || math.Abs(ds[k]-v) > 1e-11*math.Abs(v) {
			c.Failf("%s: a weight divided by sqrt(2/input size) is %v, which is none of the (unused) normal draws made", what, v)
		}
		k++
	}
}

// initLayer runs Init of the layers made and returns the normal draws, nil if
// the layer does not draw through the seam.
func logged(f func()) []float64 {
	d := ctl.LogNormals(f)
	if len(d) == 0 {
		return nil
	}
	return d
}

func c24(r *core.Run) {
	r.Rule = "cases: every layer kind and every size pair up to a bound and a sweep of larger ones, with any earlier parameters; every normal draw is recorded, and the weights must be exactly different recorded draws times sqrt(2/inputs) while everything else is bit-identical; models of every kind sequence, repeated (over a thousand times) initialisation and several objects together must not share draws; states are distinct (kinds, sizes, weights)"
	r.Assume("math/rand's NormFloat64 is a standard normal generator; sources seeded at different times are independent")
	controlled := true
	check := func(c *core.C, h *LH, what string) {
		_, b := h.raw()
		for i := range b {
			b[i] = gen(i+77) * 3
			h.B().M[0][i] = b[i]
		}
		if h.In*h.Out > 2 {
			h.W().M[0][0] = nan // whatever was there is replaced
		}
		in0, out0 := h.sizes()
		var hy float64
		if h.hyper != nil {
			hy = h.hyper()
		}
		d := logged(h.L.Init)
		c.Step(1)
		c.Trace()
		if d == nil {
			controlled = false
		}
		matchDraws(c, what, []*LH{h}, d)
		_, b2 := h.params(c)
		if !core.BitsM(M{b}, M{b2}) {
			c.Failf("%s: biases were %v and are %v after initialisation", what, b, b2)
		}
		in1, out1 := h.sizes()
		if in1 != in0 || out1 != out0 || (h.hyper != nil && !core.Bits(h.hyper(), hy)) {
			c.Failf("%s: sizes or hyperparameters changed", what)
		}
		w, _ := h.raw()
		c.State(core.HashM(core.Hash(h.Kind), w))
	}
	lim := pick(r.Max, 40, pick(r.Thorough, 24, 12))
	for _, kc := range kindCfgs {
		for in := 1; in <= lim; in++ {
			for out := 1; out <= lim; out++ {
				kc, in, out := kc, in, out
				r.Case("layers", func() string { return fmt.Sprintf("%s %dx%d", kc.String(), in, out) }, func(c *core.C) {
					h, err := newLayer(kc.kind, in, out, kc.slope, kc.rate)
					noErr(c, "constructor", err)
					check(c, h, "layer")
					check(c, h, "layer initialised again")
				})
			}
		}
		for _, s := range [][2]int{{1, 300}, {300, 1}, {100, 100}, {784, 10}, {13, 257}, {256, 16}, {1000, 3}} {
			kc, s := kc, s
			r.Case("large layers", func() string { return fmt.Sprintf("%s %v", kc.String(), s) }, func(c *core.C) {
				h, err := newLayer(kc.kind, s[0], s[1], kc.slope, kc.rate)
				noErr(c, "constructor", err)
				check(c, h, "layer")
				// the draws look standard normal at all (ten standard errors)
				w, _ := h.raw()
				n, m1, m2 := 0.0, 0.0, 0.0
				for _, v := range ref.Flat(w, nil) {
					v /= math.Sqrt(2 / float64(s[0]))
					n++
					m1 += v
					m2 += v * v
				}
				if math.Abs(m1/n) > 10/math.Sqrt(n) || math.Abs(m2/n-1) > 15/math.Sqrt(n) {
					c.Failf("scaled weights have mean %v and mean square %v, want 0 and 1", m1/n, m2/n)
				}
			})
		}
		r.Case("initialised very often", func() string { return kc.String() }, func(c *core.C) {
			h, err := newLayer(kc.kind, 3, 4, kc.slope, kc.rate)
			noErr(c, "constructor", err)
			m := buildModel(&ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{refLayer(kc.kind, 2, 3, 1), refLayer(ref.Linear, 3, 2, 2)}}, sgd(0.1, 0, 0), 0, 0.1)
			for i := 0; i < pick(r.Max, 100000, 1500); i++ {
				check(c, h, fmt.Sprintf("initialised %d times", i+1))
				before := m.params()
				d := logged(m.Mod.InitLayers)
				c.Step(1)
				matchDraws(c, fmt.Sprintf("model initialised %d times", i+1), m.Layers, d)
				after := m.params()
				for l, k := range []int{6, 6} {
					for j := 0; j < k; j++ {
						if before[l][j] == after[l][j] {
							c.Failf("initialising the model for the %dth time left weight %d of layer %d at %v", i+1, j, l, after[l][j])
						}
					}
					if !core.BitsM(M{before[l][k:]}, M{after[l][k:]}) {
						c.Failf("initialising the model for the %dth time changed biases of layer %d", i+1, l)
					}
				}
			}
		})
		// a second object initialised right after (no ties), also a used layer
		r.Case("several layers", func() string { return kc.String() }, func(c *core.C) {
			var hs []*LH
			var d []float64
			for i := 0; i < 12; i++ {
				h, err := newLayer(kc.kind, 3, 4, kc.slope, kc.rate)
				noErr(c, "constructor", err)
				h.L.Forward(mat(genM(2, 3, 1)))
				e := logged(h.L.Init)
				if e != nil {
					d = append(d, e...)
				}
				c.Step(1)
				hs = append(hs, h)
			}
			matchDraws(c, "12 layers", hs, d)
			c.Trace()
		})
		// earlier weights returned to the caller are not the issue, but outputs are: Init changes what Forward computes
		r.Case("forward uses the new weights", func() string { return kc.String() }, func(c *core.C) {
			h, err := newLayer(kc.kind, 3, 4, kc.slope, kc.rate)
			noErr(c, "constructor", err)
			h.L.Init()
			w, b := h.params(c)
			l := &ref.Layer{Kind: kc.kind, In: 3, Out: 4, Slope: kc.slope, Rate: kc.rate, W: w, B: b}
			x := genM(3, 3, 5)
			o, err := h.infer(mat(x))
			noErr(c, "forward", err)
			wantM(c, "output", o, l.Forward(x, nil), 1e-12)
			c.Step(2)
		})
	}
	for _, n := range []int{8193, 32769, 65536, 65537, 70000} {
		for kind := range ref.KindName {
			for _, s := range [][2]int{{n, 1}, {1, n}} {
				kind, s := kind, s
				r.Case("very large layers", func() string { return fmt.Sprint(ref.KindName[kind], s) }, func(c *core.C) {
					h, err := newLayer(kind, s[0], s[1], 0.1, 0.5)
					noErr(c, "constructor", err)
					check(c, h, "layer")
					check(c, h, "layer initialised again")
				})
			}
		}
	}
	// models: every sequence of kinds
	kinds := len(ref.KindName)
	words(kinds, 1, pick(r.Max, 6, pick(r.Thorough, 4, 3)), func(w []int) {
		w = cp(w)
		r.Case("models", func() string { return fmt.Sprint(w) }, func(c *core.C) {
			c.Trace()
			n := &ref.Net{Loss: ref.MSE}
			dims := []int{2, 3, 2, 4, 3, 2}
			for i, k := range w {
				n.Layers = append(n.Layers, refLayer(k, dims[i], dims[i+1], i))
			}
			h := buildModel(n, sgd(0.1, 0.1, 0.5), 0, 0.1)
			var before [][]float64
			for rep := 0; rep < 2; rep++ {
				d := logged(h.Mod.InitLayers)
				c.Step(1)
				matchDraws(c, "model", h.Layers, d)
				for i, l := range h.Layers {
					_, b := l.params(c)
					if !core.BitsM(M{b}, M{n.Layers[i].B}) {
						c.Failf("biases of layer %d changed", i)
					}
				}
				p := h.params()
				if before != nil {
					for i := range p {
						for j := 0; j < n.Layers[i].In*n.Layers[i].Out; j++ {
							if p[i][j] == before[i][j] {
								c.Failf("initialising again left weight %d of layer %d at %v", j, i, p[i][j])
							}
						}
					}
				}
				before = p
				c.State(core.HashF(core.Hash(w), flat2(p)...))
			}
			if h.Mod.ModelSize != len(w) || h.Mod.InputSize != dims[0] || h.Mod.OutputSize != dims[len(w)] {
				c.Failf("model sizes changed")
			}
		})
	})
	// deep and several models
	for depth := 1; depth <= pick(r.Max, 600, 300); depth++ {
		depth := depth
		r.Case("deep models", func() string { return fmt.Sprint(depth) }, func(c *core.C) {
			var hs []*LH
			var d []float64
			for m := 0; m < 2; m++ {
				n := &ref.Net{Loss: ref.MSE}
				for i := 0; i < depth; i++ {
					n.Layers = append(n.Layers, refLayer((i+m)%kinds, 3, 3, i))
				}
				h := buildModel(n, sgd(0.1, 0, 0), 0, 0.1)
				if e := logged(h.Mod.InitLayers); e != nil {
					d = append(d, e...)
				}
				c.Step(1)
				hs = append(hs, h.Layers...)
			}
			matchDraws(c, "two models", hs, d)
			c.Trace()
		})
	}
	r.Extra("random_source_controlled", controlled)
}
