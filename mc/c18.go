package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() { checks["C18"] = c18 }

// wantFile decodes saved bytes after the documents and compares.
func wantFile(c *core.C, b []byte, want *ref.File) {
	f, used, v, why := ref.Decode(b)
	if v == ref.Invalid {
		c.Failf("the saved bytes do not follow the documents: %v (%x)", why, b[:min(len(b), 80)])
	}
	if used != len(b) {
		c.Failf("%d extra bytes after the model", len(b)-used)
	}
	if len(f.Version) != 5 || f.Version != want.Version {
		c.Failf("version %q, want %q", f.Version, want.Version)
	}
	if f.In != want.In || f.Out != want.Out || f.Loss != want.Loss || f.Acc != want.Acc || !core.Bits(f.Prec, want.Prec) || f.Opt != want.Opt || len(f.Layers) != len(want.Layers) {
		c.Failf("header is in %d out %d loss %d accuracy %d %v optimizer %d, %d layers; want %d %d %d %d %v %d, %d layers", f.In, f.Out, f.Loss, f.Acc, f.Prec, f.Opt, len(f.Layers), want.In, want.Out, want.Loss, want.Acc, want.Prec, want.Opt, len(want.Layers))
	}
	got := map[string]float64{}
	for _, kv := range f.Values {
		if _, ok := got[kv.Key]; ok {
			c.Failf("optimizer value %q occurs twice", kv.Key)
		}
		got[kv.Key] = kv.Val
	}
	for _, kv := range want.Values {
		if v, ok := got[kv.Key]; !ok || !core.Bits(v, kv.Val) {
			c.Failf("optimizer value %s is %v (present: %v), want %v", kv.Key, v, ok, kv.Val)
		}
	}
	for i := range want.Layers {
		wantFileLayer(c, fmt.Sprintf("layer %d", i), f.Layers[i], want.Layers[i])
	}
}

func wantFileLayer(c *core.C, what string, g, w ref.FileLayer) {
	if g.Kind != w.Kind || g.In != w.In || g.Out != w.Out || !core.BitsM(g.W, w.W) || !core.BitsM(M{g.B}, M{w.B}) {
		c.Failf("%s is saved as kind %d %dx%d %s %v, want kind %d %dx%d %s %v", what, g.Kind, g.In, g.Out, str(g.W), g.B, w.Kind, w.In, w.Out, str(w.W), w.B)
	}
	if w.Kind == ref.Leaky && !core.Bits(g.Slope, w.Slope) || w.Kind == ref.Dropout && !core.Bits(g.Dropout, w.Dropout) {
		c.Failf("%s: slope %v dropout %v, want %v %v", what, g.Slope, g.Dropout, w.Slope, w.Dropout)
	}
}

// wantLoaded loads a hand-written file and compares the model with it.
func wantLoaded(c *core.C, f *ref.File, net *ref.Net, o *ref.Opt, behave bool) {
	b := f.Encode()
	h := loadBytes(c, b)
	want := buildModel(net, o, int(f.Acc), f.Prec)
	sameModel(c, "model of a hand-written file", want, h)
	if behave {
		sameBehaviour(c, "model of a hand-written file", func() *MH { return buildModel(net, o, int(f.Acc), f.Prec) }, func() *MH { return loadBytes(c, b) }, int(f.Acc), net.Loss)
	}
	c.State(core.Hash(b))
}

func c18(r *core.Run) {
	r.Rule = "cases: in both directions, every layer configuration and size of a grid with every loss, accuracy mode and optimizer, every sequence of layer kinds, special values, every number of layers 1..127; for reading also every order of the optimizer values and version strings; the other side is an encoder and decoder written from the documents alone; states are distinct byte strings"
	opts := []*ref.Opt{sgd(0.1, 0.2, 0.9), adam(0.02, 0.3), sgd(0.25, 0, 0), {Adam: true, LR: 0.5, Decay: 0.25, Epsilon: 1e-3, Beta1: 0.5, Beta2: 0.75}}
	both := func(c *core.C, n *ref.Net, o *ref.Opt, acc int, prec float64, behave bool) {
		c.Trace()
		f := ref.FileOf(n, o, int8(acc), prec, nn.VERSION)
		h := buildModel(n, o, acc, prec)
		wantFile(c, saveBytes(c, h.Mod), f)
		file := filepath.Join(scratch(), "format")
		noErr(c, "SaveFile", nn.SaveFile(&h.Mod, file))
		fb, err := os.ReadFile(file)
		noErr(c, "reading the saved file", err)
		wantFile(c, fb, f)
		wantLoaded(c, f, n, o, behave)
		for i, l := range h.Layers {
			d := nn.NewSavedLayerData(l.L)
			var buf bytes.Buffer
			noErr(c, "SerializeLayer", d.SerializeLayer(&buf))
			g, used, v, why := ref.DecodeLayer(buf.Bytes())
			if v == ref.Invalid || used != buf.Len() {
				c.Failf("saved layer does not follow the documents: %v (%d of %d bytes)", why, used, buf.Len())
			}
			wantFileLayer(c, "saved layer", g, f.Layers[i])
			lb := f.Layers[i].Encode(nil)
			x, err := nn.LoadLayer(bytes.NewBuffer(lb))
			noErr(c, "LoadLayer of a hand-written layer", err)
			q := wrap(x)
			w, b := q.params(c)
			if q.Kind != n.Layers[i].Kind || q.In != n.Layers[i].In || q.Out != n.Layers[i].Out || !core.BitsM(w, n.Layers[i].W) || !core.BitsM(M{b}, M{n.Layers[i].B}) || q.Kind == ref.Leaky && !core.Bits(q.Slope, n.Layers[i].Slope) || q.Kind == ref.Dropout && !core.Bits(q.Rate, n.Layers[i].Rate) {
				c.Failf("hand-written layer %d loads as %s %dx%d %s %v", i, ref.KindName[q.Kind], q.In, q.Out, str(w), b)
			}
			c.Step(2)
		}
	}
	lim := pick(r.Max, 9, pick(r.Thorough, 6, 4))
	for _, k := range kindCfgs {
		for in := 1; in <= lim; in++ {
			for out := 1; out <= lim; out++ {
				for loss := 0; loss < ref.NLosses; loss++ {
					for acc := 0; acc < 3; acc++ {
						for oi, o := range opts {
							k, in, out, loss, acc, oi, o := k, in, out, loss, acc, oi, o
							r.Case("single layer", func() string {
								return fmt.Sprintf("%v %dx%d %s accuracy %d %s", k, in, out, ref.LossName[loss], acc, optName(o))
							}, func(c *core.C) {
								both(c, &ref.Net{Loss: loss, Layers: []*ref.Layer{k.layer(in, out, in*7+out)}}, o, acc, 0.25*float64(acc+oi), in+out < 5)
							})
						}
					}
				}
			}
		}
	}
	words(len(kindMain), 2, pick(r.Max, 6, pick(r.Thorough, 5, 4)), func(w []int) {
		w = cp(w)
		r.Case("layer sequences", func() string { return fmt.Sprint(w) }, func(c *core.C) {
			n := &ref.Net{Loss: (w[0] + len(w)) % ref.NLosses}
			dims := []int{2, 3, 1, 2, 4, 2}
			for i, k := range w {
				n.Layers = append(n.Layers, kindMain[k].layer(dims[i], dims[i+1], i))
			}
			both(c, n, opts[w[1]%len(opts)], w[0]%3, 0.5, true)
		})
	})
	for pos := 0; pos < 5; pos++ {
		for si, s := range specials {
			pos, s, si := pos, s, si
			r.Case("special values", func() string { return fmt.Sprintf("%d = %x", pos, math.Float64bits(s)) }, func(c *core.C) {
				n := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{kindMain[si%len(kindMain)].layer(2, 2, si)}}
				l := n.Layers[0]
				prec := 0.5
				o := *opts[1]
				switch pos {
				case 0:
					l.W[1][0] = s
				case 1:
					l.B[1] = s
				case 2:
					prec = math.Abs(s)
				case 3:
					if s >= 0 {
						o.Decay = math.Abs(s)
					}
				case 4:
					o.Epsilon = s
				}
				both(c, n, &o, 0, prec, false)
			})
		}
	}
	for depth := 1; depth <= 127; depth++ {
		depth := depth
		r.Case("number of layers", func() string { return fmt.Sprint(depth) }, func(c *core.C) {
			n := &ref.Net{Loss: ref.MSE}
			for i := 0; i < depth; i++ {
				n.Layers = append(n.Layers, kindMain[(i*5+depth)%len(kindMain)].layer(1+i%2, 1+(i+1)%2, i))
			}
			both(c, n, opts[depth%4], 0, 0.5, false)
		})
	}
	for _, s := range [][2]int{{127, 2}, {128, 2}, {129, 3}, {255, 2}, {256, 2}, {257, 1}, {2, 127}, {2, 128}, {2, 256}, {784, 16}, {32768, 1}, {1, 32769}, {65536, 1}, {1, 65537}} {
		s := s
		r.Case("large layers", func() string { return fmt.Sprint(s) }, func(c *core.C) {
			both(c, &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{kindMain[1].layer(s[0], s[1], 1)}}, opts[1], 0, 0.5, false)
		})
	}
	// every order of the optimizer values
	for oi, o := range opts {
		oi, o := oi, o
		net := fitNets()[oi%len(fitNets())]
		base := ref.FileOf(net, o, 1, 0.5, nn.VERSION)
		permute(len(base.Values), func(p []int) {
			p = cp(p)
			r.Case("optimizer value orders", func() string { return fmt.Sprintf("%s %v", optName(o), p) }, func(c *core.C) {
				c.Trace()
				f := *base
				f.Values = nil
				for _, i := range p {
					f.Values = append(f.Values, base.Values[i])
				}
				wantLoaded(c, &f, net, o, true)
			})
		})
		_ = oi
	}
	versions := []string{"1.0.3", "1.0.2", "0.0.0", "9.9.9", "abcde", "\x00\x00\x00\x00\x00", "\xff\xff\xff\xff\xff", "NNMLN", "%s%d%", "1.0.3"[:4] + "\n", "LALAL"}
	sort.Strings(versions)
	for _, v := range versions {
		v := v
		r.Case("versions", func() string { return fmt.Sprintf("%q", v) }, func(c *core.C) {
			c.Trace()
			for ni, net := range fitNets() {
				o := opts[ni%len(opts)]
				wantLoaded(c, ref.FileOf(net, o, int8(ni%3), 0.5, v), net, o, true)
			}
		})
	}
	// every single version byte
	for i := 0; i < 5; i++ {
		for b := 0; b < 256; b++ {
			i, b := i, b
			r.Case("version bytes", func() string { return fmt.Sprintf("byte %d = %d", i, b) }, func(c *core.C) {
				v := []byte(nn.VERSION)
				v[i] = byte(b)
				net := fitNets()[0]
				wantLoaded(c, ref.FileOf(net, opts[0], 0, 0.5, string(v)), net, opts[0], false)
			})
		}
	}
	// what is in the fields a layer kind does not use does not matter
	for _, k := range kindMain {
		for _, junk := range []float64{nan, -5, inf, 0.75} {
			k, junk := k, junk
			r.Case("unused fields", func() string { return fmt.Sprint(k, junk) }, func(c *core.C) {
				c.Trace()
				net := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{k.layer(2, 2, 3)}}
				f := ref.FileOf(net, opts[0], 0, 0.5, nn.VERSION)
				if k.kind != ref.Leaky {
					f.Layers[0].Slope = junk
				}
				if k.kind != ref.Dropout {
					f.Layers[0].Dropout = junk
				}
				wantLoaded(c, f, net, opts[0], true)
			})
		}
	}
	_ = strings.Join
}

func permute(n int, f func(p []int)) {
	p := make([]int, n)
	var rec func(i int, used int)
	rec = func(i, used int) {
		if i == n {
			f(p)
			return
		}
		for k := 0; k < n; k++ {
			if used>>k&1 == 0 {
				p[i] = k
				rec(i+1, used|1<<k)
			}
		}
	}
	rec(0, 0)
}
