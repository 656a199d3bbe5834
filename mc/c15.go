package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
	"nnverif/seam/vos"
)

func init() { checks["C15"] = c15 }

func scratch() string {
	d := os.Getenv("MC_TMP")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

func saveBytes(c *core.C, m nn.Model) []byte {
	d := nn.NewSavedModelData(m)
	var buf bytes.Buffer
	noErr(c, "Serialize", d.Serialize(&buf))
	c.Step(1)
	return buf.Bytes()
}

func loadBytes(c *core.C, b []byte) *MH {
	buf := bytes.NewBuffer(append([]byte(nil), b...))
	m, err := nn.LoadModel(buf)
	c.Step(1)
	noErr(c, "LoadModel of saved bytes", err)
	if buf.Len() != 0 {
		c.Failf("loading left %d of %d bytes unread", buf.Len(), len(b))
	}
	return wrapModel(m)
}

// sameModel compares everything a model exports.
func sameModel(c *core.C, what string, a, b *MH) {
	x, y := a.Mod, b.Mod
	if x.ModelSize != y.ModelSize || x.InputSize != y.InputSize || x.OutputSize != y.OutputSize || len(y.Layers) != len(x.Layers) {
		c.Failf("%s: structure is %d layers %d->%d, want %d layers %d->%d", what, y.ModelSize, y.InputSize, y.OutputSize, x.ModelSize, x.InputSize, x.OutputSize)
	}
	if x.LossType != y.LossType || x.AccuracyType != y.AccuracyType || x.OptimizerType != y.OptimizerType || !core.Bits(x.AccuracyPercision, y.AccuracyPercision) {
		c.Failf("%s: settings are loss %v accuracy %v %v optimizer %v, want %v %v %v %v", what, y.LossType, y.AccuracyType, y.AccuracyPercision, y.OptimizerType, x.LossType, x.AccuracyType, x.AccuracyPercision, x.OptimizerType)
	}
	if fmt.Sprintf("%T", x.Loss) != fmt.Sprintf("%T", y.Loss) {
		c.Failf("%s: loss is %T, want %T", what, y.Loss, x.Loss)
	}
	for k, v := range x.OptimizerValues {
		if w, ok := y.OptimizerValues[k]; !ok || !core.Bits(v, w) {
			c.Failf("%s: optimizer value %s is %v (present: %v), want %v", what, k, w, ok, v)
		}
	}
	for i := range a.Layers {
		p, q := a.Layers[i], b.Layers[i]
		if p.Kind != q.Kind || p.In != q.In || p.Out != q.Out {
			c.Failf("%s: layer %d is %s %dx%d, want %s %dx%d", what, i, ref.KindName[q.Kind], q.In, q.Out, ref.KindName[p.Kind], p.In, p.Out)
		}
		if p.Kind == ref.Leaky && !core.Bits(p.Slope, q.Slope) || p.Kind == ref.Dropout && !core.Bits(p.Rate, q.Rate) {
			c.Failf("%s: layer %d slope/dropout is %v/%v, want %v/%v", what, i, q.Slope, q.Rate, p.Slope, p.Rate)
		}
		w, bb := p.params(c)
		v, d := q.params(c)
		if !core.BitsM(w, v) || !core.BitsM(M{bb}, M{d}) {
			c.Failf("%s: layer %d parameters are %s %v, want %s %v", what, i, str(v), d, str(w), bb)
		}
	}
}

// sameBehaviour compares answers and training, bit for bit. fresh makes the
// original with fresh optimizers.
func sameBehaviour(c *core.C, what string, fresh func() *MH, loaded func() *MH, acc int, loss int) {
	a, b := fresh(), loaded()
	in, out := a.Mod.InputSize, a.Mod.OutputSize
	for _, rows := range []int{1, 3} {
		x, y := genM(rows, in, 3), labels(loss, rows, out, 2)
		p, e1 := a.Mod.Predict(mat(x))
		q, e2 := b.Mod.Predict(mat(x))
		l1, e3 := a.Mod.CalculateLoss(mat(x), mat(y))
		l2, e4 := b.Mod.CalculateLoss(mat(x), mat(y))
		a1, e5 := a.Mod.CalculateAccuracy(mat(x), mat(y))
		a2, e6 := b.Mod.CalculateAccuracy(mat(x), mat(y))
		c.Step(6)
		for _, e := range []error{e1, e2, e3, e4, e5, e6} {
			noErr(c, what+": evaluation", e)
		}
		if !core.SameM(p.M, q.M) {
			c.Failf("%s: predictions differ: %s, original %s", what, str(q.M), str(p.M))
		}
		if !core.Same(l1, l2) || !core.Same(a1, a2) {
			c.Failf("%s: loss and accuracy are %v %v, original %v %v", what, l2, a2, l1, a1)
		}
	}
	for _, l := range a.Layers {
		if l.Kind == ref.Dropout && l.Rate > 0 && l.Rate < 1 {
			return // training is random: see C14
		}
	}
	x, y := genM(3, in, 5), labels(loss, 3, out, 6)
	for k := 0; k < 2; k++ {
		noErr(c, "Fit", a.Mod.Fit(mat(x), mat(y), 2, 2, nn.Matrix{}, nn.Matrix{}, 0))
		noErr(c, "Fit", b.Mod.Fit(mat(x), mat(y), 2, 2, nn.Matrix{}, nn.Matrix{}, 0))
		c.Step(2)
		if !sameParamsNaN(a.params(), b.params()) {
			c.Failf("%s: training the loaded model gives %v, the original %v", what, b.params(), a.params())
		}
	}
}

// sameParamsNaN compares parameters, all NaNs being equal.
func sameParamsNaN(a, b [][]float64) bool {
	for i := range a {
		for j := range a[i] {
			if !core.Same(a[i][j], b[i][j]) {
				return false
			}
		}
	}
	return true
}

// roundTrip saves and loads a model through bytes and back again.
func roundTrip(c *core.C, net *ref.Net, o *ref.Opt, acc int, prec float64, behave bool) {
	c.Trace()
	build := func() *MH { return buildModel(net, o, acc, prec) }
	h := build()
	before := h.params()
	b := saveBytes(c, h.Mod)
	if !sameParams(before, h.params()) {
		c.Failf("saving changed the parameters")
	}
	sameModel(c, "the model after saving", build(), h)
	l := loadBytes(c, b)
	sameModel(c, "loaded model", h, l)
	if behave {
		sameBehaviour(c, "loaded model", build, func() *MH { return loadBytes(c, b) }, acc, net.Loss)
	}
	// again, from the loaded model
	b2 := saveBytes(c, l.Mod)
	sameModel(c, "the loaded model after saving it", h, l)
	if len(b2) != len(b) {
		c.Failf("saving the loaded model gives %d bytes, before %d", len(b2), len(b))
	}
	sameModel(c, "model loaded twice", h, loadBytes(c, b2))
	// through a file
	file := filepath.Join(scratch(), "trip")
	noErr(c, "SaveFile", nn.SaveFile(&h.Mod, file))
	sameModel(c, "the model after SaveFile", build(), h)
	d, err := nn.LoadFile(file)
	noErr(c, "LoadFile", err)
	sameModel(c, "model from file", build(), wrapModel(d))
	c.Step(2)
	// trailing data is left alone
	tail := "trailing data, of any size"[:1+int(core.Hash(netName(net), optName(o), acc)%26)]
	buf := bytes.NewBuffer(append(append([]byte(nil), b...), tail...))
	m, err := nn.LoadModel(buf)
	c.Step(1)
	noErr(c, "LoadModel with data following", err)
	if buf.String() != tail {
		c.Failf("loading from a longer buffer left %q of it, want %q", buf.String(), tail)
	}
	sameModel(c, "model with data following", h, wrapModel(m))
	hh := core.Hash(netName(net), optName(o), acc, prec)
	for _, p := range before {
		hh = core.HashF(hh, p...)
	}
	c.State(hh)
}

var specials = []float64{0, math.Copysign(0, -1), 1, -1, 5e-324, -5e-324, 2.2250738585072014e-308, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.Float64frombits(0x7ff8000000000001), math.Float64frombits(0xfff8000000000000), math.Float64frombits(0x7ff4dead0000beef), 0.1, 1e-7, 3.141592653589793, -123456.789, math.Float64frombits(0x0102030405060708)}

func c15(r *core.Run) {
	r.Rule = "cases: every layer configuration and size of a grid with every loss, accuracy mode and optimizer; every sequence of layer kinds; every special float in every parameter and setting; every number of layers 1..300; concatenated models, data of every length following, files of every size around powers of two and of megabytes; every history of train/save/load/evaluate calls up to a depth; files through whole and partial reads; the loaded model is compared bit by bit in structure, parameters, answers and further training; states are distinct models"
	opts := []*ref.Opt{sgd(0.1, 0, 0), sgd(0.05, 0.1, 0.9), adam(0.02, 0), {Adam: true, LR: 0.5, Decay: 0.25, Epsilon: 1e-3, Beta1: 0.5, Beta2: 0.75}}
	lim := pick(r.Max, 9, pick(r.Thorough, 6, 4))
	for _, k := range kindCfgs {
		for in := 1; in <= lim; in++ {
			for out := 1; out <= lim; out++ {
				for loss := 0; loss < ref.NLosses; loss++ {
					for acc := 0; acc < 3; acc++ {
						for oi, o := range opts {
							k, in, out, loss, acc, o := k, in, out, loss, acc, o
							if !r.Thorough && (in+out+loss+acc+oi)%2 == 1 && in*out > 4 {
								continue
							}
							r.Case("single layer", func() string {
								return fmt.Sprintf("%v %dx%d %s accuracy %d %s", k, in, out, ref.LossName[loss], acc, optName(o))
							}, func(c *core.C) {
								roundTrip(c, &ref.Net{Loss: loss, Layers: []*ref.Layer{k.layer(in, out, in*7+out)}}, o, acc, 0.25*float64(acc+1), true)
							})
						}
					}
				}
			}
		}
	}
	words(len(kindMain), 2, pick(r.Max, 6, pick(r.Thorough, 5, 4)), func(w []int) {
		w = cp(w)
		r.Case("layer sequences", func() string { return fmt.Sprint(w) }, func(c *core.C) {
			n := &ref.Net{Loss: (w[0] + len(w)) % ref.NLosses}
			dims := []int{2, 3, 1, 2, 4, 2}
			for i, k := range w {
				n.Layers = append(n.Layers, kindMain[k].layer(dims[i], dims[i+1], i))
			}
			roundTrip(c, n, opts[w[1]%len(opts)], w[0]%3, 0.5, true)
		})
	})
	// every special value in every parameter
	for _, k := range kindMain {
		for pos := 0; pos < 2*3+3; pos++ {
			for si, s := range specials {
				k, pos, s, si := k, pos, s, si
				r.Case("special parameters", func() string { return fmt.Sprintf("%v parameter %d = %x", k, pos, math.Float64bits(s)) }, func(c *core.C) {
					l := k.layer(2, 3, si)
					if pos < 6 {
						l.W[pos/3][pos%3] = s
					} else {
						l.B[pos-6] = s
					}
					roundTrip(c, &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{l}}, opts[0], 0, 0.5, true)
				})
			}
		}
		for si, s := range specials {
			k, s := k, s
			r.Case("special parameters", func() string { return fmt.Sprintf("%v all = %x", k, math.Float64bits(s)) }, func(c *core.C) {
				l := k.layer(3, 2, si)
				for i := range l.W {
					for j := range l.W[i] {
						l.W[i][j] = s
					}
				}
				for j := range l.B {
					l.B[j] = s
				}
				roundTrip(c, &ref.Net{Loss: ref.MAE, Layers: []*ref.Layer{l, kindMain[1].layer(2, 2, 1)}}, opts[1], 0, 0.5, true)
			})
		}
	}
	// every bit of a parameter
	for bit := 0; bit < 64; bit++ {
		for _, base := range []uint64{0, math.Float64bits(1.5), ^uint64(0)} {
			bit, base := bit, base
			r.Case("parameter bits", func() string { return fmt.Sprintf("%x bit %d", base, bit) }, func(c *core.C) {
				l := kindMain[1].layer(1, 2, 1)
				l.W[0][0] = math.Float64frombits(base ^ 1<<bit)
				l.B[1] = math.Float64frombits(base ^ 1<<bit)
				roundTrip(c, &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{l}}, opts[0], 0, 0.5, false)
			})
		}
	}
	// hyperparameters
	pos := []float64{5e-324, 1e-300, 1e-7, 0.1, 0.3333333333333333, 1, 2, 1e10, math.MaxFloat64, math.Inf(1)}
	for _, v := range append([]float64{0, 0.01, 0.25, 0.5, 0.75, 0.999999}, pos...) {
		v := v
		r.Case("settings", func() string { return fmt.Sprint(v) }, func(c *core.C) {
			base := func() *ref.Net {
				return &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{kindMain[2].layer(2, 2, 1)}}
			}
			n := base()
			n.Layers[0] = kindCfg{ref.Leaky, v, 0}.layer(2, 2, 1)
			roundTrip(c, n, opts[0], 0, 0.5, false)
			if v <= 1 {
				n.Layers[0] = kindCfg{ref.Dropout, 0, v}.layer(2, 2, 1)
				roundTrip(c, n, opts[0], 0, 0.5, false)
			}
			roundTrip(c, base(), opts[0], 0, v, true)
			roundTrip(c, base(), sgd(0.1, v, 0.5), 0, 0.1, true)
			roundTrip(c, base(), sgd(0.1, 0.5, v), 0, 0.1, true)
			if v > 0 {
				roundTrip(c, base(), sgd(v, 0.5, 0.25), 0, 0.1, true)
				roundTrip(c, base(), &ref.Opt{Adam: true, LR: v, Decay: 0.5, Epsilon: 0.1, Beta1: 0.2, Beta2: 0.3}, 0, 0.1, true)
			}
			for k := 0; k < 4; k++ {
				o := &ref.Opt{Adam: true, LR: 0.1, Decay: 0.5, Epsilon: 0.1, Beta1: 0.2, Beta2: 0.3}
				*[]*float64{&o.Decay, &o.Epsilon, &o.Beta1, &o.Beta2}[k] = v
				roundTrip(c, base(), o, 0, 0.1, true)
			}
		})
	}
	for depth := 1; depth <= 300; depth++ {
		depth := depth
		r.Case("number of layers", func() string { return fmt.Sprint(depth) }, func(c *core.C) {
			n := &ref.Net{Loss: ref.MSE}
			for i := 0; i < depth; i++ {
				n.Layers = append(n.Layers, kindMain[(i*5+depth)%len(kindMain)].layer(1+i%2, 1+(i+1)%2, i))
			}
			if depth <= 127 {
				roundTrip(c, n, opts[0], 0, 0.5, depth < 20 || depth > 124)
				return
			}
			c.Trace()
			h := buildModel(n, opts[0], 0, 0.5)
			d := nn.NewSavedModelData(h.Mod)
			var buf bytes.Buffer
			if err := d.Serialize(&buf); err == nil {
				c.Failf("a model with %d layers was saved", depth)
			}
			f := filepath.Join(scratch(), "deep")
			os.WriteFile(f, []byte("earlier content"), 0o666)
			if err := nn.SaveFile(&h.Mod, f); err == nil {
				c.Failf("a model with %d layers was saved to a file", depth)
			}
			if b, _ := os.ReadFile(f); string(b) != "earlier content" {
				c.Failf("refusing to save a model with %d layers changed the file", depth)
			}
			os.Remove(f)
			c.Step(2)
			c.State(core.Hash("deep", depth))
		})
	}
	for _, s := range [][2]int{{1, 200}, {200, 1}, {127, 2}, {128, 2}, {129, 3}, {255, 2}, {256, 2}, {257, 1}, {2, 127}, {2, 128}, {2, 129}, {2, 256}, {300, 40}, {784, 16}, {32768, 1}, {1, 32769}, {65536, 1}, {1, 65537}} {
		s := s
		r.Case("large layers", func() string { return fmt.Sprint(s) }, func(c *core.C) {
			roundTrip(c, &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{kindMain[1].layer(s[0], s[1], 1)}}, opts[1], 0, 0.5, s[0]*s[1] < 20000)
		})
	}
	// files of a megabyte and more
	for _, s := range pick(r.Max, [][2]int{{400, 400}, {1100, 1000}, {2100, 1000}, {65536, 64}}, [][2]int{{400, 400}, {1100, 1000}}) {
		s := s
		r.Case("large files", func() string { return fmt.Sprint(s) }, func(c *core.C) {
			c.Trace()
			h := buildModel(&ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{kindMain[1].layer(s[0], s[1], 1)}}, opts[0], 0, 0.5)
			f := filepath.Join(scratch(), "large")
			defer os.Remove(f)
			noErr(c, "SaveFile", nn.SaveFile(&h.Mod, f))
			m, err := nn.LoadFile(f)
			c.Step(2)
			noErr(c, "LoadFile", err)
			sameModel(c, "loaded from the file", h, wrapModel(m))
			c.State(core.Hash("large file", s))
		})
	}
	// every length of what follows
	for n := 0; n <= 70; n++ {
		for k := range opts {
			n, k := n, k
			r.Case("data following", func() string { return fmt.Sprintf("%d bytes after model %d", n, k) }, func(c *core.C) {
				c.Trace()
				h := buildModel(fitNets()[k], opts[k], k%3, 0.5)
				for _, fill := range []string{"\x00", "x", "L", "N", "\xff"} {
					tail := strings.Repeat(fill, n)
					buf := bytes.NewBufferString(string(saveBytes(c, h.Mod)) + tail)
					m, err := nn.LoadModel(buf)
					c.Step(1)
					noErr(c, "LoadModel with data following", err)
					if buf.String() != tail {
						c.Failf("loading left %q of what follows, want %q", buf.String(), tail)
					}
					sameModel(c, "model with data following", h, wrapModel(m))
					var lb bytes.Buffer
					ld := nn.NewSavedLayerData(h.Mod.Layers[0])
					noErr(c, "SerializeLayer", ld.SerializeLayer(&lb))
					lb.WriteString(tail)
					_, err = nn.LoadLayer(&lb)
					noErr(c, "LoadLayer with data following", err)
					if lb.String() != tail {
						c.Failf("loading a layer left %q of what follows, want %q", lb.String(), tail)
					}
				}
				c.State(core.Hash("following", n, k))
			})
		}
	}
	// every file size around powers of two
	var fsizes []int
	for p := 9; p <= 16; p++ {
		for d := -9; d <= 9; d++ {
			fsizes = append(fsizes, 1<<p+d)
		}
	}
	if r.Thorough {
		for n := 600; n < 13000; n++ {
			fsizes = append(fsizes, n)
		}
	}
	for _, n := range fsizes {
		n := n
		r.Case("file sizes", func() string { return fmt.Sprint(n) }, func(c *core.C) {
			c.Trace()
			net := &ref.Net{Loss: ref.MSE}
			probe := func() int { return len(saveBytes(c, buildModel(net, opts[0], 0, 0.5).Mod)) }
			net.Layers = []*ref.Layer{kindMain[1].layer(1, 1, 1)}
			for (n-probe())%8 != 0 {
				net.Layers = append(net.Layers, kindMain[1].layer(1, 1, len(net.Layers)))
			}
			net.Layers[0] = kindMain[1].layer(1+(n-probe())/8, 1, n)
			h := buildModel(net, opts[0], 0, 0.5)
			f := filepath.Join(scratch(), "sized")
			defer os.Remove(f)
			noErr(c, "SaveFile", nn.SaveFile(&h.Mod, f))
			if st, err := os.Stat(f); err != nil || st.Size() != int64(n) {
				panic(core.Undecided("the file does not have the size meant"))
			}
			m, err := nn.LoadFile(f)
			c.Step(2)
			noErr(c, "LoadFile", err)
			sameModel(c, "loaded from the file", h, wrapModel(m))
			c.State(core.Hash("file size", n))
		})
	}
	// several models and layers in one buffer
	words(4, 1, 3, func(w []int) {
		w = cp(w)
		r.Case("concatenated", func() string { return fmt.Sprint(w) }, func(c *core.C) {
			c.Trace()
			var buf bytes.Buffer
			nets := fitNets()
			var hs []*MH
			for _, k := range w {
				h := buildModel(nets[k], opts[k], k%3, 0.5)
				d := nn.NewSavedModelData(h.Mod)
				noErr(c, "Serialize", d.Serialize(&buf))
				hs = append(hs, h)
			}
			for _, h := range hs {
				for _, l := range h.Layers {
					d := nn.NewSavedLayerData(l.L)
					noErr(c, "SerializeLayer", d.SerializeLayer(&buf))
				}
			}
			c.Step(2 * len(w))
			for i, h := range hs {
				m, err := nn.LoadModel(&buf)
				noErr(c, "LoadModel", err)
				sameModel(c, fmt.Sprintf("model %d of the buffer", i), h, wrapModel(m))
			}
			for i, h := range hs {
				for j, l := range h.Layers {
					x, err := nn.LoadLayer(&buf)
					noErr(c, "LoadLayer", err)
					q := wrap(x)
					w, b := l.params(c)
					v, d := q.params(c)
					if q.Kind != l.Kind || q.In != l.In || q.Out != l.Out || !core.BitsM(w, v) || !core.BitsM(M{b}, M{d}) {
						c.Failf("layer %d of model %d came back as %s %dx%d %s %v", j, i, ref.KindName[q.Kind], q.In, q.Out, str(v), d)
					}
				}
			}
			if buf.Len() != 0 {
				c.Failf("%d bytes left", buf.Len())
			}
			c.State(core.Hash("cat", w))
		})
	})
	// histories
	names := []string{"train", "save", "load", "reload file", "predict", "init"}
	words(len(names), 1, pick(r.Max, 7, pick(r.Thorough, 6, 5)), func(w []int) {
		w = cp(w)
		r.Case("histories", func() string {
			var s []string
			for _, k := range w {
				s = append(s, names[k])
			}
			return strings.Join(s, " ")
		}, func(c *core.C) {
			c.Trace()
			net := fitNets()[1]
			o := opts[1+len(w)%2*1]
			h := buildModel(net, o, 1, 0.5)
			file := filepath.Join(scratch(), "model")
			defer os.Remove(file)
			var saved []byte
			var savedNet *ref.Net // what the saved bytes hold
			x, y := genM(4, 2, 1), labels(net.Loss, 4, 2, 1)
			n := net.Clone() // the reference, kept in step
			n.SetOpt(o)
			for step, op := range w {
				switch op {
				case 0:
					noErr(c, "Fit", h.Mod.Fit(mat(x), mat(y), 1, 3, nn.Matrix{}, nn.Matrix{}, 0))
					n.Fit(x, y, 1, 3)
				case 1:
					saved = saveBytes(c, h.Mod)
					noErr(c, "SaveFile", nn.SaveFile(&h.Mod, file))
					savedNet = n.Clone()
				case 2, 3:
					if saved == nil {
						continue
					}
					if op == 2 {
						h = loadBytes(c, saved)
					} else {
						m, err := nn.LoadFile(file)
						noErr(c, "LoadFile", err)
						h = wrapModel(m)
					}
					n = savedNet.Clone()
					n.SetOpt(o)
				case 4:
					p, err := h.Mod.Predict(mat(x))
					noErr(c, "Predict", err)
					wantM(c, "prediction", p, ref.Answer(1, n.Predict(x)), 1e-9)
				case 5:
					h.Mod.InitLayers()
					for i, l := range h.Layers {
						n.Layers[i].W, n.Layers[i].B = l.raw()
					}
				}
				c.Step(1)
				wantParams(c, fmt.Sprintf("after step %d", step), h, n, tolFit)
				hh := core.Hash(o.Adam)
				for _, p := range netParams(n) {
					hh = core.HashF(hh, p...)
				}
				c.State(hh)
			}
		})
	})
	c15files(r, opts)
}

// c15files loads files through reads of every size.
func c15files(r *core.Run, opts []*ref.Opt) {
	for ni, net := range fitNets() {
		ni, net := ni, net
		file := filepath.Join(scratch(), fmt.Sprint("file", ni))
		r.Case("files", func() string { return netName(net) }, func(c *core.C) {
			c.Trace()
			h := buildModel(net, opts[ni%len(opts)], ni%3, 0.5)
			for _, old := range []string{"", "x", strings.Repeat("old content ", 2000)} {
				os.WriteFile(file, []byte(old), 0o666)
				noErr(c, "SaveFile", nn.SaveFile(&h.Mod, file))
				m, err := nn.LoadFile(file)
				noErr(c, "LoadFile", err)
				fresh := buildModel(net, opts[ni%len(opts)], ni%3, 0.5)
				sameModel(c, "the model after SaveFile", fresh, h)
				sameModel(c, "model from file", fresh, wrapModel(m))
				sameBehaviour(c, "model from file", func() *MH { return buildModel(net, opts[ni%len(opts)], ni%3, 0.5) }, func() *MH { m, _ := nn.LoadFile(file); return wrapModel(m) }, ni%3, net.Loss)
				c.Step(2)
			}
			c.State(core.Hash("files", ni))
			os.Remove(file)
		})
		for chunk := 1; chunk <= 700; chunk++ {
			chunk := chunk
			r.Case("partial reads", func() string { return fmt.Sprintf("%s, at most %d bytes per read", netName(net), chunk) }, func(c *core.C) {
				h := buildModel(net, opts[ni%len(opts)], ni%3, 0.5)
				noErr(c, "SaveFile", nn.SaveFile(&h.Mod, file))
				defer os.Remove(file)
				vos.Hook = func(op vos.Op) *vos.Fault {
					if op.Kind == "read" {
						return &vos.Fault{Keep: chunk}
					}
					return nil
				}
				defer func() { vos.Hook = nil }()
				m, err := nn.LoadFile(file)
				c.Step(2)
				c.Trace()
				noErr(c, "LoadFile", err)
				sameModel(c, "model from file", h, wrapModel(m))
				c.State(core.Hash("chunk", ni, chunk))
			})
		}
	}
	_ = io.EOF
}
