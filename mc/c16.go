package main

import (
	"bytes"
	"fmt"
	"runtime"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() { checks["C16"] = c16 }

// tryModel loads a byte string as a model and compares with the verdict of the
// decoder written from the documents.
func tryModel(c *core.C, b []byte) {
	in := append([]byte(nil), b...)
	buf := bytes.NewBuffer(in)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	m, err := nn.LoadModel(buf)
	runtime.ReadMemStats(&m1)
	c.Trace()
	c.Step(1)
	if a := m1.TotalAlloc - m0.TotalAlloc; a > 1<<20+256*uint64(len(b)) {
		c.Failf("loading %d bytes allocated %d bytes", len(b), a)
	}
	f, used, v, why := ref.Decode(b)
	if err != nil {
		if v == ref.Valid {
			c.Failf("valid model data is refused: %v", err)
		}
		c.Outcome(core.Hash("refused", v))
		return
	}
	if v == ref.Invalid {
		c.Failf("invalid model data (%v) is loaded as a model with %d layers", why, m.ModelSize)
	}
	if got := len(b) - buf.Len(); got != used {
		c.Failf("loading read %d bytes, the model has %d", got, used)
	}
	c.Outcome(core.Hash("loaded", v, m.ModelSize))
	wantDecoded(c, m, &f)
	h := wrapModel(m)
	// it is usable: nothing panics
	x := mat(genM(2, h.Mod.InputSize, 1))
	y := mat(oneHot(2, h.Mod.OutputSize, 0))
	_, e1 := h.Mod.Predict(x)
	_, e2 := h.Mod.CalculateLoss(x, y)
	e3 := h.Mod.Fit(x, y, 1, 1, nn.Matrix{}, nn.Matrix{}, 0)
	c.Step(3)
	if v == ref.Valid {
		noErr(c, "Predict of the loaded model", e1)
		noErr(c, "CalculateLoss of the loaded model", e2)
		noErr(c, "Fit of the loaded model", e3)
	}
}

// wantDecoded compares a loaded model with what the file says.
func wantDecoded(c *core.C, m nn.Model, f *ref.File) {
	if m.ModelSize != len(f.Layers) || len(m.Layers) != len(f.Layers) || m.InputSize != int(f.In) || m.OutputSize != int(f.Out) ||
		m.LossType != nn.LossType(f.Loss) || m.AccuracyType != nn.AccuracyType(f.Acc) || m.OptimizerType != nn.OptimizerType(f.Opt) || !core.Bits(m.AccuracyPercision, f.Prec) {
		c.Failf("the loaded model has %d layers %d->%d loss %v accuracy %v %v optimizer %v; the data says %d layers %d->%d %v %v %v %v", m.ModelSize, m.InputSize, m.OutputSize, m.LossType, m.AccuracyType, m.AccuracyPercision, m.OptimizerType, len(f.Layers), f.In, f.Out, f.Loss, f.Acc, f.Prec, f.Opt)
	}
	for i, l := range f.Layers {
		wantLayer(c, i, wrap(m.Layers[i]), l)
	}
}

func wantLayer(c *core.C, i int, h *LH, l ref.FileLayer) {
	w, b := h.params(c)
	if h.Kind != int(l.Kind) || h.In != int(l.In) || h.Out != int(l.Out) || !core.BitsM(w, l.W) || !core.BitsM(M{b}, M{l.B}) ||
		h.Kind == ref.Leaky && !core.Bits(h.Slope, l.Slope) || h.Kind == ref.Dropout && !core.Bits(h.Rate, l.Dropout) {
		c.Failf("layer %d is loaded as %s %dx%d %s %v, the data says %s %dx%d %s %v", i, ref.KindName[h.Kind], h.In, h.Out, str(w), b, ref.KindName[l.Kind], l.In, l.Out, str(l.W), l.B)
	}
}

// tryLayer is tryModel for a single layer.
func tryLayer(c *core.C, b []byte) {
	buf := bytes.NewBuffer(append([]byte(nil), b...))
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	x, err := nn.LoadLayer(buf)
	runtime.ReadMemStats(&m1)
	c.Trace()
	c.Step(1)
	if a := m1.TotalAlloc - m0.TotalAlloc; a > 1<<20+256*uint64(len(b)) {
		c.Failf("loading %d bytes allocated %d bytes", len(b), a)
	}
	f, used, v, why := ref.DecodeLayer(b)
	if err != nil {
		if v == ref.Valid {
			c.Failf("valid layer data is refused: %v", err)
		}
		return
	}
	if v == ref.Invalid {
		c.Failf("invalid layer data (%v) is loaded", why)
	}
	if got := len(b) - buf.Len(); got != used {
		c.Failf("loading read %d bytes, the layer has %d", got, used)
	}
	h := wrap(x)
	wantLayer(c, 0, h, f)
	_, err = h.infer(mat(genM(2, h.In, 1)))
	noErr(c, "forward pass of the loaded layer", err)
}

func hexs(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%x... (%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func c16(r *core.Run) {
	r.Level = "fault_enumeration"
	r.Rule = "cases: every prefix of saved models of every kind, every value of every byte, every pair of extreme values in header bytes, every byte removed or doubled, every segment cut, products of extreme header fields, all short strings; each byte string is loaded and the result compared with a decoder written from the documents (invalid: refused, valid: loaded exactly, unspecified: either, but no panic), with a bound on memory allocated; non-trivial means a distinct byte string"
	r.Assume("what the documents leave open may be loaded or refused: accuracy types outside 0..2, negative or NaN precision, optimizer values missing, repeated, unknown or out of range, slopes and rates out of range")
	bases := c16bases()
	model := func(group string, b []byte, what func() string) {
		r.Case(group, func() string { return what() + ": " + hexs(b) }, func(c *core.C) {
			c.State(core.Hash(b))
			tryModel(c, b)
		})
	}
	layer := func(group string, b []byte, what func() string) {
		r.Case(group, func() string { return what() + ": " + hexs(b) }, func(c *core.C) {
			c.State(core.Hash("layer", b))
			tryLayer(c, b)
		})
	}
	// byte strings of saved models, hand-made by the encoder
	var layers [][]byte
	for bi, f := range bases {
		b := f.Encode()
		model("unchanged", b, func() string { return fmt.Sprint("base ", bi) })
		for n := 0; n < len(b); n++ {
			n := n
			model("prefixes", b[:n], func() string { return fmt.Sprintf("base %d cut at %d", bi, n) })
		}
		for i := range f.Layers {
			layers = append(layers, f.Layers[i].Encode(nil))
		}
	}
	for li, b := range layers {
		layer("layers unchanged", b, func() string { return fmt.Sprint("layer ", li) })
		for n := 0; n < len(b); n++ {
			n := n
			layer("layer prefixes", b[:n], func() string { return fmt.Sprintf("layer %d cut at %d", li, n) })
		}
		if li < 8 || r.Thorough {
			for i := range b {
				for v := 0; v < 256; v++ {
					x := append([]byte(nil), b...)
					x[i] = byte(v)
					i, v := i, v
					layer("layer bytes", x, func() string { return fmt.Sprintf("layer %d byte %d = %d", li, i, v) })
				}
			}
		}
		for i := 3; i < 11 && i < len(b); i++ {
			for j := i + 1; j < 11; j++ {
				for _, v := range extremeBytes {
					for _, w := range extremeBytes {
						x := append([]byte(nil), b...)
						x[i], x[j] = v, w
						i, j, v, w := i, j, v, w
						if li > 5 && !r.Thorough {
							continue
						}
						layer("layer size byte pairs", x, func() string { return fmt.Sprintf("layer %d bytes %d,%d = %d,%d", li, i, j, v, w) })
					}
				}
			}
		}
	}
	nb := pick(r.Thorough, len(bases), 4)
	for bi := 0; bi < nb; bi++ {
		bi := bi
		b := bases[bi].Encode()
		hdr := len(b)
		if bi > 1 && !r.Thorough {
			hdr = min(hdr, 140)
		}
		for i := 0; i < hdr; i++ {
			for v := 0; v < 256; v++ {
				x := append([]byte(nil), b...)
				x[i] = byte(v)
				i, v := i, v
				model("bytes", x, func() string { return fmt.Sprintf("base %d byte %d = %d", bi, i, v) })
			}
			i := i
			model("byte removed", append(append([]byte(nil), b[:i]...), b[i+1:]...), func() string { return fmt.Sprintf("base %d without byte %d", bi, i) })
			model("byte doubled", append(append([]byte(nil), b[:i+1]...), b[i:]...), func() string { return fmt.Sprintf("base %d with byte %d twice", bi, i) })
			for _, ins := range []byte{0, 0x7f, 0x80, 0xff} {
				x := append(append([]byte(nil), b[:i]...), ins)
				model("byte inserted", append(x, b[i:]...), func() string { return fmt.Sprintf("base %d with %d inserted at %d", bi, ins, i) })
			}
		}
		// two extreme header bytes
		skip := map[int]bool{}
		end := min(len(b), pick(r.Max, 400, pick(r.Thorough, 140, 40)))
		for i := 4; i < end; i++ {
			for j := i + 1; j < end; j++ {
				if skip[i] || (i >= 4 && i < 9) || (j >= 4 && j < 9) {
					continue
				}
				for _, v := range extremeBytes {
					for _, w := range extremeBytes {
						x := append([]byte(nil), b...)
						x[i], x[j] = v, w
						i, j, v, w := i, j, v, w
						if bi > 1 && !r.Thorough {
							continue
						}
						model("byte pairs", x, func() string { return fmt.Sprintf("base %d bytes %d,%d = %d,%d", bi, i, j, v, w) })
					}
				}
			}
		}
	}
	// segments removed
	for bi, f := range bases {
		b := f.Encode()
		step := pick(r.Thorough, 1, 3)
		for i := 0; i < len(b); i += step {
			for j := i + 1; j <= len(b); j += step * 2 {
				i, j := i, j
				model("segment removed", append(append([]byte(nil), b[:i]...), b[j:]...), func() string { return fmt.Sprintf("base %d without %d..%d", bi, i, j) })
			}
		}
	}
	// products of header fields, with any size of data behind them
	sizes := []int32{-2147483648, -1, 0, 1, 2, 3, 255, 256, 65536, 1 << 20, 2147483647}
	n8 := []int8{-128, -1, 0, 1, 2, 3, 127}
	f0 := bases[0]
	for _, n := range n8 {
		for _, in := range sizes {
			for _, out := range sizes {
				for _, loss := range []int8{-1, 0, 2, 3, 4, 127} {
					for _, opt := range []int8{-1, 0, 1, 2, 127} {
						f := *f0
						f.In, f.Out, f.Loss, f.Opt = in, out, loss, opt
						if opt == 1 {
							f.Values = bases[1].Values
						}
						b := f.Encode()
						b[9] = byte(n)
						n, in, out, loss, opt := n, in, out, loss, opt
						model("header products", b, func() string {
							return fmt.Sprintf("layers %d in %d out %d loss %d optimizer %d", n, in, out, loss, opt)
						})
					}
				}
			}
		}
	}
	for k := -128; k < 128; k++ {
		for _, in := range sizes {
			for _, out := range sizes {
				f := *f0
				l := f0.Layers[0]
				l.Kind, l.In, l.Out = int8(k), in, out
				f.Layers = []ref.FileLayer{l}
				k, in, out := k, in, out
				if k > 6 && k%8 != 0 && in != 1 {
					continue
				}
				layer("layer header products", l.Encode(nil), func() string { return fmt.Sprintf("kind %d in %d out %d", k, in, out) })
				f.In, f.Out = in, out
				model("layer header products", f.Encode(), func() string { return fmt.Sprintf("model with kind %d in %d out %d", k, in, out) })
			}
		}
	}
	// optimizer value counts and key lengths
	for nv := -128; nv < 128; nv++ {
		for _, kl := range []int{-128, -1, 0, 1, 5, 12, 127} {
			b := f0.Encode()
			at := 4 + 5 + 1 + 4 + 4 + 1 + 1 + 8 + 1
			b[at] = byte(nv)
			b[at+1] = byte(kl)
			nv, kl := nv, kl
			model("value counts", b, func() string { return fmt.Sprintf("%d optimizer values, first key %d long", nv, kl) })
			f := *f0
			f.Values = nil
			for i := 0; i < nv; i++ {
				key := fmt.Sprintf("%0*d", max(1, kl), i)
				f.Values = append(f.Values, ref.KV{Key: key[:min(len(key), 127)], Val: 1})
			}
			if nv >= 0 && kl >= 0 {
				model("value counts", f.Encode(), func() string { return fmt.Sprintf("%d optimizer values with keys %d long", nv, kl) })
			}
		}
	}
	// negative lengths, with and without what they would count
	for n := -128; n < 0; n++ {
		for vals := 0; vals <= len(f0.Values); vals++ {
			n, vals := n, vals
			at := 4 + 5 + 1 + 4 + 4 + 1 + 1 + 8 + 1
			f := *f0
			f.Values = f0.Values[:vals]
			b := f.Encode()
			b[at] = byte(n)
			model("negative lengths", b, func() string { return fmt.Sprintf("%d optimizer values, %d present", n, vals) })
			f.Values = append(append([]ref.KV(nil), f0.Values[:vals]...), ref.KV{Key: "", Val: 1})
			b = f.Encode()
			at++
			for _, v := range f0.Values[:vals] {
				at += 1 + len(v.Key) + 8
			}
			b[at] = byte(n)
			model("negative lengths", b, func() string { return fmt.Sprintf("key length %d after %d values", n, vals) })
			x := append(append([]byte(nil), b[:at+1]...), b[at+9:]...)
			model("negative lengths", x, func() string { return fmt.Sprintf("key length %d and no value after %d values", n, vals) })
		}
	}
	// inconsistent neighbours
	for a := 1; a <= 4; a++ {
		for b := 1; b <= 4; b++ {
			for cc := 1; cc <= 4; cc++ {
				for d := 1; d <= 4; d++ {
					for _, in := range []int{a, a + 1} {
						for _, out := range []int{d, d + 1} {
							a, b, cc, d, in, out := a, b, cc, d, in, out
							f := *f0
							f.In, f.Out = int32(in), int32(out)
							f.Layers = []ref.FileLayer{fileLayer(1, a, b), fileLayer(2, cc, d)}
							model("neighbouring sizes", f.Encode(), func() string { return fmt.Sprintf("%d-%d %d-%d, header %d-%d", a, b, cc, d, in, out) })
						}
					}
				}
			}
		}
	}
	// short strings
	for n := 0; n <= 2; n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = 256
		}
		do := func(ix []int) {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(ix[i])
			}
			model("short strings", b, func() string { return "string" })
			layer("short strings", b, func() string { return "string" })
		}
		if n == 0 {
			do(nil)
		} else {
			product(dims, do)
		}
	}
	words(6, 3, pick(r.Max, 8, pick(r.Thorough, 7, 6)), func(w []int) {
		b := make([]byte, len(w))
		for i, k := range w {
			b[i] = "NMLA\x00\xff"[k]
		}
		model("short strings", b, func() string { return "string" })
		layer("short strings", append([]byte("LA"), b...), func() string { return "string" })
	})
	// a long tail of zeros or ones behind every header cut: sizes read from it
	for bi, f := range bases[:2] {
		b := f.Encode()
		for n := 0; n <= len(b); n++ {
			for _, fill := range []byte{0, 1, 0x7f, 0x80, 0xff, 'A'} {
				bi, n, fill := bi, n, fill
				x := append(append([]byte(nil), b[:n]...), bytes.Repeat([]byte{fill}, 600)...)
				model("filled tails", x, func() string { return fmt.Sprintf("base %d cut at %d, filled with %d", bi, n, fill) })
			}
		}
	}
}

var extremeBytes = []byte{0, 1, 0x7f, 0x80, 0xff}

func fileLayer(kind, in, out int) ref.FileLayer {
	return ref.FileLayer{Kind: int8(kind), In: int32(in), Out: int32(out), Slope: pick(kind == ref.Leaky, 0.1, 0), Dropout: pick(kind == ref.Dropout, 0.5, 0), W: genM(in, out, kind), B: genM(1, out, kind+9)[0]}
}

func c16bases() []*ref.File {
	opts := []*ref.Opt{sgd(0.1, 0.2, 0.9), adam(0.02, 0.3)}
	var o []*ref.File
	mk := func(loss, oi, acc int, ls ...*ref.Layer) {
		o = append(o, ref.FileOf(&ref.Net{Loss: loss, Layers: ls}, opts[oi], int8(acc), 0.5, nn.VERSION))
	}
	L := refLayer
	mk(ref.MSE, 0, 0, L(ref.Linear, 1, 2, 1))
	mk(ref.CE, 1, 1, L(ref.Leaky, 2, 1, 1), L(ref.Softmax, 1, 2, 2))
	mk(ref.BCE, 0, 2, L(ref.Hidden, 1, 2, 1), L(ref.Sigmoid, 2, 1, 2))
	mk(ref.MAE, 1, 0, L(ref.Dropout, 2, 2, 1), L(ref.Linear, 2, 1, 2))
	mk(ref.MSE, 0, 0, L(ref.Hidden, 2, 3, 1), L(ref.Dropout, 3, 2, 2), L(ref.Linear, 2, 2, 3))
	mk(ref.CE, 1, 1, L(ref.Sigmoid, 3, 2, 1), L(ref.Leaky, 2, 3, 2), L(ref.Softmax, 3, 4, 3))
	return o
}
