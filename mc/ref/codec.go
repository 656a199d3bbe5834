package ref

import (
	"encoding/binary"
	"fmt"
	"math"
)

// KV is an optimizer value of a model file.
type KV struct {
	Key string
	Val float64
}

// File is the content of a model file, after ModelData.md.
type File struct {
	Version   string
	In, Out   int32
	Loss, Acc int8
	Prec      float64
	Opt       int8
	Values    []KV
	Layers    []FileLayer
}

// FileLayer is a layer, after LayerData.md.
type FileLayer struct {
	Kind           int8
	In, Out        int32
	Slope, Dropout float64
	W              M
	B              []float64
}

func le32(b []byte, v int32) []byte { return binary.LittleEndian.AppendUint32(b, uint32(v)) }
func le64(b []byte, v float64) []byte {
	return binary.LittleEndian.AppendUint64(b, math.Float64bits(v))
}

// Encode writes a layer.
func (l *FileLayer) Encode(b []byte) []byte {
	b = append(b, "LA"...)
	b = append(b, byte(l.Kind))
	b = le32(b, l.In)
	b = le32(b, l.Out)
	b = le64(b, l.Slope)
	b = le64(b, l.Dropout)
	for _, r := range l.W {
		for _, v := range r {
			b = le64(b, v)
		}
	}
	for _, v := range l.B {
		b = le64(b, v)
	}
	return b
}

// Encode writes a model.
func (f *File) Encode() []byte {
	b := append([]byte("NNML"), f.Version...)
	b = append(b, byte(len(f.Layers)))
	b = le32(b, f.In)
	b = le32(b, f.Out)
	b = append(b, byte(f.Loss), byte(f.Acc))
	b = le64(b, f.Prec)
	b = append(b, byte(f.Opt), byte(len(f.Values)))
	for _, kv := range f.Values {
		b = append(b, byte(len(kv.Key)))
		b = append(b, kv.Key...)
		b = le64(b, kv.Val)
	}
	for i := range f.Layers {
		b = f.Layers[i].Encode(b)
	}
	return b
}

// Verdicts of the decoder.
const (
	Invalid     = iota // must be refused
	Valid              // must be loaded
	Unspecified        // well-formed, but with values the documents say nothing about
)

type reader struct {
	b   []byte
	bad error
}

func (r *reader) take(n int) []byte {
	if r.bad == nil && (n < 0 || n > len(r.b)) {
		r.bad = fmt.Errorf("truncated or negative length")
	}
	if r.bad != nil {
		return make([]byte, max(0, min(n, 16)))
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *reader) i8() int8     { return int8(r.take(1)[0]) }
func (r *reader) i32() int32   { return int32(binary.LittleEndian.Uint32(r.take(4))) }
func (r *reader) f64() float64 { return math.Float64frombits(binary.LittleEndian.Uint64(r.take(8))) }

func (r *reader) fail(s string) {
	if r.bad == nil {
		r.bad = fmt.Errorf("%s", s)
	}
}

func (r *reader) layer() (l FileLayer, odd bool) {
	if string(r.take(2)) != "LA" {
		r.fail("layer magic")
	}
	l.Kind = r.i8()
	l.In, l.Out = r.i32(), r.i32()
	l.Slope, l.Dropout = r.f64(), r.f64()
	if l.In < 1 || l.Out < 1 {
		r.fail("layer size")
	}
	if r.bad != nil {
		return
	}
	if (int64(l.In)+1)*int64(l.Out) > int64(len(r.b)/8) {
		r.fail("truncated layer")
		return
	}
	if l.Kind < 0 || l.Kind >= NKinds {
		r.fail("layer type")
		return
	}
	l.W = Zeros(int(l.In), int(l.Out))
	l.B = make([]float64, l.Out)
	for i := range l.W {
		for j := range l.W[i] {
			l.W[i][j] = r.f64()
		}
	}
	for j := range l.B {
		l.B[j] = r.f64()
	}
	if l.Kind == Leaky && !(l.Slope >= 0) || l.Kind == Dropout && !(l.Dropout >= 0 && l.Dropout <= 1) {
		odd = true
	}
	return
}

// DecodeLayer reads a layer; used says how many bytes it has.
func DecodeLayer(b []byte) (l FileLayer, used int, verdict int, why error) {
	r := &reader{b: b}
	l, odd := r.layer()
	if r.bad != nil {
		return l, 0, Invalid, r.bad
	}
	return l, len(b) - len(r.b), pickV(odd), nil
}

func pickV(odd bool) int {
	if odd {
		return Unspecified
	}
	return Valid
}

// OptKeys are the values of the optimizers.
var OptKeys = [][]string{{"learningRate", "decay", "momentum"}, {"learningRate", "decay", "epsilon", "beta1", "beta2"}}

// Decode reads a model file after the documents.
func Decode(b []byte) (f File, used int, verdict int, why error) {
	r := &reader{b: b}
	odd := false
	if string(r.take(4)) != "NNML" {
		r.fail("magic")
	}
	f.Version = string(r.take(5))
	n := r.i8()
	f.In, f.Out = r.i32(), r.i32()
	f.Loss, f.Acc = r.i8(), r.i8()
	f.Prec = r.f64()
	f.Opt = r.i8()
	nv := r.i8()
	if nv < 0 {
		r.fail("negative number of optimizer values")
	}
	if n <= 0 || f.In < 1 || f.Out < 1 {
		r.fail("non-positive size")
	}
	if f.Loss < 0 || f.Loss >= NLosses {
		r.fail("loss type")
	}
	if f.Opt < 0 || f.Opt > 1 {
		r.fail("optimizer type")
	}
	if f.Acc < 0 || f.Acc > 2 || !(f.Prec >= 0) {
		odd = true
	}
	seen := map[string]float64{}
	for i := 0; i < int(nv) && r.bad == nil; i++ {
		k := r.i8()
		if k < 0 {
			r.fail("negative key length")
			break
		}
		key := string(r.take(int(k)))
		v := r.f64()
		if _, ok := seen[key]; ok {
			odd = true
		}
		seen[key] = v
		f.Values = append(f.Values, KV{key, v})
	}
	for i := 0; i < int(n) && r.bad == nil; i++ {
		l, o := r.layer()
		if r.bad != nil {
			break
		}
		odd = odd || o
		if i > 0 && f.Layers[i-1].Out != l.In {
			r.fail("layer sizes do not fit together")
		}
		f.Layers = append(f.Layers, l)
	}
	if r.bad == nil && (f.In != f.Layers[0].In || f.Out != f.Layers[len(f.Layers)-1].Out) {
		r.fail("model sizes are not those of the layers")
	}
	if r.bad != nil {
		return f, 0, Invalid, r.bad
	}
	// exactly the values of the optimizer, in the ranges its constructor takes
	keys := OptKeys[f.Opt]
	if len(seen) != len(keys) {
		odd = true
	}
	for _, k := range keys {
		v, ok := seen[k]
		if !ok || !(v >= 0) || (k == "learningRate" && v == 0) {
			odd = true
		}
	}
	return f, len(b) - len(r.b), pickV(odd), nil
}

// FileOf is the file that describes a net.
func FileOf(n *Net, o *Opt, acc int8, prec float64, version string) *File {
	f := &File{Version: version, In: int32(n.Layers[0].In), Out: int32(n.Layers[len(n.Layers)-1].Out), Loss: int8(n.Loss), Acc: acc, Prec: prec}
	if o.Adam {
		f.Opt = 1
		f.Values = []KV{{"learningRate", o.LR}, {"decay", o.Decay}, {"epsilon", o.Epsilon}, {"beta1", o.Beta1}, {"beta2", o.Beta2}}
	} else {
		f.Values = []KV{{"learningRate", o.LR}, {"decay", o.Decay}, {"momentum", o.Mom}}
	}
	for _, l := range n.Layers {
		fl := FileLayer{Kind: int8(l.Kind), In: int32(l.In), Out: int32(l.Out), W: l.W, B: l.B}
		if l.Kind == Leaky {
			fl.Slope = l.Slope
		}
		if l.Kind == Dropout {
			fl.Dropout = l.Rate
		}
		f.Layers = append(f.Layers, fl)
	}
	return f
}
