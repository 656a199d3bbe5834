package main

import (
	"cmp"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"unsafe"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

type M = ref.M

var (
	nan, inf = math.NaN(), math.Inf(1)
)

// fail is the part of core.C that helpers need.
type fail = *core.C

// gen yields fixed generic values in (-1,1): distinct, no structure.
func gen(k int) float64 {
	_, f := math.Modf(float64(k+1)*0.6180339887498949 + 0.137)
	return math.Round((2*f-1)*1e6)/1e6 + 1e-7
}

func genM(r, c, seed int) M {
	m := ref.Zeros(r, c)
	for i := range m {
		for j := range m[i] {
			m[i][j] = gen(seed*7919 + i*c*3 + j*2 + 1)
		}
	}
	return m
}

// mat makes a fresh matrix of the implementation.
func mat(m M) nn.Matrix {
	if len(m) == 0 {
		return nn.Matrix{}
	}
	x, err := nn.NewMatrix(len(m), len(m[0]))
	if err != nil {
		panic(fmt.Sprintf("NewMatrix(%d,%d) refused: %v", len(m), len(m[0]), err))
	}
	for i := range m {
		for j := range m[i] {
			x.M[i][j] = m[i][j]
		}
	}
	return x
}

// val reads a matrix back, checking that its shape fields agree with its storage.
func val(m nn.Matrix) M {
	o := make(M, len(m.M))
	for i := range m.M {
		o[i] = append([]float64{}, m.M[i]...)
	}
	return o
}

// shapeOK checks rows, cols and storage.
func shapeOK(m nn.Matrix, r, c int) bool {
	if m.Rows != r || m.Cols != c || len(m.M) != r {
		return false
	}
	for i := range m.M {
		if len(m.M[i]) != c {
			return false
		}
	}
	return true
}

func str(m M) string {
	var b strings.Builder
	b.WriteByte('[')
	for i := range m {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i >= 6 {
			fmt.Fprintf(&b, "...%d rows", len(m))
			break
		}
		if len(m[i]) > 12 {
			fmt.Fprintf(&b, "%v...%d", m[i][:12], len(m[i]))
		} else {
			fmt.Fprintf(&b, "%v", m[i])
		}
	}
	b.WriteByte(']')
	return b.String()
}

// wantM fails unless got has the values of want within tol.
func wantM(c fail, what string, got nn.Matrix, want M, tol float64) {
	if !shapeOK(got, len(want), len(want[0])) {
		c.Failf("%s: got shape %dx%d (storage %d rows), want %dx%d", what, got.Rows, got.Cols, len(got.M), len(want), len(want[0]))
	}
	for i := range want {
		for j := range want[i] {
			if !core.Close(got.M[i][j], want[i][j], tol) {
				c.Failf("%s: entry [%d][%d] is %v, want %v (got %s, want %s)", what, i, j, got.M[i][j], want[i][j], str(got.M), str(want))
			}
		}
	}
}

// wantRel is like wantM but purely relative to the sum of the absolute terms.
func wantRel(c fail, what string, got nn.Matrix, want, scale M, tol float64) {
	if !shapeOK(got, len(want), len(want[0])) {
		c.Failf("%s: got shape %dx%d, want %dx%d", what, got.Rows, got.Cols, len(want), len(want[0]))
	}
	for i := range want {
		for j := range want[i] {
			if !core.Same(got.M[i][j], want[i][j]) && !(math.Abs(got.M[i][j]-want[i][j]) <= tol*scale[i][j]+1e-300) {
				c.Failf("%s: entry [%d][%d] is %v, want %v (got %s, want %s)", what, i, j, got.M[i][j], want[i][j], str(got.M), str(want))
			}
		}
	}
}

func wantSame(c fail, what string, got nn.Matrix, want M) {
	if !shapeOK(got, len(want), len(want[0])) {
		c.Failf("%s: got shape %dx%d (storage %d rows), want %dx%d", what, got.Rows, got.Cols, len(got.M), len(want), len(want[0]))
	}
	for i := range want {
		for j := range want[i] {
			if !core.Same(got.M[i][j], want[i][j]) {
				c.Failf("%s: entry [%d][%d] is %v, want %v (got %s, want %s)", what, i, j, got.M[i][j], want[i][j], str(got.M), str(want))
			}
		}
	}
}

// untouched fails unless m still has exactly these bits.
func untouched(c fail, what string, m nn.Matrix, want M) {
	if m.Rows != len(want) || !core.BitsM(m.M, want) {
		c.Failf("%s was changed: now %s, was %s", what, str(m.M), str(want))
	}
}

func noErr(c fail, what string, err error) {
	if err != nil {
		c.Failf("%s: unexpected error: %v", what, err)
	}
}

// product enumerates all tuples with digit i in [0,dims[i]).
func product(dims []int, f func(ix []int)) {
	for _, d := range dims {
		if d == 0 {
			return
		}
	}
	ix := make([]int, len(dims))
	for {
		f(ix)
		k := len(ix) - 1
		for k >= 0 {
			ix[k]++
			if ix[k] < dims[k] {
				break
			}
			ix[k] = 0
			k--
		}
		if k < 0 {
			return
		}
	}
}

// words enumerates all sequences over n letters with lengths lo..hi.
func words(n, lo, hi int, f func(w []int)) {
	for l := lo; l <= hi; l++ {
		if l == 0 {
			f(nil)
			continue
		}
		d := make([]int, l)
		for i := range d {
			d[i] = n
		}
		product(d, f)
	}
}

func cp(w []int) []int { return append([]int(nil), w...) }

func scribble(m nn.Matrix) {
	for i := range m.M {
		for j := range m.M[i] {
			m.M[i][j] = -777.25 - float64(i*31+j)
		}
	}
}

// overlaps says whether two matrices share storage.
func overlaps(a, b nn.Matrix) bool {
	type span struct {
		lo, hi uintptr
		of     int
	}
	spans := make([]span, 0, 16)
	if n := len(a.M) + len(b.M); n > 16 {
		spans = make([]span, 0, n)
	}
	for i, m := range [2]*nn.Matrix{&a, &b} {
		for _, row := range m.M {
			if len(row) > 0 {
				lo := uintptr(unsafe.Pointer(&row[0]))
				spans = append(spans, span{lo, lo + uintptr(len(row))*8, i})
			}
		}
	}
	if len(spans) <= 8 {
		for i, x := range spans {
			for _, y := range spans[:i] {
				if x.of != y.of && x.lo < y.hi && y.lo < x.hi {
					return true
				}
			}
		}
		return false
	}
	slices.SortFunc(spans, func(x, y span) int { return cmp.Compare(x.lo, y.lo) })
	var end [2]uintptr // how far the rows of each matrix reach so far
	for _, s := range spans {
		if s.lo < end[1-s.of] {
			return true
		}
		end[s.of] = max(end[s.of], s.hi)
	}
	return false
}

func sizesUpTo(n int, more ...int) []int {
	var o []int
	for i := 1; i <= n; i++ {
		o = append(o, i)
	}
	return append(o, more...)
}

// huge are sizes past every 13 to 16 bit boundary.
var huge = []int{8193, 10001, 16385, 32767, 32768, 32769, 50001, 65535, 65536, 65537, 70000}

func pick[T any](b bool, x, y T) T {
	if b {
		return x
	}
	return y
}

// ---- layers ----

// LH is a layer of the implementation with access to its parameters.
type LH struct {
	Kind    int
	In, Out int
	Slope   float64
	Rate    float64
	L       nn.Layer
	W, B    func() *nn.Matrix
	sizes   func() (int, int)
	hyper   func() float64
	drop    *nn.DropoutLayer
	soft    *nn.SoftmaxLayer
}

func newLayer(kind, in, out int, slope, rate float64) (*LH, error) {
	h := &LH{Kind: kind, In: in, Out: out, Slope: slope, Rate: rate}
	switch kind {
	case ref.Hidden:
		l, err := nn.NewLayer(in, out)
		if err != nil {
			return nil, err
		}
		h.L, h.W, h.B = &l, func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }
		h.sizes = func() (int, int) { return l.InputSize, l.OutputSize }
	case ref.Linear:
		l, err := nn.NewLinearLayer(in, out)
		if err != nil {
			return nil, err
		}
		h.L, h.W, h.B = &l, func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }
		h.sizes = func() (int, int) { return l.InputSize, l.OutputSize }
	case ref.Sigmoid:
		l, err := nn.NewSigmoidLayer(in, out)
		if err != nil {
			return nil, err
		}
		h.L, h.W, h.B = &l, func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }
		h.sizes = func() (int, int) { return l.InputSize, l.OutputSize }
	case ref.Leaky:
		l, err := nn.NewLeakyLayer(in, out, slope)
		if err != nil {
			return nil, err
		}
		h.L, h.W, h.B = &l, func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }
		h.sizes = func() (int, int) { return l.InputSize, l.OutputSize }
		h.hyper = func() float64 { return l.Slope }
	case ref.Softmax:
		l, err := nn.NewSoftmaxLayer(in, out)
		if err != nil {
			return nil, err
		}
		h.soft = &l
		h.L, h.W, h.B = &l, func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }
		h.sizes = func() (int, int) { return l.InputSize, l.OutputSize }
	case ref.Dropout:
		l, err := nn.NewDropoutLayer(in, out, rate)
		if err != nil {
			return nil, err
		}
		h.drop = &l
		h.L, h.W, h.B = &l, func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }
		h.sizes = func() (int, int) { return l.InputSize, l.OutputSize }
		h.hyper = func() float64 { return l.Dropout }
	}
	return h, nil
}

// wrap gives parameter access to a layer found in a model.
func wrap(l nn.Layer) *LH {
	h := &LH{L: l}
	switch l := l.(type) {
	case *nn.HiddenLayer:
		h.Kind, h.In, h.Out = ref.Hidden, l.InputSize, l.OutputSize
		h.W, h.B = func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }
	case *nn.LinearLayer:
		h.Kind, h.In, h.Out = ref.Linear, l.InputSize, l.OutputSize
		h.W, h.B = func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }
	case *nn.SigmoidLayer:
		h.Kind, h.In, h.Out = ref.Sigmoid, l.InputSize, l.OutputSize
		h.W, h.B = func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }
	case *nn.LeakyLayer:
		h.Kind, h.In, h.Out, h.Slope = ref.Leaky, l.InputSize, l.OutputSize, l.Slope
		h.W, h.B = func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }
	case *nn.SoftmaxLayer:
		h.Kind, h.In, h.Out, h.soft = ref.Softmax, l.InputSize, l.OutputSize, l
		h.W, h.B = func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }
	case *nn.DropoutLayer:
		h.Kind, h.In, h.Out, h.Rate, h.drop = ref.Dropout, l.InputSize, l.OutputSize, l.Dropout, l
		h.W, h.B = func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }
	default:
		panic(fmt.Sprintf("unknown layer type %T", l))
	}
	return h
}

func (h *LH) set(w M, b []float64) {
	for i := range w {
		copy(h.W().M[i], w[i])
	}
	copy(h.B().M[0], b)
}

// params checks shapes and returns the reference copy of the parameters.
func (h *LH) params(c fail) (M, []float64) {
	w, b := h.W(), h.B()
	if !shapeOK(*w, h.In, h.Out) || !shapeOK(*b, 1, h.Out) {
		c.Failf("layer parameters have shapes %dx%d and %dx%d, want %dx%d and 1x%d", w.Rows, w.Cols, b.Rows, b.Cols, h.In, h.Out, h.Out)
	}
	return val(*w), val(*b)[0]
}

func (h *LH) raw() (M, []float64) { return val(*h.W()), val(*h.B())[0] }

// infer is the forward pass used for inference.
func (h *LH) infer(x nn.Matrix) (nn.Matrix, error) {
	if h.drop != nil {
		return h.drop.ForwardNoDropout(x)
	}
	return h.L.Forward(x)
}

// fromRef builds the implementation's layer of a reference layer.
func fromRef(l *ref.Layer) *LH {
	h, err := newLayer(l.Kind, l.In, l.Out, l.Slope, l.Rate)
	if err != nil {
		panic(fmt.Sprintf("constructor refused %s %dx%d: %v", ref.KindName[l.Kind], l.In, l.Out, err))
	}
	h.set(l.W, l.B)
	return h
}

// refLayer makes a reference layer with generic parameters.
func refLayer(kind, in, out int, seed int) *ref.Layer {
	l := &ref.Layer{Kind: kind, In: in, Out: out, Slope: 0, W: genM(in, out, seed), B: genM(1, out, seed+101)[0]}
	if kind == ref.Leaky {
		l.Slope = 0.1
	}
	if kind == ref.Dropout {
		l.Rate = 0.5
	}
	return l
}

// ---- losses ----

func newLoss(kind, size int) (nn.Loss, error) {
	switch kind {
	case ref.MSE:
		l, err := nn.NewMeanSquaredLoss(size)
		return &l, err
	case ref.MAE:
		l, err := nn.NewMeanAbsoluteLoss(size)
		return &l, err
	case ref.CE:
		l, err := nn.NewCrossEntropyLoss(size)
		return &l, err
	}
	l, err := nn.NewBinaryCrossEntropyLoss(size)
	return &l, err
}

func mustLoss(kind, size int) nn.Loss {
	l, err := newLoss(kind, size)
	if err != nil {
		panic(fmt.Sprintf("loss constructor refused size %d: %v", size, err))
	}
	return l
}

// ---- optimizers ----

func newOpt(o *ref.Opt) (nn.Optimizer, error) {
	if o.Adam {
		x, err := nn.NewAdamOptimizer(o.LR, o.Decay, o.Epsilon, o.Beta1, o.Beta2)
		return &x, err
	}
	x, err := nn.NewSGDOptimizer(o.LR, o.Decay, o.Mom)
	return &x, err
}

func mustOpt(o *ref.Opt) nn.Optimizer {
	x, err := newOpt(o)
	if err != nil {
		panic(fmt.Sprintf("optimizer constructor refused %+v: %v", *o, err))
	}
	return x
}

func sgd(lr, decay, mom float64) *ref.Opt { return &ref.Opt{LR: lr, Decay: decay, Mom: mom} }
func adam(lr, decay float64) *ref.Opt {
	return &ref.Opt{Adam: true, LR: lr, Decay: decay, Epsilon: 1e-7, Beta1: 0.9, Beta2: 0.999}
}
func optName(o *ref.Opt) string {
	if o.Adam {
		return fmt.Sprintf("adam(lr=%v,decay=%v,eps=%v,b1=%v,b2=%v)", o.LR, o.Decay, o.Epsilon, o.Beta1, o.Beta2)
	}
	return fmt.Sprintf("sgd(lr=%v,decay=%v,mom=%v)", o.LR, o.Decay, o.Mom)
}

// ---- models ----

// MH is a model of the implementation.
type MH struct {
	Mod      nn.Model
	Layers   []*LH
	scribble bool
}

func buildModel(n *ref.Net, opt *ref.Opt, acc int, prec float64) *MH {
	h := &MH{Mod: nn.NewModel()}
	for _, l := range n.Layers {
		lh := fromRef(l)
		h.Layers = append(h.Layers, lh)
		if err := h.Mod.AddLayer(lh.L); err != nil {
			panic(fmt.Sprintf("AddLayer refused a fitting layer: %v", err))
		}
	}
	last := n.Layers[len(n.Layers)-1]
	if err := h.Mod.Finalize(mustLoss(n.Loss, last.Out), mustOpt(opt), nn.AccuracyType(acc), prec); err != nil {
		panic(fmt.Sprintf("Finalize refused a fitting model: %v", err))
	}
	return h
}

func wrapModel(m nn.Model) *MH {
	h := &MH{Mod: m}
	for _, l := range m.Layers {
		h.Layers = append(h.Layers, wrap(l))
	}
	return h
}

// params returns the flat parameters of every layer.
func (h *MH) params() [][]float64 {
	var o [][]float64
	for _, l := range h.Layers {
		w, b := l.raw()
		o = append(o, ref.Flat(w, b))
	}
	return o
}

func netParams(n *ref.Net) [][]float64 {
	var o [][]float64
	for _, l := range n.Layers {
		o = append(o, ref.Flat(l.W, l.B))
	}
	return o
}

// wantParams compares the parameters with the reference within tol.
func wantParams(c fail, what string, h *MH, n *ref.Net, tol float64) {
	for i, l := range h.Layers {
		w, b := l.params(c)
		got, want := ref.Flat(w, b), ref.Flat(n.Layers[i].W, n.Layers[i].B)
		for k := range want {
			if !core.Close(got[k], want[k], tol) {
				c.Failf("%s: layer %d (%s) parameter %d is %v, want %v (all: %v, want %v)", what, i, ref.KindName[n.Layers[i].Kind], k, got[k], want[k], got, want)
			}
		}
	}
}

func sameParams(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if !core.Bits(a[i][j], b[i][j]) {
				return false
			}
		}
	}
	return true
}

func netName(n *ref.Net) string {
	var s []string
	for _, l := range n.Layers {
		s = append(s, fmt.Sprintf("%s%dx%d", ref.KindName[l.Kind], l.In, l.Out))
	}
	return strings.Join(s, "-") + "/" + ref.LossName[n.Loss]
}

// oneHot makes labels cycling through the classes.
func oneHot(rows, cols, shift int) M {
	m := ref.Zeros(rows, cols)
	for i := range m {
		m[i][(i*2+shift)%cols] = 1
	}
	return m
}

// bits makes 0/1 labels.
func bitLabels(rows, cols, seed int) M {
	m := ref.Zeros(rows, cols)
	for i := range m {
		for j := range m[i] {
			if gen(seed*31+i*cols+j) > 0 {
				m[i][j] = 1
			}
		}
	}
	return m
}

func labels(loss, rows, cols, seed int) M {
	switch loss {
	case ref.CE:
		return oneHot(rows, cols, seed)
	case ref.BCE:
		return bitLabels(rows, cols, seed)
	}
	return genM(rows, cols, seed+500)
}

var quietly = func() {} // set-up hook, see c25

func init() { _ = core.Same }

func sortedKeys[V any](m map[string]V) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// refill writes v into the storage of m, as a caller reusing a buffer does.
func refill(m nn.Matrix, v M) {
	for i := range v {
		copy(m.M[i], v[i])
	}
}
