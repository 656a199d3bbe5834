// Package ref is the reference model: boring textbook definitions, written
// without looking like the implementation.
package ref

import "math"

type M = [][]float64

func Zeros(r, c int) M {
	m := make(M, r)
	for i := range m {
		m[i] = make([]float64, c)
	}
	return m
}

func Map2(a, b M, f func(x, y float64) float64) M {
	o := Zeros(len(a), len(a[0]))
	for i := range a {
		for j := range a[i] {
			o[i][j] = f(a[i][j], b[i][j])
		}
	}
	return o
}

func Map(a M, f func(x float64) float64) M {
	o := Zeros(len(a), len(a[0]))
	for i := range a {
		for j := range a[i] {
			o[i][j] = f(a[i][j])
		}
	}
	return o
}

// Dot is the matrix product; scale has the sums of the absolute terms, to
// which rounding is relative.
func Dot(a, b M) (o, scale M) {
	o, scale = Zeros(len(a), len(b[0])), Zeros(len(a), len(b[0]))
	for i := range o {
		for j := range o[i] {
			for k := range b {
				o[i][j] += a[i][k] * b[k][j]
				scale[i][j] += math.Abs(a[i][k] * b[k][j])
			}
		}
	}
	return
}

func T(a M) M {
	o := Zeros(len(a[0]), len(a))
	for i := range o {
		for j := range o[i] {
			o[i][j] = a[j][i]
		}
	}
	return o
}

// Layer kinds, with the codes of LayerData.md's implementation.
const (
	Hidden = iota
	Linear
	Sigmoid
	Leaky
	Softmax
	Dropout
	NKinds
)

var KindName = []string{"hidden", "linear", "sigmoid", "leaky", "softmax", "dropout"}

// Loss kinds.
const (
	MSE = iota
	MAE
	CE
	BCE
	NLosses
)

var LossName = []string{"mse", "mae", "ce", "bce"}

const Eps = 1e-7

type Layer struct {
	Kind        int
	In, Out     int
	Slope, Rate float64
	W           M
	B           []float64
}

func (l *Layer) Clone() *Layer {
	c := *l
	c.W = Zeros(len(l.W), len(l.W[0]))
	for i := range l.W {
		copy(c.W[i], l.W[i])
	}
	c.B = append([]float64(nil), l.B...)
	return &c
}

// Pre computes XW+B.
func (l *Layer) Pre(x M) M {
	o := Zeros(len(x), l.Out)
	for i := range x {
		for j := 0; j < l.Out; j++ {
			s := 0.0
			for k := 0; k < l.In; k++ {
				s += x[i][k] * l.W[k][j]
			}
			o[i][j] = s + l.B[j]
		}
	}
	return o
}

func SigmoidF(x float64) float64 {
	if x >= 0 {
		return 1 / (1 + math.Exp(-x))
	}
	e := math.Exp(x)
	return e / (1 + e)
}

func SoftmaxRow(row []float64) []float64 {
	m := math.Inf(-1)
	for _, v := range row {
		if v > m {
			m = v
		}
	}
	o := make([]float64, len(row))
	s := 0.0
	for i, v := range row {
		o[i] = math.Exp(v - m)
		s += o[i]
	}
	for i := range o {
		o[i] /= s
	}
	return o
}

// Act applies the activation to the pre-activations. mask (may be nil) holds
// the factors a training dropout pass applied.
func (l *Layer) Act(pre, mask M) M {
	o := Zeros(len(pre), l.Out)
	for i := range pre {
		switch l.Kind {
		case Softmax:
			o[i] = SoftmaxRow(pre[i])
		default:
			for j, v := range pre[i] {
				switch l.Kind {
				case Hidden, Dropout:
					if v < 0 {
						v = 0
					}
					if mask != nil {
						v *= mask[i][j]
					}
				case Sigmoid:
					v = SigmoidF(v)
				case Leaky:
					if v < 0 {
						v *= l.Slope
					}
				}
				o[i][j] = v
			}
		}
	}
	return o
}

func (l *Layer) Forward(x, mask M) M { return l.Act(l.Pre(x), mask) }

// Backward is the hand-derived gradient. kink is the derivative taken for
// ReLU (0 or 1) and leaky ReLU (slope or 1) at exactly 0.
func (l *Layer) Backward(x, d, mask M, kink int) (dW M, dB []float64, dX M) {
	pre := l.Pre(x)
	g := Zeros(len(x), l.Out)
	for i := range pre {
		switch l.Kind {
		case Softmax:
			p := SoftmaxRow(pre[i])
			dot := 0.0
			for j := range p {
				dot += p[j] * d[i][j]
			}
			for j := range p {
				g[i][j] = p[j] * (d[i][j] - dot)
			}
		default:
			for j, v := range pre[i] {
				f := 1.0
				switch l.Kind {
				case Hidden, Dropout:
					if v < 0 || (v == 0 && kink == 0) {
						f = 0
					}
					if mask != nil {
						f *= mask[i][j]
					}
				case Sigmoid:
					s := SigmoidF(v)
					f = s * SigmoidF(-v)
				case Leaky:
					if v < 0 || (v == 0 && kink == 0) {
						f = l.Slope
					}
				}
				g[i][j] = d[i][j] * f
			}
		}
	}
	dW, dB, dX = Zeros(l.In, l.Out), make([]float64, l.Out), Zeros(len(x), l.In)
	for i := range x {
		for j := 0; j < l.Out; j++ {
			dB[j] += g[i][j]
			for k := 0; k < l.In; k++ {
				dW[k][j] += x[i][k] * g[i][j]
				dX[i][k] += g[i][j] * l.W[k][j]
			}
		}
	}
	return
}

// HasKink says whether some pre-activation lies exactly on a kink.
func (l *Layer) HasKink(x M) bool {
	if l.Kind != Hidden && l.Kind != Leaky && l.Kind != Dropout {
		return false
	}
	for _, r := range l.Pre(x) {
		for _, v := range r {
			if v == 0 {
				return true
			}
		}
	}
	return false
}

func ClipF(p float64) float64 {
	if p < Eps {
		return Eps
	}
	if p > 1-Eps {
		return 1 - Eps
	}
	return p
}

// Loss is the batch loss.
func Loss(kind int, p, y M) float64 {
	n, c := float64(len(p)), float64(len(p[0]))
	s := 0.0
	for i := range p {
		t := 0.0
		for j := range p[i] {
			switch kind {
			case MSE:
				t += (p[i][j] - y[i][j]) * (p[i][j] - y[i][j])
			case MAE:
				t += math.Abs(p[i][j] - y[i][j])
			case CE:
				if y[i][j] == 1 {
					t += -math.Log(ClipF(p[i][j]))
				}
			case BCE:
				q := ClipF(p[i][j])
				t += -(y[i][j]*math.Log(q) + (1-y[i][j])*math.Log(1-q))
			}
		}
		if kind != CE {
			t /= c
		}
		s += t
	}
	return s / n
}

// LossGrad is its gradient in p (clipped denominators).
func LossGrad(kind int, p, y M) M {
	n, c := float64(len(p)), float64(len(p[0]))
	g := Zeros(len(p), len(p[0]))
	for i := range p {
		for j := range p[i] {
			d := p[i][j] - y[i][j]
			q := ClipF(p[i][j])
			switch kind {
			case MSE:
				g[i][j] = 2 * d / (n * c)
			case MAE:
				switch {
				case d > 0:
					g[i][j] = 1 / (n * c)
				case d < 0:
					g[i][j] = -1 / (n * c)
				}
			case CE:
				if y[i][j] != 0 {
					g[i][j] = -y[i][j] / q / n
				}
			case BCE:
				g[i][j] = ((1-y[i][j])/(1-q) - y[i][j]/q) / (n * c)
			}
		}
	}
	return g
}

// Opt is a reference optimizer for one layer.
type Opt struct {
	Adam                  bool
	LR, Decay, Mom        float64
	Epsilon, Beta1, Beta2 float64
	t                     int
	m, v                  []float64
}

// Clone copies the optimizer with its state.
func (o *Opt) Clone() *Opt {
	c := *o
	c.m, c.v = append([]float64(nil), o.m...), append([]float64(nil), o.v...)
	if o.m == nil {
		c.m, c.v = nil, nil
	}
	return &c
}

func (o *Opt) Fresh() *Opt { c := *o; c.t, c.m, c.v = 0, nil, nil; return &c }

// Step updates the flat parameter vector in place.
func (o *Opt) Step(p, g []float64) {
	if o.m == nil {
		o.m, o.v = make([]float64, len(p)), make([]float64, len(p))
	}
	rate := o.LR / (1 + o.Decay*float64(o.t))
	o.t++
	for i := range p {
		switch {
		case o.Adam:
			o.m[i] = o.Beta1*o.m[i] + (1-o.Beta1)*g[i]
			o.v[i] = o.Beta2*o.v[i] + (1-o.Beta2)*g[i]*g[i]
			mh := o.m[i] / (1 - math.Pow(o.Beta1, float64(o.t)))
			vh := o.v[i] / (1 - math.Pow(o.Beta2, float64(o.t)))
			p[i] -= rate * mh / (math.Sqrt(vh) + o.Epsilon)
		case o.Mom != 0:
			o.m[i] = o.Mom*o.m[i] - rate*g[i]
			p[i] += o.m[i]
		default:
			p[i] -= rate * g[i]
		}
	}
}

// Net is a reference model.
type Net struct {
	Layers []*Layer
	Loss   int
	Opts   []*Opt // one per layer
}

func (n *Net) Clone() *Net {
	c := &Net{Loss: n.Loss}
	for _, l := range n.Layers {
		c.Layers = append(c.Layers, l.Clone())
	}
	return c
}

func (n *Net) SetOpt(o *Opt) {
	n.Opts = nil
	for range n.Layers {
		n.Opts = append(n.Opts, o.Fresh())
	}
}

// Forward returns the inputs and every layer's output. masks may be nil.
func (n *Net) Forward(x M, masks []M) []M {
	outs := []M{x}
	for i, l := range n.Layers {
		var m M
		if masks != nil {
			m = masks[i]
		}
		x = l.Forward(x, m)
		outs = append(outs, x)
	}
	return outs
}

func (n *Net) Predict(x M) M { o := n.Forward(x, nil); return o[len(o)-1] }

type Grad struct {
	W M
	B []float64
}

// Backward returns the gradients, first layer first.
func (n *Net) Backward(outs []M, y M, masks []M, kink int) []Grad {
	d := LossGrad(n.Loss, outs[len(outs)-1], y)
	gs := make([]Grad, len(n.Layers))
	for i := len(n.Layers) - 1; i >= 0; i-- {
		l := n.Layers[i]
		var m M
		if masks != nil {
			m = masks[i]
		}
		if i == len(n.Layers)-1 && l.Kind == Softmax && n.Loss == CE {
			// exact derivative, where the clip does not bite
			g := Map2(outs[i+1], y, func(p, t float64) float64 { return (p - t) / float64(len(y)) })
			lin := *l
			lin.Kind = Linear
			gs[i].W, gs[i].B, d = lin.Backward(outs[i], g, nil, kink)
			continue
		}
		gs[i].W, gs[i].B, d = l.Backward(outs[i], d, m, kink)
	}
	return gs
}

// Step does one minibatch update.
func (n *Net) Step(x, y M) {
	masks := make([]M, len(n.Layers))
	for i, l := range n.Layers {
		if l.Kind == Dropout && l.Rate == 1 {
			masks[i] = Zeros(len(x), l.Out) // everything is dropped
		}
	}
	n.StepMasked(x, y, masks)
}

// StepMasked is Step with given dropout factors.
func (n *Net) StepMasked(x, y M, masks []M) {
	gs := n.Backward(n.Forward(x, masks), y, masks, 0)
	for i, l := range n.Layers {
		p, g := Flat(l.W, l.B), Flat(gs[i].W, gs[i].B)
		n.Opts[i].Step(p, g)
		k := 0
		for a := range l.W {
			k += copy(l.W[a], p[k:])
		}
		copy(l.B, p[k:])
	}
}

// Fit trains by consecutive minibatches.
func (n *Net) Fit(x, y M, epochs, batch int) {
	if batch == 0 {
		batch = len(x)
	}
	for e := 0; e < epochs; e++ {
		for s := 0; s < len(x); s += batch {
			t := s + batch
			if t > len(x) {
				t = len(x)
			}
			n.Step(x[s:t], y[s:t])
		}
	}
}

func Flat(w M, b []float64) []float64 {
	var o []float64
	for _, r := range w {
		o = append(o, r...)
	}
	return append(o, b...)
}

func ArgMax(row []float64) int {
	k := 0
	for j := range row {
		if row[j] > row[k] {
			k = j
		}
	}
	return k
}

// Accuracy modes.
const (
	AccReg = iota
	AccCat
	AccBin
)

func Accuracy(mode int, p, y M, prec float64) float64 {
	ok, n := 0, 0
	for i := range p {
		if mode == AccCat {
			n++
			if y[i][ArgMax(p[i])] == 1 {
				ok++
			}
			continue
		}
		for j := range p[i] {
			n++
			switch mode {
			case AccReg:
				if math.Abs(p[i][j]-y[i][j]) < prec {
					ok++
				}
			case AccBin:
				b := 0.0
				if p[i][j] >= 0.5 {
					b = 1
				}
				if b == y[i][j] {
					ok++
				}
			}
		}
	}
	return float64(ok) / float64(n)
}

// Answer is what predicting returns in an accuracy mode.
func Answer(mode int, p M) M {
	switch mode {
	case AccCat:
		o := Zeros(len(p), 1)
		for i := range p {
			o[i][0] = float64(ArgMax(p[i]))
		}
		return o
	case AccBin:
		return Map(p, func(v float64) float64 {
			if v >= 0.5 {
				return 1
			}
			return 0
		})
	}
	return p
}
