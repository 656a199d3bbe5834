package ref

import "math"

// D is a dual number with a vector of derivatives (forward-mode automatic
// differentiation): the derivative oracle. It knows nothing of backpropagation.
type D struct {
	V float64
	G []float64
}

func Cst(v float64) D { return D{V: v} }

func Var(v float64, i, n int) D { g := make([]float64, n); g[i] = 1; return D{v, g} }

func lin(v float64, a D, fa float64, b D, fb float64) D {
	if a.G == nil && b.G == nil {
		return D{V: v}
	}
	n := len(a.G)
	if n == 0 {
		n = len(b.G)
	}
	g := make([]float64, n)
	for i := range g {
		if a.G != nil && fa != 0 {
			g[i] += fa * a.G[i]
		}
		if b.G != nil && fb != 0 {
			g[i] += fb * b.G[i]
		}
	}
	return D{v, g}
}

func Add(a, b D) D { return lin(a.V+b.V, a, 1, b, 1) }
func Sub(a, b D) D { return lin(a.V-b.V, a, 1, b, -1) }
func Mul(a, b D) D { return lin(a.V*b.V, a, b.V, b, a.V) }
func Div(a, b D) D { return lin(a.V/b.V, a, 1/b.V, b, -a.V/(b.V*b.V)) }
func Exp(a D) D    { e := math.Exp(a.V); return lin(e, a, e, D{}, 0) }
func Log(a D) D    { return lin(math.Log(a.V), a, 1/a.V, D{}, 0) }
func Scale(a D, f float64) D {
	return lin(a.V*f, a, f, D{}, 0)
}

func ConstM(m M) [][]D {
	o := make([][]D, len(m))
	for i := range m {
		o[i] = make([]D, len(m[i]))
		for j := range m[i] {
			o[i][j] = Cst(m[i][j])
		}
	}
	return o
}

// VarM makes every entry a variable, numbered from *next on, of n variables.
func VarM(m M, next *int, n int) [][]D {
	o := make([][]D, len(m))
	for i := range m {
		o[i] = make([]D, len(m[i]))
		for j := range m[i] {
			o[i][j] = Var(m[i][j], *next, n)
			*next++
		}
	}
	return o
}

func ForwardD(l *Layer, x, w [][]D, b []D, mask M, kink int) [][]D {
	out := make([][]D, len(x))
	for i := range x {
		row := make([]D, l.Out)
		for j := range row {
			s := b[j]
			for k := 0; k < l.In; k++ {
				s = Add(s, Mul(x[i][k], w[k][j]))
			}
			row[j] = s
		}
		switch l.Kind {
		case Softmax:
			mx := row[0].V
			for _, v := range row {
				mx = math.Max(mx, v.V)
			}
			sum := Cst(0)
			for j := range row {
				row[j] = Exp(Sub(row[j], Cst(mx)))
				sum = Add(sum, row[j])
			}
			for j := range row {
				row[j] = Div(row[j], sum)
			}
		case Sigmoid:
			for j := range row {
				if row[j].V >= 0 {
					row[j] = Div(Cst(1), Add(Cst(1), Exp(Scale(row[j], -1))))
				} else {
					e := Exp(row[j])
					row[j] = Div(e, Add(Cst(1), e))
				}
			}
		case Hidden, Dropout, Leaky:
			f := 0.0
			if l.Kind == Leaky {
				f = l.Slope
			}
			for j := range row {
				if row[j].V < 0 || (row[j].V == 0 && kink == 0) {
					row[j] = Scale(row[j], f)
				}
				if mask != nil && l.Kind == Dropout {
					row[j] = Scale(row[j], mask[i][j])
				}
			}
		}
		out[i] = row
	}
	return out
}

// LossD is the batch loss without clipping (for predictions where it does not bite).
func LossD(kind int, p [][]D, y M) D {
	n, c := float64(len(p)), float64(len(p[0]))
	s := Cst(0)
	for i := range p {
		for j := range p[i] {
			t := Cst(0)
			switch kind {
			case MSE:
				d := Sub(p[i][j], Cst(y[i][j]))
				t = Scale(Mul(d, d), 1/(n*c))
			case MAE:
				d := Sub(p[i][j], Cst(y[i][j]))
				switch {
				case d.V < 0:
					d = Scale(d, -1)
				case d.V == 0:
					d = Cst(0)
				}
				t = Scale(d, 1/(n*c))
			case CE:
				if y[i][j] == 1 {
					t = Scale(Log(p[i][j]), -1/n)
				}
			case BCE:
				a := Scale(Log(p[i][j]), y[i][j])
				b := Scale(Log(Sub(Cst(1), p[i][j])), 1-y[i][j])
				t = Scale(Add(a, b), -1/(n*c))
			}
			s = Add(s, t)
		}
	}
	return s
}
