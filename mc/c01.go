package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() {
	checks["C01"] = c01
	checks["C02"] = c02
}

var floatAlphabet = []float64{nan, inf, -inf, 0, math.Copysign(0, -1), 1, -1, 0.5, -2.5, 3, 5e-324, -5e-324, math.MaxFloat64, -math.MaxFloat64, 1e-300, 1e300, 0.1, 1.0 / 3}

type binOp struct {
	name string
	impl func(a *nn.Matrix, b nn.Matrix) (nn.Matrix, error)
	f    func(x, y float64) float64
}

var binOps = []binOp{
	{"Add", func(a *nn.Matrix, b nn.Matrix) (nn.Matrix, error) { return a.Add(b) }, func(x, y float64) float64 { return x + y }},
	{"Sub", func(a *nn.Matrix, b nn.Matrix) (nn.Matrix, error) { return a.Sub(b) }, func(x, y float64) float64 { return x - y }},
}

type scOp struct {
	name string
	impl func(a *nn.Matrix, s float64) nn.Matrix
	f    func(x, s float64) float64
	tol  float64
}

var scOps = []scOp{
	{"AddScalar", func(a *nn.Matrix, s float64) nn.Matrix { return a.AddScalar(s) }, func(x, s float64) float64 { return x + s }, 0},
	{"MulScalar", func(a *nn.Matrix, s float64) nn.Matrix { return a.MulScalar(s) }, func(x, s float64) float64 { return x * s }, 0},
	{"PowScalar", func(a *nn.Matrix, s float64) nn.Matrix { return a.PowScalar(s) }, math.Pow, 1e-9},
	{"Neg", func(a *nn.Matrix, s float64) nn.Matrix { return a.Neg() }, func(x, s float64) float64 { return -x }, 0},
}

func scEq(got, want, tol float64) bool {
	if core.Same(got, want) {
		return true
	}
	return tol > 0 && math.Abs(got-want) <= tol*math.Abs(want)+1e-306
}

// fresh checks that res shares nothing with the operands and that its cells are independent.
func fresh(c *core.C, op string, res nn.Matrix, ops ...nn.Matrix) {
	before := make([]M, len(ops))
	for i := range ops {
		before[i] = val(ops[i])
	}
	n := 0.0
	for i := range res.M {
		for j := range res.M[i] {
			res.M[i][j] = 1e6 + n
			n++
		}
	}
	n = 0
	for i := range res.M {
		for j := range res.M[i] {
			if res.M[i][j] != 1e6+n {
				c.Failf("%s: cells of the result share storage", op)
			}
			n++
		}
	}
	for i := range ops {
		if !core.BitsM(ops[i].M, before[i]) {
			c.Failf("%s: writing into the result changes operand %d", op, i)
		}
	}
	keep := val(res)
	for i := range ops {
		scribble(ops[i])
	}
	if !core.BitsM(res.M, keep) {
		c.Failf("%s: writing into an operand changes the result", op)
	}
}

func checkBin(c *core.C, op binOp, a, b M) {
	A, B := mat(a), mat(b)
	r, err := op.impl(&A, B)
	c.Step(1)
	noErr(c, op.name, err)
	wantSame(c, op.name, r, ref.Map2(a, b, op.f))
	untouched(c, op.name+": left operand", A, a)
	untouched(c, op.name+": right operand", B, b)
	fresh(c, op.name, r, A, B)
}

func checkSc(c *core.C, op scOp, a M, s float64) {
	A := mat(a)
	r := op.impl(&A, s)
	c.Step(1)
	if !shapeOK(r, len(a), len(a[0])) {
		c.Failf("%s(%v): result shape %dx%d, want %dx%d", op.name, s, r.Rows, r.Cols, len(a), len(a[0]))
	}
	for i := range a {
		for j := range a[i] {
			if w := op.f(a[i][j], s); !scEq(r.M[i][j], w, op.tol) {
				c.Failf("%s(%v) of %v is %v, want %v", op.name, s, a[i][j], r.M[i][j], w)
			}
		}
	}
	untouched(c, op.name+": operand", A, a)
	fresh(c, op.name, r, A)
}

func checkDot(c *core.C, a, b M) {
	A, B := mat(a), mat(b)
	r, err := A.Dot(B)
	c.Step(1)
	noErr(c, "Dot", err)
	w, s := ref.Dot(a, b)
	wantRel(c, "Dot", r, w, s, 1e-12)
	untouched(c, "Dot: left operand", A, a)
	untouched(c, "Dot: right operand", B, b)
	fresh(c, "Dot", r, A, B)
}

func sums(a M, axis int) (o, s M) {
	if axis == 0 {
		o, s = ref.Zeros(1, len(a[0])), ref.Zeros(1, len(a[0]))
		for i := range a {
			for j := range a[i] {
				o[0][j] += a[i][j]
				s[0][j] += math.Abs(a[i][j])
			}
		}
		return
	}
	o, s = ref.Zeros(1, len(a)), ref.Zeros(1, len(a))
	for i := range a {
		for j := range a[i] {
			o[0][i] += a[i][j]
			s[0][i] += math.Abs(a[i][j])
		}
	}
	return
}

func checkUn(c *core.C, a M) {
	A := mat(a)
	t := A.T()
	wantSame(c, "T", t, ref.T(a))
	untouched(c, "T: operand", A, a)
	fresh(c, "T", t, A)
	for axis := 0; axis < 2; axis++ {
		A = mat(a)
		r := A.Sum(axis)
		w, s := sums(a, axis)
		wantRel(c, fmt.Sprintf("Sum(%d)", axis), r, w, s, 1e-12)
		untouched(c, "Sum: operand", A, a)
		fresh(c, "Sum", r, A)
	}
	c.Step(3)
}

func eqWant(a, b M) bool {
	if len(a) != len(b) || len(a[0]) != len(b[0]) {
		return false
	}
	for i := range a {
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

func checkEq(c *core.C, a, b M) {
	A, B := mat(a), mat(b)
	c.Step(1)
	if g, w := A.Equals(B), eqWant(a, b); g != w {
		c.Failf("Equals(%s, %s) is %v, want %v", str(a), str(b), g, w)
	}
	untouched(c, "Equals: left operand", A, a)
	untouched(c, "Equals: right operand", B, b)
}

func c01(r *core.Run) {
	r.Rule = "cases: every operation on every tuple of cell values of a special-value alphabet (small shapes), on every shape of a grid and every size of a sweep (generic distinct values), and every sequence of operations over two or three registers up to a depth; states are distinct operand contents (value cases) and register contents (sequences)"
	r.Assume("dot products and sums are compared up to 1e-12 of the sum of absolute terms; finite operands near overflow are excluded for those (rounding order)")
	A := floatAlphabet
	// 1. all value pairs, 1x1 and inside a larger matrix
	for _, op := range binOps {
		op := op
		for i := range A {
			for j := range A {
				a, b := A[i], A[j]
				r.Case("value pairs "+op.name, func() string { return fmt.Sprintf("%v %s %v", a, op.name, b) }, func(c *core.C) {
					c.State(core.HashF(1, a, b))
					checkBin(c, op, M{{a}}, M{{b}})
					for k := 0; k < 4; k++ {
						x, y := genM(2, 2, 1), genM(2, 2, 2)
						x[k/2][k%2], y[k/2][k%2] = a, b
						checkBin(c, op, x, y)
					}
				})
			}
		}
	}
	S := append([]float64{2, -2, 10, 1e-7}, A...)
	for _, op := range scOps {
		op := op
		for i := range A {
			for j := range S {
				a, s := A[i], S[j]
				r.Case("scalar "+op.name, func() string { return fmt.Sprintf("%v %s %v", a, op.name, s) }, func(c *core.C) {
					c.State(core.HashF(2, a, s))
					checkSc(c, op, M{{a}}, s)
					checkSc(c, op, M{{0.5, a, -1}, {a, 2, a}}, s)
				})
			}
		}
	}
	// powers whose intermediate values are near the ends of the range
	for _, a := range []float64{1e-154, -3e-154, 1e-140, 1e-100, 1e-76, -1e-50, 1e50, 1e76, -1e100, 1e140, 1e153, -1e154} {
		for _, s := range []float64{2, -2, 3, -3, 0.5, -0.5, 1, -1, 4, -4, 1.5, -1.5, 1.0 / 3, 0} {
			a, s := a, s
			r.Case("scalar PowScalar", func() string { return fmt.Sprintf("%v PowScalar %v", a, s) }, func(c *core.C) {
				c.State(core.HashF(2, a, s))
				checkSc(c, scOps[2], M{{a}}, s)
				checkSc(c, scOps[2], M{{0.5, a, -1}, {a, 2, a}}, s)
			})
		}
	}
	// large and fractional exponents of bases near 1
	for _, a := range []float64{1.01, 0.99, 1.0001, -1.01, 1.5, 0.5, 2, 1 + 1e-9} {
		for _, s := range []float64{10.5, 17, 31, 32, 33.5, 63, 64, 65, 99.5, 100, 100.5, 127, 128, 129.25, 255, 256, 257.5, 1000, 1000.5, 1001, 32768, 65537, 1e5 + 0.5, 1e6 + 1} {
			for _, sign := range []float64{1, -1} {
				a, s := a, s*sign
				r.Case("scalar PowScalar", func() string { return fmt.Sprintf("%v PowScalar %v", a, s) }, func(c *core.C) {
					c.State(core.HashF(2, a, s))
					checkSc(c, scOps[2], M{{a}}, s)
					checkSc(c, scOps[2], M{{0.5, a, -1}, {a, 2, a}}, s)
				})
			}
		}
	}
	// sums and transposition of all tuples over a reduced alphabet
	B := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 3, nan, inf, -inf, 5e-324, 1e100, -1e100}
	for n := 1; n <= 3; n++ {
		d := make([]int, n)
		for i := range d {
			d[i] = len(B)
		}
		product(d, func(ix []int) {
			row := make([]float64, n)
			for k, v := range ix {
				row[k] = B[v]
			}
			r.Case("row/column tuples", func() string { return fmt.Sprint(row) }, func(c *core.C) {
				c.State(core.HashF(3, row...))
				checkUn(c, M{row})
				checkUn(c, ref.T(M{row}))
			})
		})
	}
	// dot: 1x1.1x1, 1x2.2x1 over the reduced alphabet, 2x2.2x2 over a small one
	D := []float64{0, 1, -1, 0.5, 3, nan, inf, -inf, 1e100}
	product([]int{len(D), len(D), len(D), len(D)}, func(ix []int) {
		a, b := M{{D[ix[0]], D[ix[1]]}}, M{{D[ix[2]]}, {D[ix[3]]}}
		r.Case("dot 1x2.2x1", func() string { return str(a) + "." + str(b) }, func(c *core.C) {
			c.State(core.HashM(core.HashM(4, a), b))
			checkDot(c, a, b)
			checkDot(c, ref.T(a), ref.T(b))
		})
	})
	E := []float64{0, 1, -2}
	product([]int{3, 3, 3, 3, 3, 3, 3, 3}, func(ix []int) {
		a, b := M{{E[ix[0]], E[ix[1]]}, {E[ix[2]], E[ix[3]]}}, M{{E[ix[4]], E[ix[5]]}, {E[ix[6]], E[ix[7]]}}
		r.Case("dot 2x2.2x2", func() string { return str(a) + "." + str(b) }, func(c *core.C) {
			c.State(core.HashM(core.HashM(5, a), b))
			checkDot(c, a, b)
		})
	})
	// equality: all pairs of cells; all shapes; single differences everywhere
	for i := range A {
		for j := range A {
			a, b := A[i], A[j]
			r.Case("equality values", func() string { return fmt.Sprint(a, b) }, func(c *core.C) {
				c.State(core.HashF(6, a, b))
				checkEq(c, M{{a}}, M{{b}})
				checkEq(c, M{{1, a}, {2, 3}}, M{{1, b}, {2, 3}})
				checkEq(c, M{{1, 7}, {2, a}}, M{{1, 7}, {2, b}})
			})
		}
	}
	for _, p := range shapes(4) {
		for _, q := range shapes(4) {
			p, q := p, q
			r.Case("equality shapes", func() string { return fmt.Sprint(p, q) }, func(c *core.C) {
				c.State(core.Hash("eqs", p, q))
				checkEq(c, genM(p[0], p[1], 1), genM(q[0], q[1], 1))
				z := ref.Zeros(q[0], q[1])
				checkEq(c, ref.Zeros(p[0], p[1]), z)
			})
		}
		p := p
		for k := 0; k < p[0]*p[1]; k++ {
			k := k
			for _, d := range []float64{1, 1e-12, -1e-16} {
				d := d
				r.Case("equality single difference", func() string { return fmt.Sprint(p, k, d) }, func(c *core.C) {
					c.State(core.Hash("eqd", p, k, d))
					a, b := genM(p[0], p[1], 1), genM(p[0], p[1], 1)
					b[k/p[1]][k%p[1]] += d
					checkEq(c, a, b)
					checkEq(c, b, a)
				})
			}
		}
	}
	// 2. shapes
	n := pick(r.Thorough, 12, 6)
	for i := 1; i <= n; i++ {
		for j := 1; j <= n; j++ {
			i, j := i, j
			r.Case("shapes elementwise", func() string { return fmt.Sprintf("%dx%d", i, j) }, func(c *core.C) {
				c.State(core.Hash("shape", i, j))
				elementwiseAll(c, i, j)
			})
			for k := 1; k <= n; k++ {
				k := k
				r.Case("shapes dot", func() string { return fmt.Sprintf("%dx%d.%dx%d", i, j, j, k) }, func(c *core.C) {
					c.State(core.Hash("dot", i, j, k))
					checkDot(c, genM(i, j, i), genM(j, k, k+9))
				})
			}
		}
	}
	sweep := sizesUpTo(pick(r.Thorough, 260, 70), 95, 96, 97, 100, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097)
	small := pick(r.Max, []int{1, 2, 3, 5, 17, 33}, pick(r.Thorough, []int{1, 2, 3, 17}, []int{1, 3}))
	for _, s := range sweep {
		for _, t := range small {
			s, t := s, t
			r.Case("size sweep", func() string { return fmt.Sprintf("%d with %d", s, t) }, func(c *core.C) {
				c.State(core.Hash("sweep", s, t))
				elementwiseAll(c, s, t)
				elementwiseAll(c, t, s)
				checkDot(c, genM(s, t, 1), genM(t, 2, 2))
				checkDot(c, genM(t, s, 1), genM(s, t, 2))
				checkDot(c, genM(2, t, 1), genM(t, s, 2))
			})
		}
	}
	for _, s := range append(append([]int{}, sweep...), huge...) {
		for _, t := range []int{1, 3} {
			s, t := s, t
			r.Case("equality at any size", func() string { return fmt.Sprintf("%d with %d", s, t) }, func(c *core.C) {
				c.State(core.Hash("eq", s, t))
				c.Trace()
				equalSizes(c, s, t)
				equalSizes(c, t, s)
			})
		}
	}
	for _, s := range huge {
		for _, t := range []int{1, 2} {
			s, t := s, t
			r.Case("very large", func() string { return fmt.Sprintf("%d with %d", s, t) }, func(c *core.C) {
				c.State(core.Hash("huge", s, t))
				elementwiseAll(c, s, t)
				elementwiseAll(c, t, s)
				checkDot(c, genM(s, t, 1), genM(t, 2, 2))
				checkDot(c, genM(t, s, 1), genM(s, t, 2))
				checkDot(c, genM(2, t, 1), genM(t, s, 2))
			})
		}
	}
	big := pick(r.Thorough, []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200}, []int{16, 17, 32, 33, 64, 65, 130})
	product([]int{len(big), len(big), len(big)}, func(ix []int) {
		i, j, k := big[ix[0]], big[ix[1]], big[ix[2]]
		r.Case("large dot", func() string { return fmt.Sprintf("%dx%d.%dx%d", i, j, j, k) }, func(c *core.C) {
			c.State(core.Hash("ldot", i, j, k))
			checkDot(c, genM(i, j, 1), genM(j, k, 2))
		})
	})
	for _, i := range big {
		for _, j := range big {
			i, j := i, j
			r.Case("large elementwise", func() string { return fmt.Sprintf("%dx%d", i, j) }, func(c *core.C) {
				c.State(core.Hash("lel", i, j))
				elementwiseAll(c, i, j)
			})
		}
	}
	structured01(r)
	// 3. sequences over registers
	regSeq(r, 2, pick(r.Thorough, 3, 3), 2)
	if r.Thorough {
		regSeq(r, 3, 3, 2)
		regSeq(r, 2, 4, 1)
	}
}

// structured01: every pair of structured matrices through every operation,
// operands that are the same matrix or share rows, and a dense grid of exponents.
func structured01(r *core.Run) {
	all := everyPat()
	for _, s := range [][3]int{{1, 1, 1}, {2, 2, 2}, {2, 3, 2}, {3, 2, 4}, {3, 3, 3}, {1, 4, 3}, {5, 1, 5}} {
		s := s
		product([]int{len(all), len(all)}, func(ix []int) {
			p, q := ix[0], ix[1]
			r.Case("structured pairs", func() string { return fmt.Sprintf("%v %s with %s", s, patNames[p], patNames[q]) }, func(c *core.C) {
				c.State(core.Hash("sp", s, p, q))
				a, b := pattern(p, s[0], s[1], 1), pattern(q, s[0], s[1], 1)
				for _, op := range binOps {
					checkBin(c, op, a, b)
				}
				checkEq(c, a, b)
				checkDot(c, a, pattern(q, s[1], s[2], 1))
				if q == 0 {
					checkUn(c, a)
				}
			})
		})
	}
	exps := []float64{0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 4, 1.5, 0.25, 1.0 / 3, 10, 1e-3, 100, -100, 1e-9, 1e9, 63, 64, 65, 1 + 1e-9, 2 - 1e-12, 1e-300, 1e300, inf, -inf, nan, math.Copysign(0, -1)}
	for p := range all {
		for _, x := range exps {
			p, x := p, x
			r.Case("structured scalars", func() string { return fmt.Sprintf("%s with %v", patNames[p], x) }, func(c *core.C) {
				c.State(core.HashF(uint64(p)+500, x))
				for _, sh := range [][2]int{{1, 1}, {2, 3}, {4, 4}} {
					for _, op := range scOps {
						checkSc(c, op, pattern(p, sh[0], sh[1], 2), x)
					}
				}
			})
		}
		p := p
		r.Case("operand with itself", func() string { return patNames[p] }, func(c *core.C) {
			for n := 1; n <= 4; n++ {
				c.State(core.Hash("self", p, n))
				a := pattern(p, n, n, 3)
				for _, op := range binOps {
					A := mat(a)
					o, err := op.impl(&A, A)
					c.Step(1)
					noErr(c, op.name, err)
					wantSame(c, op.name+" with itself", o, ref.Map2(a, a, op.f))
					untouched(c, "operand", A, a)
					fresh(c, op.name, o, A)
				}
				A := mat(a)
				o, err := A.Dot(A)
				c.Step(1)
				noErr(c, "Dot", err)
				w, sc := ref.Dot(a, a)
				wantRel(c, "Dot with itself", o, w, sc, 1e-12)
				untouched(c, "operand", A, a)
				fresh(c, "Dot", o, A)
				if !A.Equals(A) && eqWant(a, a) {
					c.Failf("a matrix does not equal itself")
				}
				for _, x := range floatAlphabet {
					a := pattern(p, n, n, 3)
					a[n-1][n/2] = x
					A := mat(a)
					for _, op := range binOps {
						o, err := op.impl(&A, A)
						noErr(c, op.name, err)
						wantSame(c, op.name+" with itself", o, ref.Map2(a, a, op.f))
					}
					if A.Equals(A) != eqWant(a, a) {
						c.Failf("%s equals itself: %v, want %v", str(a), A.Equals(A), eqWant(a, a))
					}
					c.Step(3)
				}
			}
		})
		r.Case("rows that are one slice", func() string { return patNames[p] }, func(c *core.C) {
			for n := 1; n <= 3; n++ {
				c.State(core.Hash("shared", p, n))
				row := pattern(p, 1, n, 3)[0]
				var rows, a M
				for i := 0; i < n; i++ {
					rows, a = append(rows, row), append(a, append([]float64{}, row...))
				}
				A, err := nn.NewMatrixFromSlice(rows)
				noErr(c, "NewMatrixFromSlice", err)
				for _, op := range binOps {
					o, err := op.impl(&A, A)
					noErr(c, op.name, err)
					wantSame(c, op.name, o, ref.Map2(a, a, op.f))
				}
				for _, op := range scOps {
					o := op.impl(&A, 2)
					want := ref.Map(a, func(x float64) float64 { return op.f(x, 2) })
					wantRel(c, op.name, o, want, ref.Map(want, math.Abs), 1e-9)
				}
				o, err := A.Dot(A)
				noErr(c, "Dot", err)
				w, sc := ref.Dot(a, a)
				wantRel(c, "Dot", o, w, sc, 1e-12)
				wantSame(c, "T", A.T(), ref.T(a))
				untouched(c, "operand", A, a)
				c.Step(8)
			}
		})
	}
	// long histories: an operation does not depend on how often it was used before
	for i := 1; i <= pick(r.Max, 90, pick(r.Thorough, 40, 20)); i++ {
		for j := 1; j <= pick(r.Max, 90, pick(r.Thorough, 40, 20)); j++ {
			i, j := i, j
			r.Case("results of one size", func() string { return fmt.Sprintf("%dx%d", i, j) }, func(c *core.C) { ownStorage(c, i, j) })
		}
	}
	for _, n := range sweepSizes(r.Thorough) {
		for _, k := range []int{1, 3, n} {
			n, k := n, k
			if k == n && n > 130 {
				continue
			}
			r.Case("results of one size", func() string { return fmt.Sprintf("%dx%d", n, k) }, func(c *core.C) { ownStorage(c, n, k); ownStorage(c, k, n) })
		}
	}
	for _, n := range huge {
		n := n
		r.Case("results of one size", func() string { return fmt.Sprint("1 x ", n) }, func(c *core.C) { ownStorage(c, n, 1); ownStorage(c, 1, n) })
	}
	r.Case("long history", func() string { return "every operation over and over" }, func(c *core.C) {
		c.Trace()
		for t := 0; t < pick(r.Max, 40000, pick(r.Thorough, 5000, 600)); t++ {
			c.State(core.Hash("long", t))
			i, j := 1+t%3, 1+(t/3)%3
			elementwiseAll(c, i, j)
			checkDot(c, genM(i, j, t), genM(j, 1+t%4, t+1))
		}
	})
}

func shapes(n int) [][2]int {
	var o [][2]int
	for i := 1; i <= n; i++ {
		for j := 1; j <= n; j++ {
			o = append(o, [2]int{i, j})
		}
	}
	return o
}

func elementwiseAll(c *core.C, i, j int) {
	a, b := genM(i, j, 3), genM(i, j, 8)
	for _, op := range binOps {
		checkBin(c, op, a, b)
	}
	for _, op := range scOps {
		s := 3.0
		checkSc(c, op, a, s)
	}
	checkUn(c, a)
	checkEq(c, a, a)
}

// regOp is one operation of a sequence: reg[dst] = op(reg[x], reg[y]).
type regOp struct {
	op, dst, x, y int
}

var regNames = []string{"Add", "Sub", "Dot", "Neg", "AddScalar(0)", "MulScalar(1)", "MulScalar(2)", "PowScalar(1)", "T", "Set"}

func (o regOp) String() string {
	return fmt.Sprintf("r%d=%s(r%d,r%d)", o.dst, regNames[o.op], o.x, o.y)
}

func regOps(regs int) []regOp {
	var o []regOp
	for op := range regNames {
		for d := 0; d < regs; d++ {
			if op == 9 {
				o = append(o, regOp{op, d, d, d})
				continue
			}
			for x := 0; x < regs; x++ {
				if op > 2 {
					o = append(o, regOp{op, d, x, x})
					continue
				}
				for y := 0; y < regs; y++ {
					o = append(o, regOp{op, d, x, y})
				}
			}
		}
	}
	return o
}

// regSeq runs every sequence of operations over the registers. All results
// ever produced stay under observation, so hidden sharing shows.
func regSeq(r *core.Run, regs, depth, size int) {
	ops := regOps(regs)
	words(len(ops), 1, depth, func(w []int) {
		if len(w) < depth && depth > 1 {
			return // prefixes are checked on the way
		}
		w = cp(w)
		r.Case(fmt.Sprintf("sequences of %d over %d registers", depth, regs), func() string {
			var s []regOp
			for _, k := range w {
				s = append(s, ops[k])
			}
			return fmt.Sprint(s)
		}, func(c *core.C) {
			c.Trace()
			type obs struct {
				m nn.Matrix
				v M
			}
			var all []*obs
			reg := make([]*obs, regs)
			for i := range reg {
				v := ref.Zeros(size, size)
				for k := 0; k < size*size; k++ {
					v[k/size][k%size] = float64(i*4 + k + 1)
				}
				reg[i] = &obs{mat(v), v}
				all = append(all, reg[i])
			}
			for step, k := range w {
				o := ops[k]
				x, y := reg[o.x], reg[o.y]
				var m nn.Matrix
				var v M
				var err error
				switch o.op {
				case 0:
					m, err = x.m.Add(y.m)
					v = ref.Map2(x.v, y.v, func(a, b float64) float64 { return a + b })
				case 1:
					m, err = x.m.Sub(y.m)
					v = ref.Map2(x.v, y.v, func(a, b float64) float64 { return a - b })
				case 2:
					m, err = x.m.Dot(y.m)
					v, _ = ref.Dot(x.v, y.v)
				case 3:
					m, v = x.m.Neg(), ref.Map(x.v, func(a float64) float64 { return -a })
				case 4:
					m, v = x.m.AddScalar(0), core.CopyM(x.v)
				case 5:
					m, v = x.m.MulScalar(1), core.CopyM(x.v)
				case 6:
					m, v = x.m.MulScalar(2), ref.Map(x.v, func(a float64) float64 { return 2 * a })
				case 7:
					m, v = x.m.PowScalar(1), core.CopyM(x.v)
				case 8:
					m, v = x.m.T(), ref.T(x.v)
				case 9:
					err = x.m.Set(0, size-1, 50+float64(step))
					x.v[0][size-1] = 50 + float64(step)
					m, v = x.m, x.v
				}
				c.Step(1)
				noErr(c, o.String(), err)
				if o.op != 9 {
					n := &obs{m, v}
					reg[o.dst] = n
					all = append(all, n)
				}
				h := uint64(7)
				for _, a := range all {
					// integers of moderate size: exact
					if !shapeOK(a.m, size, size) || !core.SameM(a.m.M, a.v) {
						c.Failf("after step %d (%v): a matrix made or used earlier reads %s, want %s", step, o, str(a.m.M), str(a.v))
					}
				}
				for _, a := range reg {
					h = core.HashM(h, a.v)
				}
				c.State(h)
			}
		})
	})
}

// ---- C02 ----

type accOp struct {
	kind int // 0 Get 1 Set 2 GetRow 3 GetColumn 4 SetRow 5 SetColumn 6 SetRow(GetRow) 7 SetColumn(GetColumn)
	i, j int
	n    int // slice length, -1 for nil
}

var accName = []string{"Get", "Set", "GetRow", "GetColumn", "SetRow", "SetColumn", "SetRow(GetRow)", "SetColumn(GetColumn)"}

func (o accOp) String() string {
	return fmt.Sprintf("%s(%d,%d;len %d)", accName[o.kind], o.i, o.j, o.n)
}

func c02(r *core.Run) {
	r.Rule = "cases: every history of cell/row/column reads and writes up to a depth over every small shape, each operation with every in-range and a set of out-of-range indices and slice lengths, checked after every step against a plain 2-D array; states are distinct array contents"
	sh := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 3}, {3, 1}}
	depth := pick(r.Thorough, 4, 3)
	for _, s := range sh {
		// (a) depth-1 and depth-2 with all wild indices
		ops := accOps(s[0], s[1], true)
		accRun(r, "wild", s, ops, 2)
		// (b) deeper with in-range indices plus one invalid one of each kind
		ops = accOps(s[0], s[1], false)
		d := depth
		if len(ops) > 26 && !r.Thorough {
			d = 3
		}
		if n := len(ops); r.Thorough && n*n*n*n > 3000000 {
			d = 3
		}
		accRun(r, "in range", s, ops, d)
	}
	// larger shapes, each position once
	for _, s := range [][2]int{{5, 7}, {7, 5}, {1, 64}, {64, 1}, {33, 17}, {130, 3}, {3, 130}, {300, 2}} {
		s := s
		r.Case("larger shapes", func() string { return fmt.Sprint(s) }, func(c *core.C) { accLarge(c, s[0], s[1]) })
	}
	for _, n := range huge {
		for _, k := range []int{1, 2} {
			n, k := n, k
			r.Case("very large", func() string { return fmt.Sprint(n, k) }, func(c *core.C) { accHuge(c, n, k); accHuge(c, k, n) })
		}
	}
	// every size: cells, rows and columns hold what was written, and the caller's
	// slices stay the caller's
	for _, n := range sweepSizes(r.Thorough) {
		for _, k := range []int{1, 2, 5} {
			n, k := n, k
			r.Case("sizes", func() string { return fmt.Sprint(n, k) }, func(c *core.C) {
				c.State(core.Hash("acc", n, k))
				accSpecial(c, n, k, genM(n, k, 3))
				accSpecial(c, k, n, genM(k, n, 3))
				accLarge(c, n, k)
				accLarge(c, k, n)
				if k == 1 && n <= 70 {
					accSpecial(c, n, n, genM(n, n, 3))
				}
			})
		}
		// one row of another length, anywhere
		n := n
		r.Case("NewMatrixFromSlice sizes", func() string { return fmt.Sprintf("%d rows", n) }, func(c *core.C) {
			c.State(core.Hash("ragged", n))
			for _, cols := range []int{1, 2, 5, 64} {
				good := genM(n, cols, 6)
				m, err := nn.NewMatrixFromSlice(core.CopyM(good))
				noErr(c, "NewMatrixFromSlice", err)
				wantSame(c, "NewMatrixFromSlice", m, good)
				for k := 0; k < n && n > 1; k++ {
					if n > 70 && k > 1 && k < n-2 && k != n/2 && k%64 > 1 {
						continue
					}
					for _, l := range []int{cols - 1, cols + 1, 2 * cols, 0} {
						b := append(M{}, good...)
						b[k] = make([]float64, l)
						if _, err := nn.NewMatrixFromSlice(b); err == nil {
							c.Failf("NewMatrixFromSlice took %d rows of %d entries of which row %d has %d", n, cols, k, l)
						}
						c.Step(1)
					}
				}
			}
		})
	}
	// values of every kind survive, wherever and however they are written
	for _, s := range [][2]int{{1, 1}, {2, 3}, {3, 2}, {4, 4}} {
		for k := range patNames {
			s, k := s, k
			r.Case("special values", func() string { return fmt.Sprint(s, " ", patNames[k]) }, func(c *core.C) {
				c.State(core.Hash("spec", s, k))
				accSpecial(c, s[0], s[1], pattern(k, s[0], s[1], 3))
			})
		}
		for k := range floatAlphabet {
			s, k := s, k
			r.Case("special values", func() string { return fmt.Sprint(s, " ", floatAlphabet[k]) }, func(c *core.C) {
				c.State(core.Hash("spec1", s, k))
				v := genM(s[0], s[1], 3)
				for q := 0; q < s[0]*s[1]; q++ {
					v[q/s[1]][q%s[1]] = floatAlphabet[(k+q/2)%len(floatAlphabet)]
				}
				accSpecial(c, s[0], s[1], v)
			})
		}
	}
	// constructors
	dims := []int{math.MinInt, -3, -1, 0, 1, 2, 3, 7, 64, 257}
	for _, a := range dims {
		for _, b := range dims {
			a, b := a, b
			r.Case("NewMatrix", func() string { return fmt.Sprint(a, b) }, func(c *core.C) {
				c.State(core.Hash("new", a, b))
				c.Step(1)
				m, err := nn.NewMatrix(a, b)
				if (err == nil) != (a >= 1 && b >= 1) {
					c.Failf("NewMatrix(%d,%d): error %v", a, b, err)
				}
				if err == nil {
					wantSame(c, "NewMatrix", m, ref.Zeros(a, b))
					m2, _ := nn.NewMatrix(a, b)
					fresh(c, "NewMatrix", m, m2)
				}
			})
		}
	}
	// ragged slices: all row-length patterns
	words(5, 0, pick(r.Max, 6, pick(r.Thorough, 5, 4)), func(w []int) {
		w = cp(w)
		r.Case("NewMatrixFromSlice", func() string { return fmt.Sprintf("row lengths (4 is nil) %v", w) }, func(c *core.C) {
			c.State(core.Hash("slice", w))
			c.Step(1)
			var s M
			good := len(w) > 0
			for i, n := range w {
				if n == 4 {
					s = append(s, nil)
					n = 0
				} else {
					s = append(s, append([]float64{}, genM(1, 4, i)[0][:n]...))
				}
				if n == 0 || len(s[i]) != len(s[0]) {
					good = false
				}
			}
			want := core.CopyM(s)
			m, err := nn.NewMatrixFromSlice(s)
			if (err == nil) != good {
				c.Failf("NewMatrixFromSlice with row lengths %v: error %v", w, err)
			}
			if good {
				wantSame(c, "NewMatrixFromSlice", m, want)
				for i := range want {
					for j := range want[i] {
						if v, err := m.Get(i, j); err != nil || v != want[i][j] {
							c.Failf("Get(%d,%d) = %v, %v, want %v", i, j, v, err, want[i][j])
						}
					}
				}
			}
		})
	})
}

func accOps(rows, cols int, wild bool) []accOp {
	idx := func(n int) []int {
		var o []int
		for i := 0; i < n; i++ {
			o = append(o, i)
		}
		if wild {
			return append(o, -1, -2, n, n+1, math.MaxInt, math.MinInt)
		}
		return append(o, -1, n)
	}
	lens := func(n int) []int {
		if wild {
			return []int{n, n - 1, n + 1, -1}
		}
		return []int{n, n + 1}
	}
	var o []accOp
	for _, i := range idx(rows) {
		for _, j := range idx(cols) {
			o = append(o, accOp{0, i, j, 0})
			if !wild && (i < 0 || i >= rows) && (j < 0 || j >= cols) {
				continue
			}
			o = append(o, accOp{1, i, j, 0})
		}
	}
	if !wild { // reads are checked after every step anyway
		var p []accOp
		for _, x := range o {
			if x.kind == 1 {
				p = append(p, x)
			}
		}
		o = p
	}
	for _, i := range idx(rows) {
		o = append(o, accOp{2, i, 0, 0})
		for _, n := range lens(cols) {
			o = append(o, accOp{4, i, 0, n})
		}
	}
	for _, j := range idx(cols) {
		o = append(o, accOp{3, 0, j, 0})
		for _, n := range lens(rows) {
			o = append(o, accOp{5, 0, j, n})
		}
	}
	for i := 0; i < rows; i++ {
		for k := 0; k < rows; k++ {
			if i != k {
				o = append(o, accOp{6, i, k, 0})
			}
		}
	}
	for i := 0; i < cols; i++ {
		for k := 0; k < cols; k++ {
			if i != k {
				o = append(o, accOp{7, i, k, 0})
			}
		}
	}
	return o
}

func accRun(r *core.Run, group string, s [2]int, ops []accOp, depth int) {
	words(len(ops), depth, depth, func(w []int) {
		w = cp(w)
		r.Case(group+fmt.Sprintf(" histories of %d", depth), func() string {
			var l []accOp
			for _, k := range w {
				l = append(l, ops[k])
			}
			return fmt.Sprintf("%dx%d: %v", s[0], s[1], l)
		}, func(c *core.C) {
			c.Trace()
			v := genM(s[0], s[1], 5)
			m := mat(v)
			accCheckShape(c, m, v)
			for step, k := range w {
				accStep(c, &m, v, ops[k], step)
				c.Step(1)
				if !shapeOK(m, s[0], s[1]) || !core.SameM(m.M, v) {
					c.Failf("after step %d (%v) the matrix is %s, want %s", step, ops[k], str(m.M), str(v))
				}
				c.State(core.HashM(11, v))
			}
			accCheckShape(c, m, v)
		})
	})
}

// accCheckShape reads the whole matrix back through Get.
func accCheckShape(c *core.C, m nn.Matrix, v M) {
	for i := range v {
		for j := range v[i] {
			if x, err := m.Get(i, j); err != nil || !core.Same(x, v[i][j]) {
				c.Failf("Get(%d,%d) = %v, %v, want %v", i, j, x, err, v[i][j])
			}
		}
	}
}

func accStep(c *core.C, m *nn.Matrix, v M, o accOp, step int) {
	rows, cols := len(v), len(v[0])
	rOK, cOK := o.i >= 0 && o.i < rows, o.j >= 0 && o.j < cols
	expect := func(err error, ok bool) {
		if (err == nil) != ok {
			c.Failf("%v on %dx%d: error is %v, want success %v", o, rows, cols, err, ok)
		}
	}
	mk := func(n int) []float64 {
		if n < 0 {
			return nil
		}
		s := make([]float64, n)
		for k := range s {
			s[k] = float64(100*step + k + 10)
		}
		return s
	}
	switch o.kind {
	case 0:
		x, err := m.Get(o.i, o.j)
		expect(err, rOK && cOK)
		if err == nil && !core.Same(x, v[o.i][o.j]) {
			c.Failf("%v = %v, want %v", o, x, v[o.i][o.j])
		}
	case 1:
		err := m.Set(o.i, o.j, float64(step)+1000)
		expect(err, rOK && cOK)
		if err == nil {
			v[o.i][o.j] = float64(step) + 1000
		}
	case 2:
		x, err := m.GetRow(o.i)
		expect(err, rOK)
		if err == nil && !core.SameM(M{x}, M{v[o.i]}) {
			c.Failf("%v = %v, want %v", o, x, v[o.i])
		}
	case 3:
		x, err := m.GetColumn(o.j)
		expect(err, cOK)
		if err == nil {
			if !core.SameM(M{x}, M{ref.T(v)[o.j]}) {
				c.Failf("%v = %v, want column %d of %s", o, x, o.j, str(v))
			}
		}
	case 4:
		s := mk(o.n)
		err := m.SetRow(o.i, s)
		expect(err, rOK && len(s) == cols)
		if err == nil {
			copy(v[o.i], s)
		}
	case 5:
		s := mk(o.n)
		err := m.SetColumn(o.j, s)
		expect(err, cOK && len(s) == rows)
		if err == nil {
			for k := range s {
				v[k][o.j] = s[k]
			}
		}
	case 6:
		x, err := m.GetRow(o.j)
		noErr(c, "GetRow", err)
		noErr(c, "SetRow", m.SetRow(o.i, x))
		copy(v[o.i], v[o.j])
	case 7:
		x, err := m.GetColumn(o.j)
		noErr(c, "GetColumn", err)
		noErr(c, "SetColumn", m.SetColumn(o.i, x))
		for k := range v {
			v[k][o.i] = v[k][o.j]
		}
	}
}

// accSpecial fills a matrix with v cell by cell, row by row and column by
// column; slices handed in are reused afterwards, as a caller may.
func accSpecial(c *core.C, rows, cols int, v M) {
	for way := 0; way < 3; way++ {
		c.Trace()
		m := mat(genM(rows, cols, 9))
		buf := make([]float64, rows+cols)
		switch way {
		case 0:
			for i := range v {
				for j := range v[i] {
					noErr(c, "Set", m.Set(i, j, v[i][j]))
				}
			}
		case 1:
			for i := range v {
				b := buf[:cols]
				copy(b, v[i])
				noErr(c, "SetRow", m.SetRow(i, b))
			}
		case 2:
			for j := 0; j < cols; j++ {
				b := buf[:rows]
				for i := range v {
					b[i] = v[i][j]
				}
				noErr(c, "SetColumn", m.SetColumn(j, b))
			}
		}
		for i := range buf {
			buf[i] = 12345
		}
		c.Step(rows * cols)
		untouched(c, []string{"after Set of every cell: matrix", "after SetRow of every row: matrix", "after SetColumn of every column: matrix"}[way], m, v)
		for i := range v {
			row, err := m.GetRow(i)
			noErr(c, "GetRow", err)
			if !core.BitsM(M{row}, M{v[i]}) {
				c.Failf("GetRow(%d) = %v, want %v", i, row, v[i])
			}
			for j := range v[i] {
				x, err := m.Get(i, j)
				noErr(c, "Get", err)
				if !core.Bits(x, v[i][j]) {
					c.Failf("Get(%d,%d) = %v, want %v", i, j, x, v[i][j])
				}
			}
		}
		vt := ref.T(v)
		for j := 0; j < cols; j++ {
			col, err := m.GetColumn(j)
			noErr(c, "GetColumn", err)
			if !core.BitsM(M{col}, M{vt[j]}) {
				c.Failf("GetColumn(%d) = %v, want %v", j, col, vt[j])
			}
			for i := range col {
				col[i] = 4321
			}
		}
		untouched(c, "matrix after writing into the columns read from it", m, v)
		for j := 0; j < cols; j++ {
			if col, err := m.GetColumn(j); err != nil || !core.BitsM(M{col}, M{vt[j]}) {
				c.Failf("GetColumn(%d) again = %v, %v, want %v", j, col, err, vt[j])
			}
		}
	}
}

func accLarge(c *core.C, rows, cols int) {
	c.Trace()
	v := genM(rows, cols, 4)
	m := mat(v)
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			x := float64(i*1000 + j)
			noErr(c, "Set", m.Set(i, j, x))
			v[i][j] = x
			if g, err := m.Get(i, j); err != nil || g != x {
				c.Failf("Get(%d,%d) = %v, %v after Set %v", i, j, g, err, x)
			}
		}
	}
	c.Step(rows * cols * 2)
	untouched(c, "matrix after writing every cell", m, v)
	for i := 0; i < rows; i++ {
		accStep(c, &m, v, accOp{4, i, 0, cols}, i)
		accStep(c, &m, v, accOp{2, i, 0, 0}, i)
		accStep(c, &m, v, accOp{2, -1 - i, 0, 0}, i)
		accStep(c, &m, v, accOp{4, rows + i, 0, cols}, i)
		accStep(c, &m, v, accOp{0, i, cols, 0}, i)
		accStep(c, &m, v, accOp{1, i, cols, 0}, i)
		accStep(c, &m, v, accOp{1, i, -1, 0}, i)
	}
	untouched(c, "matrix after writing every row", m, v)
	for j := 0; j < cols; j++ {
		accStep(c, &m, v, accOp{5, 0, j, rows}, j)
		accStep(c, &m, v, accOp{3, 0, j, 0}, j)
		accStep(c, &m, v, accOp{3, 0, cols + j, 0}, j)
		accStep(c, &m, v, accOp{5, 0, j, rows + 1}, j)
		accStep(c, &m, v, accOp{1, rows, j, 0}, j)
		accStep(c, &m, v, accOp{0, rows, j, 0}, j)
	}
	untouched(c, "matrix after writing every column", m, v)
	c.State(core.HashM(12, v))
}

// accHuge writes and reads every cell, and rows and columns at many positions.
// equalSizes compares matrices that differ in one cell at most.
func equalSizes(c *core.C, rows, cols int) {
	at := func(n int) []int {
		var o []int
		for k := 0; k < n; k++ {
			if n < 140 || k < 2 || k > n-3 || k == n/2 {
				o = append(o, k)
				continue
			}
			for _, q := range []int{100, 128, 200, 256, 300, 500, 512, 1000, 1024, 2000, 4096, 5000, 8192, 10000, 16384, 32768, 65536} {
				if k >= q-1 && k <= q+1 {
					o = append(o, k)
					break
				}
			}
		}
		return o
	}
	v := genM(rows, cols, 5)
	A, B := mat(v), mat(core.CopyM(v))
	if !A.Equals(B) || !B.Equals(A) {
		c.Failf("two %dx%d matrices with the same entries are not equal", rows, cols)
	}
	for _, i := range at(rows) {
		for _, j := range at(cols) {
			x := v[i][j]
			for _, y := range []float64{-x, math.Nextafter(x, 10), nan} {
				if x == y {
					continue
				}
				B.M[i][j] = y
				if A.Equals(B) || B.Equals(A) {
					c.Failf("two %dx%d matrices are equal, though entry %d, %d is %v in one and %v in the other", rows, cols, i, j, x, y)
				}
				c.Step(2)
			}
			B.M[i][j] = x
		}
	}
	if !A.Equals(B) {
		c.Failf("two %dx%d matrices with the same entries are not equal", rows, cols)
	}
}

func accHuge(c *core.C, rows, cols int) {
	c.State(core.Hash("acchuge", rows, cols))
	c.Trace()
	m, err := nn.NewMatrix(rows, cols)
	noErr(c, "NewMatrix", err)
	if !shapeOK(m, rows, cols) {
		c.Failf("NewMatrix(%d, %d) is %dx%d", rows, cols, m.Rows, m.Cols)
	}
	v := ref.Zeros(rows, cols)
	untouched(c, "new matrix", m, v)
	for i := range v {
		for j := range v[i] {
			v[i][j] = float64(i)*1e6 + float64(j)
			noErr(c, "Set", m.Set(i, j, v[i][j]))
		}
	}
	untouched(c, "matrix after writing every cell", m, v)
	for i := range v {
		for j := range v[i] {
			if x, err := m.Get(i, j); err != nil || x != v[i][j] {
				c.Failf("Get(%d, %d) = %v, %v; %v was written there", i, j, x, err, v[i][j])
			}
		}
	}
	c.Step(2 * rows * cols)
	at := func(n int) []int {
		o := []int{0, n / 2, n - 1}
		for _, k := range []int{1, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536} {
			if k < n {
				o = append(o, k)
			}
		}
		return o
	}
	column := func(j int) []float64 {
		var o []float64
		for i := range v {
			o = append(o, v[i][j])
		}
		return o
	}
	for round := 0; round < 2; round++ {
		for _, i := range at(rows) {
			if g, err := m.GetRow(i); err != nil || !core.BitsM(M{g}, M{v[i]}) {
				c.Failf("GetRow(%d) of %dx%d differs from what was written (error %v)", i, rows, cols, err)
			}
			for j := range v[i] {
				v[i][j] = -float64(j) - float64(i)/8 - float64(round)
			}
			noErr(c, "SetRow", m.SetRow(i, append([]float64{}, v[i]...)))
			c.Step(2)
		}
		untouched(c, "matrix after writing rows", m, v)
		for _, j := range at(cols) {
			if g, err := m.GetColumn(j); err != nil || !core.BitsM(M{g}, M{column(j)}) {
				c.Failf("GetColumn(%d) of %dx%d differs from what was written (error %v)", j, rows, cols, err)
			}
			for i := range v {
				v[i][j] = float64(i)/4 + float64(j) + float64(round)
			}
			noErr(c, "SetColumn", m.SetColumn(j, column(j)))
			c.Step(2)
		}
		untouched(c, "matrix after writing columns", m, v)
	}
	for _, k := range []int{-1, rows, rows + 1, rows + 1<<16, -1 << 16, -1 << 32, 1 << 32} {
		before := val(m)
		_, e1 := m.Get(k, 0)
		e2 := m.Set(k, 0, 7)
		_, e3 := m.GetRow(k)
		e4 := m.SetRow(k, make([]float64, cols))
		for w, e := range []error{e1, e2, e3, e4} {
			if e == nil {
				c.Failf("%s takes row %d of a matrix of %d rows", []string{"Get", "Set", "GetRow", "SetRow"}[w], k, rows)
			}
		}
		untouched(c, "matrix after refused writes", m, before)
	}
	for _, k := range []int{-1, cols, cols + 1, cols + 1<<16, -1 << 16, -1 << 32, 1 << 32} {
		before := val(m)
		_, e1 := m.Get(0, k)
		e2 := m.Set(0, k, 7)
		_, e3 := m.GetColumn(k)
		e4 := m.SetColumn(k, make([]float64, rows))
		for w, e := range []error{e1, e2, e3, e4} {
			if e == nil {
				c.Failf("%s takes column %d of a matrix of %d columns", []string{"Get", "Set", "GetColumn", "SetColumn"}[w], k, cols)
			}
		}
		untouched(c, "matrix after refused writes", m, before)
	}
	if cols != 1 {
		for _, l := range []int{0, 1, cols - 1, cols + 1, cols + 1<<16} {
			if l != cols && m.SetRow(0, make([]float64, l)) == nil {
				c.Failf("SetRow takes %d entries for %d columns", l, cols)
			}
		}
	}
	if rows != 1 {
		for _, l := range []int{0, 1, rows - 1, rows + 1, rows + 1<<16} {
			if l != rows && m.SetColumn(0, make([]float64, l)) == nil {
				c.Failf("SetColumn takes %d entries for %d rows", l, rows)
			}
		}
	}
	untouched(c, "matrix after refused writes", m, val(m))
	s, err := nn.NewMatrixFromSlice(core.CopyM(v))
	noErr(c, "NewMatrixFromSlice", err)
	if !shapeOK(s, rows, cols) {
		c.Failf("NewMatrixFromSlice of %dx%d is %dx%d", rows, cols, s.Rows, s.Cols)
	}
	wantSame(c, "NewMatrixFromSlice", s, v)
}

// sweepSizes are the sizes at which blocked, pooled or shortened code shows.
func sweepSizes(thorough bool) []int {
	var o []int
	for n := 1; n <= pick(thorough, 140, 36); n++ {
		o = append(o, n)
	}
	for _, n := range []int{47, 48, 49, 50, 51, 63, 64, 65, 66, 96, 97, 99, 100, 101, 127, 128, 129, 130, 199, 200, 201, 255, 256, 257, 258, 300} {
		if n > o[len(o)-1] {
			o = append(o, n)
		}
	}
	if thorough {
		o = append(o, 399, 400, 401, 500, 511, 512, 513, 600, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049)
	}
	return o
}

// ownStorage applies every operation twice to matrices of one size and keeps
// everything: every matrix is its own.
func ownStorage(c *core.C, i, j int) {
	c.State(core.Hash("own", i, j))
	a, b := genM(i, j, 1), genM(i, j, 2)
	A, B := mat(a), mat(b)
	S := mat(genM(j, pick(j > 5000, 1, j), 3))
	all := []nn.Matrix{A, B, S}
	keep := func(m nn.Matrix, err error) {
		noErr(c, "operation", err)
		all = append(all, m)
	}
	for n := 0; n < 2; n++ {
		for _, op := range binOps {
			keep(op.impl(&A, B))
		}
		for _, op := range scOps {
			keep(op.impl(&A, 2), nil)
			keep(op.impl(&A, 1), nil)
			keep(op.impl(&A, 0), nil)
		}
		keep(A.Neg(), nil)
		keep(A.T(), nil)
		keep(A.Sum(0), nil)
		keep(A.Sum(1), nil)
		keep(A.Dot(S))
		keep(nn.NewMatrix(i, j))
		keep(nn.Clip(A), nil)
		C := mat(a)
		all = append(all, C)
	}
	c.Step(len(all))
	untouched(c, "operand", A, a)
	untouched(c, "operand", B, b)
	for k, m := range all {
		for y := range m.M {
			for x := range m.M[y] {
				m.M[y][x] = float64(k*1000003 + y*1009 + x)
			}
		}
	}
	for k, m := range all {
		for y := range m.M {
			for x := range m.M[y] {
				if m.M[y][x] != float64(k*1000003+y*1009+x) {
					c.Failf("of the matrices obtained one after another by the operations on %dx%d matrices, number %d shares storage with a later one", i, j, k)
				}
			}
		}
	}
	c.Outcome(core.Hash("own"))
}
