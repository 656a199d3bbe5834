package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() { checks["C21"] = c21 }

// grid makes the matrix whose cells are the letters of w.
func grid(rows, cols int, w []int, vals []float64) M {
	m := ref.Zeros(rows, cols)
	for i := range w {
		m[i/cols][i%cols] = vals[w[i]]
	}
	return m
}

var below05, above05 = math.Nextafter(0.5, 0), math.Nextafter(0.5, 1)

func hashShape(tag string, r, c int, w []int, more ...int) uint64 {
	return core.Hash(tag, r, c, fmt.Sprint(w), fmt.Sprint(more))
}

func c21(r *core.Run) {
	r.Rule = "cases: every matrix over alphabets of boundary values for every shape up to a number of cells, for row maxima, thresholds, one-hot conversion and each accuracy function with every label combination and precisions hit exactly; sweeps over large shapes with the deciding entry at every position; models in every accuracy mode; each compared with the definition; states are distinct inputs"
	r.Assume("row maxima of rows containing NaN are not specified")
	vals := []float64{-inf, -2, -1, 0, math.Copysign(0, -1), 0.5, 1, inf}
	maxCells := pick(r.Max, 8, pick(r.Thorough, 7, 6))
	forShapes := func(cells int, f func(rows, cols int)) {
		for rows := 1; rows <= cells; rows++ {
			for cols := 1; rows*cols <= cells; cols++ {
				f(rows, cols)
			}
		}
	}
	// row maxima
	checkMax := func(c *core.C, m M) {
		x := mat(ref.Map(m, func(v float64) float64 { return -v }))
		other := nn.RowMax(x)
		scribble(other)
		refill(x, m)
		got := nn.RowMax(x)
		c.Step(1)
		wantSame(c, "RowMax", got, ref.Answer(ref.AccCat, m))
		untouched(c, "argument of RowMax", x, m)
		if overlaps(got, x) {
			c.Failf("RowMax returns storage of its argument")
		}
	}
	forShapes(maxCells, func(rows, cols int) {
		words(len(vals), rows*cols, rows*cols, func(w []int) {
			m := grid(rows, cols, w, vals)
			w = cp(w)
			r.Case("row maxima", func() string { return str(m) }, func(c *core.C) {
				c.Trace()
				checkMax(c, m)
				c.State(hashShape("max", rows, cols, w))
			})
		})
	})
	// the largest value at every position of rows of every width, with every position of an equal one
	for _, base := range []float64{-5, 0, 3, 1e300, -1e300} {
		for cols := 1; cols <= pick(r.Max, 90, pick(r.Thorough, 40, 20)); cols++ {
			for p := 0; p < cols; p++ {
				for q := p; q < cols; q++ {
					cols, p, q, base := cols, p, q, base
					r.Case("row maxima, wide", func() string { return fmt.Sprintf("%d columns of about %v, largest at %d and %d", cols, base, p, q) }, func(c *core.C) {
						c.Trace()
						row := make([]float64, cols)
						for j := range row {
							row[j] = math.Nextafter(base, -inf)
							if j%3 == 1 {
								row[j] = base - math.Abs(base)/2 - 1
							}
						}
						row[p], row[q] = base, base
						checkMax(c, M{row, row})
						c.State(core.Hash("wide", cols, p, q, base))
					})
				}
			}
		}
	}
	// thresholds
	tv := []float64{-inf, -1, 0, math.Copysign(0, -1), below05, 0.5, above05, 1, 2, inf}
	forShapes(pick(r.Max, 6, pick(r.Thorough, 5, 4)), func(rows, cols int) {
		words(len(tv), rows*cols, rows*cols, func(w []int) {
			m := grid(rows, cols, w, tv)
			w = cp(w)
			r.Case("thresholds", func() string { return str(m) }, func(c *core.C) {
				c.Trace()
				X := mat(ref.Map(m, func(v float64) float64 { return -v }))
				scribble(nn.OutputBinaryValues(X))
				refill(X, m)
				wantSame(c, "OutputBinaryValues", nn.OutputBinaryValues(X), ref.Answer(ref.AccBin, m))
				c.Step(1)
				c.State(hashShape("thr", rows, cols, w))
			})
		})
	})
	// one-hot conversion
	for size := 1; size <= 5; size++ {
		for rows := 1; rows <= pick(r.Max, 7, pick(r.Thorough, 6, 5)); rows++ {
			for cols := 1; cols <= 2; cols++ {
				words(size, rows, rows, func(w []int) {
					w, size, rows, cols := cp(w), size, rows, cols
					r.Case("one-hot", func() string { return fmt.Sprintf("labels %v, %d classes, %d columns", w, size, cols) }, func(c *core.C) {
						c.Trace()
						x := ref.Zeros(rows, cols)
						want := ref.Zeros(rows, size)
						for i := range w {
							x[i][0] = float64(w[i])
							if w[i] == 0 && (i+cols)%2 == 0 {
								x[i][0] = math.Copysign(0, -1) // -0 is 0
							}
							if cols > 1 {
								x[i][1] = 77
							}
							want[i][w[i]] = 1
						}
						X := mat(ref.Zeros(rows, cols))
						before, err := nn.SparseToOneHot(X, size)
						noErr(c, "SparseToOneHot", err)
						scribble(before)
						refill(X, x)
						got, err := nn.SparseToOneHot(X, size)
						c.Step(1)
						noErr(c, "SparseToOneHot", err)
						wantSame(c, "SparseToOneHot", got, want)
						untouched(c, "labels", X, x)
						// back and forth
						wantSame(c, "RowMax of one-hot", nn.RowMax(got), M(ref.T(M{floats(w)})))
						c.State(hashShape("hot", rows, cols, w, size))
					})
				})
			}
		}
	}
	for size := 1; size <= pick(r.Max, 600, pick(r.Thorough, 300, 130)); size++ {
		size := size
		r.Case("one-hot, many classes", func() string { return fmt.Sprintf("%d classes, every label", size) }, func(c *core.C) {
			c.Trace()
			x, want := ref.Zeros(size, 1), ref.Zeros(size, size)
			for i := range x {
				k := (i*7 + 3) % size
				x[i][0], want[i][k] = float64(k), 1
			}
			got, err := nn.SparseToOneHot(mat(x), size)
			c.Step(1)
			noErr(c, "SparseToOneHot", err)
			wantSame(c, "SparseToOneHot", got, want)
			c.State(core.Hash("hotbig", size))
		})
	}
	// accuracy functions
	acc := func(c *core.C, mode int, p, y M, prec float64) {
		P, Y := reused(p, y, func(P, Y nn.Matrix) {
			switch mode {
			case ref.AccReg:
				nn.RegressionAccuracy(P, Y, prec)
			case ref.AccCat:
				nn.CategoricalAccuracy(P, Y)
			case ref.AccBin:
				nn.BinaryCategoricalAccuracy(P, Y)
			}
		})
		var got float64
		switch mode {
		case ref.AccReg:
			got = nn.RegressionAccuracy(P, Y, prec)
		case ref.AccCat:
			got = nn.CategoricalAccuracy(P, Y)
		case ref.AccBin:
			got = nn.BinaryCategoricalAccuracy(P, Y)
		}
		c.Step(1)
		if want := ref.Accuracy(mode, p, y, prec); !core.Close(got, want, 1e-12) {
			c.Failf("accuracy is %v, want %v (predictions %s, labels %s, precision %v)", got, want, str(p), str(y), prec)
		}
		untouched(c, "predictions", P, p)
		untouched(c, "labels", Y, y)
	}
	// regression: all prediction/label combinations; differences hit the precision exactly
	pv, yv := []float64{-1, 0, 0.25, 0.5, 1}, []float64{0, 0.5, -1}
	precs := []float64{0, 0.25, 0.5, math.Nextafter(0.5, 0), math.Nextafter(0.5, 1), 1, 1.5, inf}
	forShapes(pick(r.Max, 6, pick(r.Thorough, 5, 4)), func(rows, cols int) {
		n := rows * cols
		words(len(pv), n, n, func(wp []int) {
			p := grid(rows, cols, wp, pv)
			wp = cp(wp)
			words(len(yv), n, n, func(wy []int) {
				y := grid(rows, cols, wy, yv)
				wy = cp(wy)
				r.Case("regression accuracy", func() string { return str(p) + " against " + str(y) }, func(c *core.C) {
					c.Trace()
					for _, pr := range precs {
						acc(c, ref.AccReg, p, y, pr)
					}
					c.State(hashShape("reg", rows, cols, wp, wy...))
				})
			})
		})
	})
	// categorical: every label assignment over every prediction grid
	cv := []float64{-1, 0, 0.5, 1}
	forShapes(pick(r.Max, 8, pick(r.Thorough, 7, 6)), func(rows, cols int) {
		n := rows * cols
		words(len(cv), n, n, func(wp []int) {
			p := grid(rows, cols, wp, cv)
			wp = cp(wp)
			words(cols, rows, rows, func(wl []int) {
				y := ref.Zeros(rows, cols)
				for i, k := range wl {
					y[i][k] = 1
				}
				wl = cp(wl)
				r.Case("categorical accuracy", func() string { return str(p) + " against " + str(y) }, func(c *core.C) {
					c.Trace()
					acc(c, ref.AccCat, p, y, 0)
					c.State(hashShape("cat", rows, cols, wp, wl...))
				})
			})
		})
	})
	// binary: predictions around the threshold, all labels
	bv := []float64{-1, below05, 0.5, above05, 2}
	forShapes(pick(r.Max, 6, pick(r.Thorough, 5, 4)), func(rows, cols int) {
		n := rows * cols
		words(len(bv), n, n, func(wp []int) {
			p := grid(rows, cols, wp, bv)
			wp = cp(wp)
			words(2, n, n, func(wl []int) {
				y := grid(rows, cols, wl, []float64{0, 1})
				wl = cp(wl)
				r.Case("binary accuracy", func() string { return str(p) + " against " + str(y) }, func(c *core.C) {
					c.Trace()
					acc(c, ref.AccBin, p, y, 0)
					c.State(hashShape("bin", rows, cols, wp, wl...))
				})
			})
		})
	})
	// large shapes, one right or one wrong entry at every position
	for _, sh := range [][2]int{{1, 17}, {17, 1}, {9, 5}, {5, 9}, {33, 2}, {2, 33}, {16, 16}, {65, 3}} {
		rows, cols := sh[0], sh[1]
		for at := 0; at < rows*cols; at++ {
			for mode := 0; mode < 3; mode++ {
				for inv := 0; inv < 2; inv++ {
					rows, cols, at, mode, inv := rows, cols, at, mode, inv
					r.Case("one different entry", func() string {
						return fmt.Sprintf("%dx%d, entry %d, mode %d, inverted %d", rows, cols, at, mode, inv)
					}, func(c *core.C) {
						c.Trace()
						p := ref.Map(genM(rows, cols, 9), math.Abs)
						var y M
						switch mode {
						case ref.AccReg:
							y = ref.Map(p, func(v float64) float64 { return v + float64(inv) })
							y[at/cols][at%cols] = p[at/cols][at%cols] + float64(1-inv)
						case ref.AccCat:
							y = ref.Zeros(rows, cols)
							for i := range y {
								k := (ref.ArgMax(p[i]) + inv) % cols
								if i == at/cols {
									k = at % cols
								}
								y[i][k] = 1
							}
						case ref.AccBin:
							y = ref.Answer(ref.AccBin, p)
							for i := range y {
								for j := range y[i] {
									if (i*cols+j == at) != (inv == 1) {
										y[i][j] = 1 - y[i][j]
									}
								}
							}
						}
						acc(c, mode, p, y, 0.5)
						c.State(core.Hash("one", rows, cols, at, mode, inv))
					})
				}
			}
		}
	}
	// sizes
	for _, s := range append(sizesUpTo(pick(r.Max, 600, pick(r.Thorough, 300, 130))), 255, 256, 257, 512, 1000, 1024, 1025, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 70000) {
		s := s
		r.Case("sizes", func() string { return fmt.Sprint(s) }, func(c *core.C) {
			c.Trace()
			for _, size := range []int{2, 5, s} {
				if size > 1100 {
					continue
				}
				x, want := ref.Zeros(s, 1), ref.Zeros(s, size)
				for i := range x {
					k := (i*7 + i/size + size - 1) % size
					x[i][0], want[i][k] = float64(k), 1
				}
				X := mat(x)
				got, err := nn.SparseToOneHot(X, size)
				c.Step(1)
				noErr(c, "SparseToOneHot", err)
				wantSame(c, "SparseToOneHot", got, want)
				untouched(c, "labels", X, x)
			}
			for _, sh := range [][2]int{{s, 1}, {1, s}, {s, 2}, {s/3 + 1, 3}} {
				p := ref.Map(genM(sh[0], sh[1], s), math.Abs)
				checkMax(c, p)
				for mode := 0; mode < 3; mode++ {
					var y M
					switch mode {
					case ref.AccReg:
						y = ref.Map(p, func(v float64) float64 { return v + pick(v > 0.3, 1.0, 0.25) })
					case ref.AccCat:
						y = oneHot(sh[0], sh[1], s)
					case ref.AccBin:
						y = ref.Map(genM(sh[0], sh[1], s+1), func(v float64) float64 { return pick(v < 0.2, 0.0, 1.0) })
					}
					acc(c, mode, p, y, 0.5)
					c.State(core.Hash("sizes", s, sh, mode))
				}
			}
		})
	}
	for _, size := range []int{1000, 65537, 1<<24 + 4} {
		size := size
		r.Case("one-hot, large classes", func() string { return fmt.Sprint(size) }, func(c *core.C) {
			c.Trace()
			for _, k := range []int{0, 1, size/2 + 1, size - 2, size - 1} {
				if size > 1<<20 && k != size-1 && k != size-3 {
					continue
				}
				got, err := nn.SparseToOneHot(mat(M{{float64(k)}}), size)
				c.Step(1)
				noErr(c, "SparseToOneHot", err)
				if got.Rows != 1 || got.Cols != size {
					c.Failf("one-hot row of %d classes has shape %dx%d", size, got.Rows, got.Cols)
				}
				for j, v := range got.M[0] {
					if v != 0 && j != k || v != 1 && j == k {
						c.Failf("label %d of %d classes gives %v in column %d", k, size, v, j)
					}
				}
				c.State(core.Hash("largeclass", size, k))
			}
		})
	}
	// differences and precisions of every magnitude
	for _, d := range []float64{0, 5e-324, 1e-300, 1e-20, 1e-9, 1, 1e9, 1e15, 1e300, inf} {
		for _, pr := range []float64{0, 5e-324, 1e-300, 1e-20, 1e-9, 1, 1e9, 1.5e15, 1e300, math.MaxFloat64, inf} {
			d, pr := d, pr
			r.Case("magnitudes of differences", func() string { return fmt.Sprintf("difference %v precision %v", d, pr) }, func(c *core.C) {
				c.Trace()
				acc(c, ref.AccReg, M{{d}, {0}, {-d}}, M{{0}, {d}, {0}}, pr)
				acc(c, ref.AccReg, M{{d, 0}}, M{{0, 0}}, pr)
				c.State(core.Hash("diff", d, pr))
			})
		}
	}
	// one linear layer with exact outputs: every number of outputs and of rows,
	// labels equal to, just beside and far from them
	for _, outs := range append(sizesUpTo(pick(r.Max, 40, 12)), 33, 100) {
		for _, loss := range []int{ref.MSE, ref.CE} {
			for mode := 0; mode < 3; mode++ {
				for _, prec := range []float64{0, 5e-324, 1e-12, 0.25, 0.5, 1, 2, 1e300, inf} {
					for rows := 1; rows <= 5; rows++ {
						outs, loss, mode, prec, rows := outs, loss, mode, prec, rows
						if mode != ref.AccReg && prec != 0 && prec != 0.5 && prec != 2 {
							continue
						}
						r.Case("models with exact outputs", func() string {
							return fmt.Sprintf("%d outputs, %s, mode %d, precision %v, %d rows", outs, ref.LossName[loss], mode, prec, rows)
						}, func(c *core.C) {
							c.Trace()
							l := refLayer(ref.Linear, 1, outs, 1)
							for j := range l.B {
								l.W[0][j] = float64(j*5%7-3) / 2
								l.B[j] = float64(j%3) / 4
							}
							n := &ref.Net{Loss: loss, Layers: []*ref.Layer{l}}
							h := buildModel(n, sgd(0.1, 0, 0), mode, prec)
							x := ref.Zeros(rows, 1)
							for i := range x {
								x[i][0] = float64((i*2+1)%5) - 1
							}
							out := n.Predict(x)
							for lab := 0; lab < 3; lab++ {
								var y M
								switch mode {
								case ref.AccCat:
									y = oneHot(rows, outs, lab)
								case ref.AccBin:
									y = bitLabels(rows, outs, lab)
								default:
									y = ref.Map(out, func(v float64) float64 { return v })
									for i := range y {
										for j := range y[i] {
											switch (i*2 + j + lab) % 4 {
											case 1:
												y[i][j] = math.Nextafter(y[i][j], inf)
											case 2:
												y[i][j] += 0.5
											case 3:
												y[i][j] -= 3
											}
										}
									}
								}
								v, err := h.Mod.CalculateAccuracy(mat(x), mat(y))
								noErr(c, "CalculateAccuracy", err)
								if w := ref.Accuracy(mode, out, y, prec); !core.Close(v, w, 1e-12) {
									c.Failf("CalculateAccuracy gives %v, want %v (outputs %s, labels %s)", v, w, str(out), str(y))
								}
								p, err := h.Mod.Predict(mat(x))
								noErr(c, "Predict", err)
								wantM(c, "prediction", p, ref.Answer(mode, out), 0)
								c.Step(2)
							}
							c.State(core.Hash("exact", outs, loss, mode, prec, rows))
						})
					}
				}
			}
		}
	}
	// models: the mode they were finished with
	kinds := []int{ref.Linear, ref.Sigmoid, ref.Softmax, ref.Dropout}
	for _, kind := range kinds {
		for loss := 0; loss < 4; loss++ {
			for mode := 0; mode < 3; mode++ {
				for _, prec := range []float64{0, 0.3, 0.9} {
					for rows := 1; rows <= 6; rows++ {
						kind, loss, mode, prec, rows := kind, loss, mode, prec, rows
						r.Case("models", func() string {
							return fmt.Sprintf("%s layer, %s, mode %d, precision %v, %d rows", ref.KindName[kind], ref.LossName[loss], mode, prec, rows)
						}, func(c *core.C) {
							c.Trace()
							n := &ref.Net{Loss: loss, Layers: []*ref.Layer{refLayer(ref.Linear, 2, 3, 1), refLayer(kind, 3, 3, 2)}}
							h := buildModel(n, sgd(0.1, 0, 0), mode, prec)
							x := genM(rows, 2, 4)
							for i := range x {
								for j := range x[i] {
									x[i][j] *= 4
								}
							}
							out := n.Predict(x)
							for lab := 0; lab < 3; lab++ {
								var y M
								switch {
								case mode == ref.AccCat:
									y = oneHot(rows, 3, lab)
								case mode == ref.AccBin:
									y = bitLabels(rows, 3, lab)
								default:
									y = genM(rows, 3, lab)
								}
								X, Y := reused(x, y, func(X, Y nn.Matrix) {
									h.Mod.CalculateAccuracy(X, Y)
									p, _ := h.Mod.Predict(X)
									scribble(p)
								})
								for rep := 0; rep < 2; rep++ {
									v, err := h.Mod.CalculateAccuracy(X, Y)
									noErr(c, "CalculateAccuracy", err)
									if w := ref.Accuracy(mode, out, y, prec); !core.Close(v, w, 1e-12) {
										c.Failf("CalculateAccuracy gives %v, want %v (outputs %s, labels %s)", v, w, str(out), str(y))
									}
									p, err := h.Mod.Predict(X)
									noErr(c, "Predict", err)
									wantM(c, "prediction", p, ref.Answer(mode, out), 1e-9)
									scribble(p)
									c.Step(2)
								}
								untouched(c, "X", X, x)
								untouched(c, "Y", Y, y)
							}
							c.State(core.Hash("model", kind, loss, mode, prec, rows))
						})
					}
				}
			}
		}
	}
}

func floats(w []int) []float64 {
	o := make([]float64, len(w))
	for i := range w {
		o[i] = float64(w[i])
	}
	return o
}
