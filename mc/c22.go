package main

import (
	"fmt"
	"math"
	"sort"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
	"nnverif/seam/ctl"
)

func init() { checks["C22"] = c22 }

// idData makes rows that carry their number, so that the order can be read off.
func idData(n, cols, base int) M {
	m := ref.Zeros(n, cols)
	for i := range m {
		for j := range m[i] {
			m[i][j] = float64(base + i*100 + j)
		}
	}
	return m
}

// rowID says which row of idData a row is.
func rowID(x M, row []float64) int {
	if f := (row[0] - x[0][0]) / 100; f >= 0 && f < float64(len(x)) {
		return int(f)
	}
	return -1
}

// order checks the result of a shuffle and returns the order of the rows.
func order(c *core.C, x, y M, X, Y nn.Matrix) string {
	if !shapeOK(X, len(x), len(x[0])) || !shapeOK(Y, len(y), len(y[0])) {
		c.Failf("shapes after shuffling: %dx%d and %dx%d, want %dx%d and %dx%d", X.Rows, X.Cols, Y.Rows, Y.Cols, len(x), len(x[0]), len(y), len(y[0]))
	}
	used := make([]bool, len(x))
	s := ""
	if len(x) > 3000 { // the rows say which they are
		h := core.Hash("order", len(x))
		for i := range X.M {
			k := rowID(x, X.M[i])
			if k < 0 || used[k] || !core.BitsM(M{X.M[i]}, M{x[k]}) || !core.BitsM(M{Y.M[i]}, M{y[k]}) {
				c.Failf("row %d of %d after shuffling is %v with label %v: not a pair of the data set, or one used twice", i, len(x), X.M[i], Y.M[i])
			}
			used[k] = true
			h = core.Hash(h, k)
		}
		return fmt.Sprint(h)
	}
	for i := range X.M {
		k := -1
		for j := range x {
			if !used[j] && core.BitsM(M{X.M[i]}, M{x[j]}) && core.BitsM(M{Y.M[i]}, M{y[j]}) {
				k = j
				break
			}
		}
		if k < 0 {
			c.Failf("row %d after shuffling is %v with label %v: not a pair of the data set, or one used twice (X %s Y %s)", i, X.M[i], Y.M[i], str(X.M), str(Y.M))
		}
		used[k] = true
		s += fmt.Sprint(k, " ")
	}
	return s
}

func fact(n int) float64 {
	f := 1.0
	for i := 2; i <= n; i++ {
		f *= float64(i)
	}
	return f
}

func c22(r *core.Run) {
	r.Rule = "cases: data sets of 1..n rows with different numbers of columns, unique and repeated rows; each case walks every outcome of the random draws of the shuffle (choice tree) and computes the exact probability of every order; two shuffles in a row jointly; every pair of column counts of a grid and of structured contents; larger data sets with the generator's own stream; states are distinct (data set, order)"
	r.Assume("sources seeded at different times are independent")
	tree := false
	{
		n := ctl.Draws()
		nn.ShuffleDataset(mat(idData(5, 1, 0)), mat(idData(5, 1, 0)))
		tree = ctl.Draws() > n
	}
	r.Extra("random_source_controlled", tree)
	if tree {
		maxN := pick(r.Max, 9, pick(r.Thorough, 8, 7))
		for n := 1; n <= maxN; n++ {
			for _, cols := range [][2]int{{1, 1}, {2, 1}, {1, 3}, {3, 2}} {
				if n > 6 && cols != [2]int{2, 1} {
					continue
				}
				n, cols := n, cols
				r.Case("every outcome", func() string { return fmt.Sprintf("%d rows, %d and %d columns", n, cols[0], cols[1]) }, func(c *core.C) {
					x, y := idData(n, cols[0], 1), idData(n, cols[1], 50)
					got := map[string]float64{}
					coarse, floats, single := ctl.Coarse(), ctl.CoarseFloats(), ctl.Single()
					_, done := ctl.Explore(pick(n <= 3, 60, 12), 1<<21, func(prob func() float64) {
						X, Y := nn.ShuffleDataset(mat(x), mat(y))
						c.Step(1)
						c.Trace()
						o := order(c, x, y, X, Y)
						got[o] += prob()
						c.State(core.Hash(n, cols, o))
					})
					coarse, floats = ctl.Coarse()-coarse, ctl.CoarseFloats()-floats
					if coarse > 0 && (n > 4 || !done) || ctl.Single() > single {
						return // the probabilities are not those of the tree
					}
					if !done {
						panic(core.Undecided("the choice tree is too large"))
					}
					if float64(len(got)) != fact(n) {
						c.Failf("only %d of the %v orders of %d rows occur", len(got), fact(n), n)
					}
					for o, p := range got {
						if coarse > 0 && coarse == floats && n <= 3 && math.Abs(p*fact(n)-1) > 0.12 {
							c.Failf("order %s of %d rows has probability about %v, want 1/%v", o, n, p, fact(n))
						}
						if math.Abs(p-1/fact(n)) > 1e-9 && (coarse == 0 || p > 2.5/fact(n) || p < 0.4/fact(n)) {
							c.Failf("order %s of %d rows has probability %v, want 1/%v", o, n, p, fact(n))
						}
					}
				})
			}
		}
		for n := 1; n <= 3+pick(r.Max, 2, pick(r.Thorough, 1, 0)); n++ {
			n := n
			for _, other := range []bool{false, true} {
				other := other
				r.Case("two shuffles in a row", func() string { return fmt.Sprintf("%d rows, another data set %v", n, other) }, func(c *core.C) {
					x, y := idData(n, 2, 1), idData(n, 1, 50)
					got := map[string]float64{}
					coarse := ctl.Coarse()
					ctl.Explore(12, 1<<21, func(prob func() float64) {
						X, Y := nn.ShuffleDataset(mat(x), mat(y))
						o1 := order(c, x, y, X, Y)
						x2, y2 := val(X), val(Y)
						if other {
							x2, y2 = x, y
							X, Y = mat(x), mat(y)
						}
						X, Y = nn.ShuffleDataset(X, Y)
						c.Step(2)
						c.Trace()
						o2 := order(c, x2, y2, X, Y)
						got[o1+"|"+o2] += prob()
						c.State(core.Hash("two", n, other, o1, o2))
					})
					if ctl.Coarse() > coarse {
						return
					}
					for o, p := range got {
						if math.Abs(p-1/fact(n)/fact(n)) > 1e-9 {
							c.Failf("orders %s have probability %v, want 1/%v", o, p, fact(n)*fact(n))
						}
					}
				})
			}
		}
		// repeated rows and labels: multiset kept in every outcome
		for n := 2; n <= 5; n++ {
			for pat := 0; pat < 1<<n; pat++ {
				n, pat := n, pat
				r.Case("repeated rows", func() string { return fmt.Sprintf("%d rows, pattern %b", n, pat) }, func(c *core.C) {
					x, y := idData(n, 2, 1), idData(n, 1, 50)
					for i := 0; i < n; i++ {
						if pat>>i&1 == 1 {
							copy(x[i], x[0])
						}
						y[i][0] = float64(i % 2)
					}
					ctl.Explore(12, 1<<18, func(func() float64) {
						X, Y := nn.ShuffleDataset(mat(x), mat(y))
						c.Step(1)
						c.Trace()
						c.State(core.Hash("rep", n, pat, order(c, x, y, X, Y)))
					})
				})
			}
		}
	}
	// larger data sets, every single draw in turn at its lowest, middle or highest
	// outcome: in a uniform shuffle no sequence of draws is likelier than an order
	if tree {
		for _, n := range append(sizesUpTo(pick(r.Max, 260, pick(r.Thorough, 130, 66))), 100, 127, 128, 129, 256, 257, 1000, 1025) {
			for _, cols := range [][2]int{{1, 1}, {2, 5}} {
				n, cols := n, cols
				r.Case("likelihood of draws", func() string { return fmt.Sprintf("%d rows, %d and %d columns", n, cols[0], cols[1]) }, func(c *core.C) {
					x, y := idData(n, cols[0], 1), idData(n, cols[1], 50)
					want := 0.0
					for i := 2; i <= n; i++ {
						want -= math.Log(float64(i))
					}
					devs := n
					if n > 70 {
						devs = 3
					}
					for base := 0; base < 3; base++ {
						for dev := -1; dev < devs; dev++ {
							coarse := ctl.Coarse()
							ctl.Fixed(-3, func(k, m int) int {
								b := base
								if k == dev {
									b = (base + 1) % 3
								}
								return []int{0, m / 2, m - 1}[b]
							}, func() {
								X, Y := nn.ShuffleDataset(mat(x), mat(y))
								c.Step(1)
								c.Trace()
								c.State(core.Hash("draws", n, cols, order(c, x, y, X, Y)))
							})
							if ctl.Coarse() > coarse {
								continue
							}
							if p := ctl.LogProb(); p > want+1e-6 {
								c.Failf("a shuffle of %d rows made draws that occur with probability e^%v; the most likely order of a uniform shuffle has e^%v", n, p, want)
							}
						}
					}
				})
			}
		}
	}
	// numbers of columns and structured rows
	for _, cx := range append(sizesUpTo(pick(r.Max, 300, pick(r.Thorough, 130, 40))), 63, 64, 65, 100, 127, 128, 129, 256, 257, 1000) {
		for _, cy := range []int{1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 33, 100} {
			cx, cy := cx, cy
			r.Case("columns", func() string { return fmt.Sprintf("%d and %d columns", cx, cy) }, func(c *core.C) {
				for _, k := range [][2]int{{cx, cy}, {cy, cx}} {
					for n := 2; n <= 4; n++ {
						x, y := idData(n, k[0], 1), idData(n, k[1], 50)
						run := func(func() float64) {
							X, Y := nn.ShuffleDataset(mat(x), mat(y))
							c.Step(1)
							c.State(core.Hash("cols", n, k, order(c, x, y, X, Y)))
						}
						if tree && n <= 3 {
							ctl.Explore(12, 1<<18, run)
						} else {
							run(nil)
						}
						c.Trace()
					}
				}
			})
		}
	}
	for pi := range patNames {
		for pj := range patNames {
			pi, pj := pi, pj
			r.Case("structured rows", func() string { return fmt.Sprintf("X %s, Y %s", patNames[pi], patNames[pj]) }, func(c *core.C) {
				x, y := pattern(pi, 4, 3, 1), pattern(pj, 4, 2, 2)
				run := func(func() float64) {
					X, Y := nn.ShuffleDataset(mat(x), mat(y))
					c.Step(1)
					c.State(core.Hash("structured", pi, pj, order(c, x, y, X, Y)))
				}
				if tree {
					ctl.Explore(12, 1<<18, run)
				} else {
					run(nil)
				}
				c.Trace()
			})
		}
	}
	for n := 2; n <= 9; n++ {
		n := n
		r.Case("long history", func() string { return fmt.Sprint(n) }, func(c *core.C) {
			x, y := idData(n, 3, 1), idData(n, 2, 50)
			X, Y := mat(x), mat(y)
			for t := 0; t < pick(r.Max, 40000, pick(r.Thorough, 5000, 300)); t++ {
				X, Y = nn.ShuffleDataset(X, Y)
				c.Step(1)
				c.State(core.Hash("history", n, order(c, x, y, X, Y)))
			}
			c.Trace()
		})
	}
	for _, n := range append(sizesUpTo(pick(r.Max, 900, pick(r.Thorough, 400, 130))), 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2049) {
		n := n
		r.Case("larger data sets", func() string { return fmt.Sprintf("%d rows", n) }, func(c *core.C) {
			x, y := idData(n, 3, 1), idData(n, 2, 50)
			seen := map[string]bool{}
			for k := 0; k < 3; k++ {
				X, Y := nn.ShuffleDataset(mat(x), mat(y))
				c.Step(1)
				o := order(c, x, y, X, Y)
				if n >= 30 && seen[o] {
					c.Failf("two shuffles of %d rows gave the same order", n)
				}
				seen[o] = true
				c.State(core.Hash("large", n, o))
			}
			c.Trace()
		})
	}
	for _, n := range huge {
		n := n
		r.Case("very large data sets", func() string { return fmt.Sprintf("%d rows", n) }, func(c *core.C) {
			x, y := idData(n, 2, 1), idData(n, 1, 50)
			seen := map[string]bool{}
			for k := 0; k < 2; k++ {
				X, Y := nn.ShuffleDataset(mat(x), mat(y))
				c.Step(1)
				o := order(c, x, y, X, Y)
				if seen[o] {
					c.Failf("two shuffles of %d rows gave the same order", n)
				}
				seen[o] = true
				c.State(core.Hash("huge", n, o))
			}
			c.Trace()
		})
	}
	// training on a shuffled data set uses the same pairs
	r.Case("special values survive", func() string { return "NaN, infinities, -0" }, func(c *core.C) {
		x := M{{nan, 1}, {inf, math.Copysign(0, -1)}, {-inf, 3}, {5e-324, 4}}
		y := M{{1}, {nan}, {math.Copysign(0, -1)}, {math.MaxFloat64}}
		for k := 0; k < 20; k++ {
			X, Y := nn.ShuffleDataset(mat(x), mat(y))
			c.Step(1)
			order(c, x, y, X, Y)
		}
	})
	_ = sort.Ints
}
