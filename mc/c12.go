package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() {
	checks["C12"] = c12
}

// fitNets are models trained deterministically (dropout rates 0 and 1 only).
func fitNets() []*ref.Net {
	L := refLayer
	d := func(in, out, seed int, rate float64) *ref.Layer {
		l := L(ref.Dropout, in, out, seed)
		l.Rate = rate
		return l
	}
	return []*ref.Net{
		{Loss: ref.MSE, Layers: []*ref.Layer{L(ref.Linear, 2, 2, 1)}},
		{Loss: ref.CE, Layers: []*ref.Layer{L(ref.Sigmoid, 2, 3, 1), L(ref.Softmax, 3, 2, 2)}},
		{Loss: ref.BCE, Layers: []*ref.Layer{L(ref.Leaky, 2, 3, 1), L(ref.Softmax, 3, 3, 2), L(ref.Sigmoid, 3, 2, 3)}},
		{Loss: ref.MSE, Layers: []*ref.Layer{L(ref.Hidden, 2, 3, 1), d(3, 3, 2, 0), L(ref.Linear, 3, 2, 3)}},
		{Loss: ref.MAE, Layers: []*ref.Layer{d(2, 3, 2, 1), L(ref.Linear, 3, 2, 3)}},
		{Loss: ref.CE, Layers: []*ref.Layer{L(ref.Linear, 2, 3, 4), L(ref.Sigmoid, 3, 2, 5)}},
	}
}

// smooth are models without kinks, for long runs.
func smooth(in, out int) []*ref.Net {
	L := refLayer
	return []*ref.Net{
		{Loss: ref.MSE, Layers: []*ref.Layer{L(ref.Sigmoid, in, 4, 1), L(ref.Linear, 4, out, 2)}},
		{Loss: ref.CE, Layers: []*ref.Layer{L(ref.Sigmoid, in, 4, 1), L(ref.Softmax, 4, out, 2)}},
		{Loss: ref.BCE, Layers: []*ref.Layer{L(ref.Softmax, in, 3, 1), L(ref.Sigmoid, 3, out, 2)}},
	}
}

const tolFit = 1e-6

func nearParams(a, b [][]float64, tol float64) bool {
	for i := range a {
		for j := range a[i] {
			if !core.Close(a[i][j], b[i][j], tol) {
				return false
			}
		}
	}
	return true
}

type fitCall struct{ epochs, batch int }

func fitCompare(c *core.C, n0 *ref.Net, o *ref.Opt, x, y M, calls []fitCall) {
	c.Trace()
	n := n0.Clone()
	n.SetOpt(o)
	h := buildModel(n, o, 0, 0.1)
	X, Y := mat(x), mat(y)
	// a twin that starts a little off: where it ends up elsewhere, rounding
	// decides the outcome and nothing can be compared
	var twin *ref.Net
	for _, f := range calls {
		if f.epochs*len(x) > 150*max(f.batch, 1) {
			twin = n.Clone()
			twin.SetOpt(o)
			for _, l := range twin.Layers {
				for i := range l.W {
					for j := range l.W[i] {
						l.W[i][j] *= 1 + 1e-13*float64(1-2*((i+j)%2))
					}
				}
			}
		}
	}
	for i, f := range calls {
		if i == 1 { // new data in the same matrices
			x = ref.Map(x, func(v float64) float64 { return 0.75*v + 0.125 })
			if n.Loss == ref.MSE {
				y = ref.Map(y, func(v float64) float64 { return 0.5 - v })
			}
			refill(X, x)
			refill(Y, y)
		}
		err := h.Mod.Fit(X, Y, f.epochs, f.batch, nn.Matrix{}, nn.Matrix{}, 0)
		c.Step(1)
		noErr(c, "Fit", err)
		n.Fit(x, y, f.epochs, f.batch)
		if twin != nil {
			twin.Fit(x, y, f.epochs, f.batch)
			if !nearParams(netParams(n), netParams(twin), tolFit/100) {
				c.Count("runs_decided_by_rounding", 1)
				return
			}
		}
		untouched(c, "X", X, x)
		untouched(c, "Y", Y, y)
		wantParams(c, fmt.Sprintf("after call %d (%d epochs, batch size %d)", i+1, f.epochs, f.batch), h, n, tolFit)
		h64 := uint64(len(x))
		for _, p := range netParams(n) {
			h64 = core.HashF(h64, p...)
		}
		c.State(h64)
	}
}

func c12(r *core.Run) {
	r.Rule = "cases: every combination of sample count 1-6, batch size 0-7, epochs 0-3, optimizer, and model (all layer kinds and losses), every pair of consecutive calls, structured data (28 patterns), every small one-weight problem over dyadic numbers, finishing again between calls, one optimizer object finishing two models and used by itself, every history of training calls with calls that train nothing (no epochs, refused, saving) between them, over a thousand training calls (and finishings) of one model, models of up to 1025 layers, optimizers with unusual settings, and a sweep of larger sample counts and batch sizes, against a reference trainer with its own forward, backward and update code; states are distinct (data, parameters)"
	r.Assume("dropout is trained with rates 0 and 1 here (the random case is C14); parameters are compared to 1e-6, in exactly representable problems bit for bit")
	opts := []*ref.Opt{sgd(0.2, 0, 0), sgd(0.1, 0.1, 0.9), adam(0.02, 0.05), sgd(0.2, 0.5, 0), sgd(0.1, 0, 0.5), adam(0.05, 0)}
	if r.Thorough {
		opts = append(opts, sgd(0.05, 0, 1), sgd(0.01, 0, 1.2), &ref.Opt{Adam: true, LR: 0.05, Epsilon: 1e-3, Beta1: 0.5, Beta2: 0.8})
	}
	maxRows := pick(r.Max, 11, pick(r.Thorough, 8, 6))
	structured12(r)
	for ni, n := range fitNets() {
		for oi, o := range opts {
			for rows := 1; rows <= maxRows; rows++ {
				x, y := genM(rows, 2, 10+ni), labels(n.Loss, rows, 2, 20+ni)
				for batch := 0; batch <= maxRows+1; batch++ {
					for epochs := 0; epochs <= 3; epochs++ {
						n, o, rows, batch, epochs := n, o, rows, batch, epochs
						r.Case("single call", func() string {
							return fmt.Sprintf("%s %s rows %d batch %d epochs %d", netName(n), optName(o), rows, batch, epochs)
						}, func(c *core.C) { fitCompare(c, n, o, x, y, []fitCall{{epochs, batch}}) })
						if rows != 3 && rows != 4 || batch > 4 || epochs == 0 {
							continue
						}
						for b2 := 0; b2 <= 3; b2++ {
							b2 := b2
							r.Case("two calls", func() string {
								return fmt.Sprintf("%s %s rows %d batch %d epochs %d, then batch %d", netName(n), optName(o), rows, batch, epochs, b2)
							}, func(c *core.C) {
								fitCompare(c, n, o, x, y, []fitCall{{epochs, batch}, {1, b2}, {2, batch}})
							})
						}
					}
				}
			}
			// one call of k epochs equals k calls of one epoch, bit for bit
			for k := 1; k <= 4; k++ {
				n, o, k := n, o, k
				_ = oi
				r.Case("split calls", func() string { return fmt.Sprintf("%s %s %d epochs", netName(n), optName(o), k) }, func(c *core.C) {
					c.Trace()
					x, y := mat(genM(5, 2, 1)), mat(labels(n.Loss, 5, 2, 2))
					a, b := buildModel(n, o, 0, 0.1), buildModel(n, o, 0, 0.1)
					noErr(c, "Fit", a.Mod.Fit(x, y, k, 2, nn.Matrix{}, nn.Matrix{}, 0))
					for i := 0; i < k; i++ {
						noErr(c, "Fit", b.Mod.Fit(x, y, 1, 2, nn.Matrix{}, nn.Matrix{}, 0))
					}
					c.Step(k + 1)
					if !sameParams(a.params(), b.params()) {
						c.Failf("%d epochs in one call give %v, in %d calls %v", k, a.params(), k, b.params())
					}
				})
			}
		}
	}
	// training drops everything at rate 1, at any count of rows, batches and epochs
	dropAll := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{refLayer(ref.Dropout, 3, 3, 1), refLayer(ref.Linear, 3, 2, 2)}}
	dropAll.Layers[0].Rate = 1
	for ni, n := range append(smooth(3, 2), dropAll) {
		for _, o := range opts {
			for _, rows := range []int{7, 10, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 200, 256, 257, 1000, 1025} {
				for _, batch := range []int{0, 1, 3, 7, 10, 16, 31, 32, 33, 50, 64, 99, 100, 101, 128, 256, 500, 1000, 5000} {
					if rows > 300 && batch > 0 && batch < 10 && !r.Thorough {
						continue
					}
					n, o, rows, batch, ni := n, o, rows, batch, ni
					r.Case("larger sets", func() string { return fmt.Sprintf("%s %s rows %d batch %d", netName(n), optName(o), rows, batch) }, func(c *core.C) {
						fitCompare(c, n, o, genM(rows, 3, 30+ni), labels(n.Loss, rows, 2, 40+ni), []fitCall{{2, batch}})
					})
				}
			}
			n, o := n, o
			r.Case("many epochs", func() string { return netName(n) + " " + optName(o) }, func(c *core.C) {
				fitCompare(c, n, o, genM(7, 3, 1), labels(n.Loss, 7, 2, 1), []fitCall{{pick(r.Max, 800, pick(r.Thorough, 330, 60)), 3}})
			})
		}
	}
	// counts of rows, batches and epochs past 2^16
	one := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{{Kind: ref.Linear, In: 1, Out: 1, W: M{{0.5}}, B: []float64{0.25}}}}
	one2 := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{{Kind: ref.Dropout, In: 1, Out: 1, W: M{{0.5}}, B: []float64{0.75}, Rate: 1}, one.Layers[0]}}
	for oi, o := range append(append([]*ref.Opt{}, opts...), opts[:2]...) {
		if oi > 1 && oi < len(opts) && !r.Thorough {
			continue
		}
		one := pick(oi < len(opts), one, one2)
		for _, rows := range []int{32769, 65537, 70000} {
			for _, batch := range []int{0, 1, 100, 32768, 65536, 65537, 1 << 20} {
				o, rows, batch := o, rows, batch
				r.Case("very large sets", func() string { return fmt.Sprintf("%s %s rows %d batch %d", netName(one), optName(o), rows, batch) }, func(c *core.C) {
					fitCompare(c, one, o, genM(rows, 1, 3), genM(rows, 1, 4), []fitCall{{1, batch}})
				})
			}
		}
		for _, batch := range []int{1<<15 - 1, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 2, 1 << 40, 1<<62 + 1, math.MaxInt - 1, math.MaxInt} {
			for rows := 1; rows <= 5; rows++ {
				o, rows, batch := o, rows, batch
				r.Case("very large batches", func() string { return fmt.Sprintf("%s %s rows %d batch %d", netName(one), optName(o), rows, batch) }, func(c *core.C) {
					fitCompare(c, one, o, genM(rows, 1, 3), genM(rows, 1, 4), []fitCall{{1, batch}, {2, 0}, {2, batch}})
				})
			}
		}
		for _, calls := range [][]fitCall{{{70000, 2}}, {{40000, 1}, {40000, 0}}} {
			o, calls := o, calls
			r.Case("very many epochs", func() string { return fmt.Sprint(netName(one), optName(o), calls) }, func(c *core.C) {
				fitCompare(c, one, o, genM(2, 1, 3), genM(2, 1, 4), calls)
			})
		}
	}
	// very deep models, every layer of which moves
	for _, depth := range append(sizesUpTo(40), 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513, 1000, 1025) {
		for oi := 0; oi < 3; oi++ {
			depth, oi := depth, oi
			r.Case("very deep models", func() string { return fmt.Sprintf("%d layers, optimizer %d", depth, oi) }, func(c *core.C) {
				lr := 0.1 / float64(depth)
				o := []*ref.Opt{sgd(lr, 0, 0), sgd(lr, 0.1, 0.5), adam(lr, 0)}[oi]
				n := &ref.Net{Loss: ref.MSE}
				for i := 0; i < depth; i++ {
					n.Layers = append(n.Layers, &ref.Layer{Kind: ref.Linear, In: 1, Out: 1, W: M{{1 + 0.1*gen(i)/float64(depth)}}, B: []float64{0}})
				}
				fitCompare(c, n, o, M{{1}, {0.5}, {-0.5}}, M{{2}, {0}, {1}}, []fitCall{{1, 0}, {1, 2}})
			})
		}
	}
	// deeper models: every layer is updated with its own gradient and optimizer
	for depth := 1; depth <= 48; depth++ {
		for _, o := range opts {
			depth, o := depth, o
			r.Case("deep models", func() string { return fmt.Sprintf("%d layers %s", depth, optName(o)) }, func(c *core.C) {
				n := &ref.Net{Loss: ref.MSE}
				for i := 0; i < depth; i++ {
					n.Layers = append(n.Layers, refLayer(pick(i%2 == 0, ref.Sigmoid, ref.Linear), 2, 2, i))
				}
				fitCompare(c, n, o, genM(5, 2, 3), genM(5, 2, 4), []fitCall{{2, 2}, {1, 0}})
				if depth > 1 { // and the last but one drops everything
					n.Layers[depth-2] = refLayer(ref.Dropout, 2, 2, depth)
					n.Layers[depth-2].Rate = 1
					fitCompare(c, n, o, genM(5, 2, 3), genM(5, 2, 4), []fitCall{{2, 2}, {1, 0}})
				}
			})
		}
	}
	// the log interval and validation data do not change what is trained
	n := fitNets()[1]
	for _, le := range []int{0, 1, 2} {
		for _, val := range []bool{false, true} {
			le, val := le, val
			r.Case("validation data unchanged", func() string { return fmt.Sprint(le, val) }, func(c *core.C) {
				x, y, vx, vy := genM(4, 2, 1), labels(n.Loss, 4, 2, 1), genM(3, 2, 7), labels(n.Loss, 3, 2, 2)
				X, Y, VX, VY := mat(x), mat(y), nn.Matrix{}, nn.Matrix{}
				if val {
					VX, VY = mat(vx), mat(vy)
				}
				m := n.Clone()
				m.SetOpt(opts[0])
				h := buildModel(m, opts[0], 1, 0.1)
				noErr(c, "Fit", h.Mod.Fit(X, Y, 3, 2, VX, VY, le))
				c.Step(1)
				m.Fit(x, y, 3, 2)
				wantParams(c, "after Fit", h, m, tolFit)
				untouched(c, "X", X, x)
				untouched(c, "Y", Y, y)
				if val {
					untouched(c, "xVal", VX, vx)
					untouched(c, "yVal", VY, vy)
				}
			})
		}
	}
}

func structured12(r *core.Run) {
	all := everyPat()
	skip := func(k int) bool {
		return patNames[k] == "1e100 scale" || patNames[k] == "rows +-800" || patNames[k] == "large first entry" || patNames[k] == "row magnitudes"
	}
	opts := []*ref.Opt{sgd(0.2, 0.5, 0), sgd(0.1, 0, 0.5), adam(0.02, 0.05)}
	for ni, n := range append(smooth(2, 2), fitNets()[0]) {
		for oi, o := range opts {
			for _, xi := range all {
				for _, yi := range all {
					if skip(xi) || skip(yi) || n.Loss != ref.MSE && yi > 4 {
						continue
					}
					if !r.Thorough && (xi+yi+oi+ni)%2 == 1 {
						continue
					}
					if o.Adam && (patNames[xi] != "generic" || patNames[yi] != "generic") && ni == 3 {
						continue // a gradient of rounding noise against 0 turns Adam's step over
					}
					n, o, xi, yi := n, o, xi, yi
					r.Case("structured data", func() string {
						return fmt.Sprintf("%s %s X=%s labels %d", netName(n), optName(o), patNames[xi], yi)
					}, func(c *core.C) {
						x, y := pattern(xi, 4, 2, 3), pattern(yi, 4, 2, 4)
						switch n.Loss {
						case ref.CE:
							y = oneHot(4, 2, yi)
							if yi >= 2 {
								for i := range y {
									y[i] = []float64{0, 0}
									y[i][yi%2] = 1
								}
							}
						case ref.BCE:
							y = bitLabels(4, 2, yi)
							if yi < 2 {
								y = ref.Map(y, func(float64) float64 { return float64(yi) })
							}
						}
						fitCompare(c, n, o, x, y, []fitCall{{2, 2}, {1, 3}, {1, 0}})
					})
				}
			}
		}
	}
	// one weight over dyadic numbers: every operation is exact, so the
	// parameters must be met bit for bit, including at and after a loss of 0
	D := []float64{0, 1, -1, 0.5, 2}
	product([]int{len(D), 3, len(D), len(D), 3, 3, 3}, func(ix []int) {
		w, b, x, y := D[ix[0]], D[ix[1]], D[ix[2]], D[ix[3]]
		lr, mom, loss := []float64{0.25, 0.5, 1}[ix[4]], []float64{0, 0.5, 1}[ix[5]], ref.MSE
		rows := ix[6] + 1
		r.Case("one weight", func() string {
			return fmt.Sprintf("w=%v b=%v x=%v y=%v lr=%v momentum=%v rows %d", w, b, x, y, lr, mom, rows)
		}, func(c *core.C) {
			c.Trace()
			n := &ref.Net{Loss: loss, Layers: []*ref.Layer{{Kind: ref.Linear, In: 1, Out: 1, W: M{{w}}, B: []float64{b}}}}
			o := sgd(lr, 0, mom)
			n.SetOpt(o)
			h := buildModel(n, o, 0, 0.1)
			X, Y := M{{x}, {x / 2}, {-x}}[:rows], M{{y}, {y / 2}, {0}}[:rows]
			for call := 0; call < 4; call++ {
				noErr(c, "Fit", h.Mod.Fit(mat(X), mat(Y), 1+call%2, 1, nn.Matrix{}, nn.Matrix{}, 0))
				c.Step(1)
				n.Fit(X, Y, 1+call%2, 1)
				wantParams(c, fmt.Sprintf("after call %d", call+1), h, n, 1e-13)
				for _, p := range netParams(n) {
					c.State(core.HashF(core.Hash("one", rows), p...))
				}
			}
		})
	})
	// many epochs over problems whose loss falls, stays, swings or grows while the
	// parameters move, with and without a log
	product([]int{2, 3, 2, 4, 3, 3}, func(ix []int) {
		w, x, y := float64(ix[0]), []float64{1, 0.5, -1}[ix[1]], []float64{0.75, -1}[ix[2]]
		lr, mom, le := []float64{0.25, 0.5, 0.505, 1e-9}[ix[3]], []float64{0, 0.5, 1}[ix[4]], ix[5]
		r.Case("many epochs", func() string {
			return fmt.Sprintf("w=%v x=%v y=%v lr=%v momentum=%v log every %d", w, x, y, lr, mom, le)
		}, func(c *core.C) {
			c.Trace()
			n := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{{Kind: ref.Linear, In: 1, Out: 1, W: M{{w}}, B: []float64{0}}}}
			o := sgd(lr, 0, mom)
			n.SetOpt(o)
			h := buildModel(n, o, 0, 0.1)
			for _, epochs := range []int{7, 40, 200, pick(ix[0] == 1, 1500, 1)} {
				noErr(c, "Fit", h.Mod.Fit(mat(M{{x}}), mat(M{{y}}), epochs, 1, nn.Matrix{}, nn.Matrix{}, le))
				c.Step(1)
				n.Fit(M{{x}}, M{{y}}, epochs, 1)
				wantParams(c, fmt.Sprintf("after %d more epochs", epochs), h, n, 1e-9)
				for _, p := range netParams(n) {
					c.State(core.HashF(core.Hash("many", le), p...))
				}
			}
		})
	})
	// calls that train nothing, refused or not, between training calls: the
	// optimizers keep their state, the parameters theirs
	between := []string{"train 2 epochs", "train 1 epoch", "0 epochs", "negative batch size", "labels of another number of rows", "features of another size", "empty data", "save", "save to a file", "another finish, refused", "another layer, refused"}
	words(len(between), 3, pick(r.Max, 5, 4), func(w []int) {
		if w[0] > 1 { // begins with training
			return
		}
		w = cp(w)
		for oi, o := range []*ref.Opt{sgd(0.1, 0.3, 0.9), adam(0.03, 0.2)} {
			oi, o := oi, o
			if oi != len(w)%2 && !r.Max && len(w) > 3 && w[1]%2 == oi {
				continue
			}
			r.Case("calls between", func() string {
				var t []string
				for _, k := range w {
					t = append(t, between[k])
				}
				return fmt.Sprintf("%s %v", optName(o), t)
			}, func(c *core.C) {
				c.Trace()
				n := fitNets()[(w[1]+len(w))%4].Clone()
				n.SetOpt(o)
				h := buildModel(n, o, 0, 0.1)
				x, y := genM(3, 2, 1), labels(n.Loss, 3, 2, 2)
				X, Y := mat(x), mat(y)
				none := nn.Matrix{}
				for step, op := range append(cp(w), 1) {
					var err error
					refused := false
					switch op {
					case 0:
						err = h.Mod.Fit(X, Y, 2, 2, none, none, 0)
						n.Fit(x, y, 2, 2)
					case 1:
						err = h.Mod.Fit(X, Y, 1, 0, none, none, 0)
						n.Fit(x, y, 1, 0)
					case 2:
						err = h.Mod.Fit(X, Y, 0, step%3, none, none, 0)
					case 3:
						err, refused = h.Mod.Fit(X, Y, 2, -1-step, none, none, 0), true
					case 4:
						err, refused = h.Mod.Fit(X, mat(labels(n.Loss, 4, 2, 2)), 2, 2, none, none, 0), true
					case 5:
						err, refused = h.Mod.Fit(mat(genM(3, 4, 1)), Y, 2, 2, none, none, 0), true
					case 6:
						h.Mod.Fit(none, none, 2, 2, none, none, 0) // refused or not, there is nothing to train on
					case 7:
						saveBytes(c, h.Mod)
					case 8:
						f := filepath.Join(scratch(), "between")
						err = nn.SaveFile(&h.Mod, f)
						os.Remove(f)
					case 9:
						err, refused = h.Mod.Finalize(mustLoss(n.Loss, 5), mustOpt(sgd(0.5, 0, 0)), 0, 0.1), true
					case 10:
						err, refused = h.Mod.AddLayer(fromRef(refLayer(ref.Linear, 5, 2, 1)).L), true
					}
					c.Step(1)
					if refused && err == nil {
						c.Failf("step %d (%s) was accepted", step, between[op])
					}
					if !refused {
						noErr(c, between[op], err)
					}
					wantParams(c, fmt.Sprintf("after step %d (%s)", step, between[op]), h, n, tolFit)
					untouched(c, "X", X, x)
					untouched(c, "Y", Y, y)
					c.State(core.Hash("between", oi, w[:min(step+1, len(w))]))
				}
			})
		}
	})
	// unusual optimizer settings reach every layer's optimizer
	D2 := []float64{1e-9, 1.0 / 4096, 0.3, 2, 5, 1000}
	for _, d := range []float64{0, 1e-6, 1.0 / 4096, 0.3, 2, 5, 1000} {
		for _, m := range append([]float64{0, 0.999, 1.25}, D2...) {
			for _, lr := range []float64{1e-9, 1.0 / 64, 3} {
				d, m, lr := d, m, lr
				r.Case("unusual optimizers", func() string { return fmt.Sprintf("lr=%v decay=%v momentum=%v", lr, d, m) }, func(c *core.C) {
					unusual12(c, sgd(lr, d, m))
				})
			}
		}
		for _, b := range [][2]float64{{0, 0}, {1e-6, 0.5}, {0.5, 1e-6}, {0.999, 0.9}, {0.9, 0.999999}} {
			for _, e := range []float64{1e-12, 1e-3, 10} {
				d, b, e := d, b, e
				r.Case("unusual optimizers", func() string { return fmt.Sprintf("adam decay=%v betas=%v epsilon=%v", d, b, e) }, func(c *core.C) {
					unusual12(c, &ref.Opt{Adam: true, LR: 0.03, Decay: d, Epsilon: e, Beta1: b[0], Beta2: b[1]})
				})
			}
		}
	}
	// finished again between training calls: fresh optimizers of the new kind
	words(4, 2, pick(r.Max, 7, pick(r.Thorough, 6, 5)), func(w []int) {
		w = cp(w)
		re := []*ref.Opt{nil, sgd(0.1, 0.2, 0.5), adam(0.03, 0), sgd(0.3, 0, 0)}
		for ni, n0 := range []*ref.Net{fitNets()[0], fitNets()[1]} {
			ni, n0 := ni, n0
			r.Case("finished again", func() string {
				return fmt.Sprintf("%s ops %v (0 train, 1-3 finish with %s, %s, %s)", netName(n0), w, optName(re[1]), optName(re[2]), optName(re[3]))
			}, func(c *core.C) {
				c.Trace()
				n := n0.Clone()
				o := sgd(0.1, 0.1, 0.9)
				n.SetOpt(o)
				h := buildModel(n, o, 0, 0.1)
				x, y := genM(3, 2, 1), labels(n.Loss, 3, 2, 2)
				for step, op := range append(cp(w), 0) {
					if op == 0 {
						noErr(c, "Fit", h.Mod.Fit(mat(x), mat(y), 2, 2, nn.Matrix{}, nn.Matrix{}, 0))
						n.Fit(x, y, 2, 2)
					} else {
						n.SetOpt(re[op])
						noErr(c, "Finalize", h.Mod.Finalize(mustLoss(n.Loss, 2), mustOpt(re[op]), 0, 0.1))
					}
					c.Step(1)
					wantParams(c, fmt.Sprintf("after step %d", step), h, n, tolFit)
					c.State(core.Hash("again", ni, w[:min(step+1, len(w))]))
				}
			})
		}
	})
	// one model trained and finished very many times
	for ni, n0 := range append(fitNets()[:1], smooth(2, 2)...) {
		for oi, o := range []*ref.Opt{sgd(0.1, 0.05, 0), sgd(0.05, 0, 0.5), adam(0.02, 0.1)} {
			for mode := 0; mode < 3; mode++ {
				ni, n0, oi, o, mode := ni, n0, oi, o, mode
				r.Case("long history", func() string {
					return fmt.Sprintf("%s %s, %s", netName(n0), optName(o), []string{"trained", "trained and finished", "finished ten times for each training"}[mode])
				}, func(c *core.C) {
					c.Trace()
					n := n0.Clone()
					n.SetOpt(o)
					h := buildModel(n, o, 0, 0.1)
					for step := 0; step < pick(r.Max, 20000, 1300); step++ {
						x, y := genM(3, 2, step%5), labels(n.Loss, 3, 2, step%3)
						noErr(c, "Fit", h.Mod.Fit(mat(x), mat(y), 1+step%2, step%4, nn.Matrix{}, nn.Matrix{}, 0))
						n.Fit(x, y, 1+step%2, step%4)
						c.Step(1)
						wantParams(c, fmt.Sprintf("after training call %d", step+1), h, n, tolFit)
						if step%20 == 19 { // rounding does not add up
							for i, l := range n.Layers {
								l.W, l.B = h.Layers[i].params(c)
							}
						}
						for k := 0; mode == 1 && step%7 == 0 && k < 1 || mode == 2 && k < 10; k++ {
							n.SetOpt(o)
							noErr(c, "Finalize", h.Mod.Finalize(mustLoss(n.Loss, 2), mustOpt(o), 0, 0.1))
						}
						c.State(core.HashF(core.Hash("long", ni, oi, mode), n.Layers[0].W[0]...))
					}
				})
			}
		}
	}
	// one optimizer object that finishes two models, several times, and is used by
	// itself in between: it only tells the settings, each layer keeps its own state
	words(5, 1, pick(r.Max, 6, pick(r.Thorough, 5, 4)), func(w []int) {
		w = cp(w)
		for oi, o := range []*ref.Opt{sgd(0.1, 0.1, 0.9), sgd(0.2, 0, 0), adam(0.03, 0.1)} {
			for layers := 1; layers <= 2; layers++ {
				oi, o, layers := oi, o, layers
				r.Case("one optimizer object", func() string {
					return fmt.Sprintf("%s, two models of %d layers, ops %v (0-1 train A/B, 2-3 finish A/B again, 4 use the object itself)", optName(o), layers, w)
				}, func(c *core.C) {
					c.Trace()
					object := mustOpt(o)
					var hs [2]*MH
					var ns [2]*ref.Net
					finish := func(k int) {
						ns[k].SetOpt(o)
						noErr(c, "Finalize", hs[k].Mod.Finalize(mustLoss(ref.MSE, 2), object, 0, 0.1))
					}
					for k := range ns {
						n := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{refLayer(ref.Linear, 2, 2, 3+k)}}
						if layers == 2 {
							n.Layers = append(n.Layers, refLayer(ref.Sigmoid, 2, 2, 7+k))
						}
						ns[k], hs[k] = n, buildModel(n, o, 0, 0.1)
						finish(k)
					}
					ow, ob := mat(genM(2, 2, 5)), mat(genM(1, 2, 6))
					x, y := genM(3, 2, 1), genM(3, 2, 2)
					for step, op := range append(cp(w), 0, 1) {
						switch op {
						case 0, 1:
							noErr(c, "Fit", hs[op].Mod.Fit(mat(x), mat(y), 1, 2, nn.Matrix{}, nn.Matrix{}, 0))
							ns[op].Fit(x, y, 1, 2)
						case 2, 3:
							finish(op - 2)
						case 4:
							noErr(c, "Update", object.Update(&ow, &ob, mat(genM(2, 2, 8)), mat(genM(1, 2, 9))))
						}
						c.Step(1)
						for k := range ns {
							wantParams(c, fmt.Sprintf("model %d after step %d", k, step), hs[k], ns[k], tolFit)
						}
						c.State(core.Hash("object", oi, layers, w[:min(step+1, len(w))], min(step, len(w)+1)))
					}
				})
			}
		}
	})
}

// unusual12 trains a deep model in several calls, finishing it again in between,
// and compares the movement of the parameters.
func unusual12(c *core.C, o *ref.Opt) {
	c.Trace()
	n := &ref.Net{Loss: ref.MSE}
	for i := 0; i < 5; i++ {
		n.Layers = append(n.Layers, refLayer(pick(i == 2, ref.Sigmoid, ref.Linear), 1, 1, i))
	}
	n.SetOpt(o)
	h := buildModel(n, o, 0, 0.1)
	x, y := genM(3, 1, 1), genM(3, 1, 2)
	moved := make([]float64, 2*len(n.Layers))
	for call := 0; call < 4; call++ {
		before := netParams(n)
		if call == 2 {
			n.SetOpt(o)
			noErr(c, "Finalize", h.Mod.Finalize(mustLoss(n.Loss, 1), mustOpt(o), 0, 0.1))
		}
		for e := 0; e <= call%2; e++ {
			noErr(c, "Fit", h.Mod.Fit(mat(x), mat(y), 1, 2, nn.Matrix{}, nn.Matrix{}, 0))
			c.Step(1)
			n.Fit(x, y, 1, 2)
			after, got := netParams(n), h.params()
			for l := range after {
				for k := range after[l] {
					moved[2*l+k] += math.Abs(after[l][k] - before[l][k])
					tol := 1e-6*moved[2*l+k] + 1e-13*math.Abs(after[l][k])
					if o.Adam {
						tol += 1e-7 * o.LR
					}
					if a := math.Abs(after[l][k]); a > 1e6 || a != a {
						return // diverged: rounding is amplified
					}
					if !core.Same(got[l][k], after[l][k]) && !(math.Abs(got[l][k]-after[l][k]) <= tol) {
						c.Failf("call %d, layer %d, parameter %d is %v, want %v (moved %v)", call+1, l, k, got[l][k], after[l][k], moved[2*l+k])
					}
				}
			}
			before = after
		}
		for _, p := range netParams(n) {
			c.State(core.HashF(core.Hash("unusual", optName(o)), p...))
		}
	}
}
