package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
	"nnverif/seam/vsched"
)

func init() { checks["C20"] = c20 }

// shared is training data that every object may read.
type shared struct{ x, y, d nn.Matrix }

func newShared() *shared {
	return &shared{mat(genM(3, 2, 1)), mat(oneHot(3, 2, 1)), mat(genM(3, 2, 5))}
}

// script makes an object and returns the operations on it; each returns what
// it observed. dir is private scratch space.
type script struct {
	name string
	make func(s *shared, dir string) []func() string
	disk bool // slow
	// variants are other configurations of an object; they only meet their own family
	fam     string
	variant bool
	large   bool // only the main orders
	noSched bool // interleavings and conflicting accesses only
}

func pairOK(a, b script) bool { return !a.variant && !b.variant || a.fam == b.fam }

func m3(a, b, c nn.Matrix, err error) string {
	return errStr(err) + bitsStr(a) + bitsStr(b) + bitsStr(c)
}

// fileStr shows a saved model; the order of the optimizer values is free.
func fileStr(b []byte) string {
	f, used, verdict, why := ref.Decode(b)
	sort.Slice(f.Values, func(i, j int) bool { return f.Values[i].Key < f.Values[j].Key })
	return fmt.Sprint(len(b), used, verdict, why, fmt.Sprintf("%x", f.Encode()))
}

func c20scripts() []script {
	var o []script
	for kk := 0; kk < 18; kk++ {
		k, v := kk%6, kk/6
		name := ref.KindName[k] + " layer" + []string{"", " with other parameters", " of another size"}[v]
		o = append(o, script{name: name, fam: fmt.Sprint("layer", k), variant: v > 0, make: func(s *shared, _ string) []func() string {
			var h *LH
			mk := func() string {
				l := refLayer(k, 2, 2, k+50*v)
				l.Rate = 0
				if k == ref.Leaky && v > 0 {
					l.Slope = 0.7
				}
				h = fromRef(l)
				return ""
			}
			if v == 2 {
				return []func() string{
					func() string { l := refLayer(k, 3, 4, k+50); l.Rate = 0; h = fromRef(l); return "" },
					func() string { m, err := h.L.Forward(mat(genM(2, 3, 7))); return errStr(err) + bitsStr(m) },
					func() string { return m3(h.L.Backward(mat(genM(2, 3, 7)), mat(genM(2, 4, 8)))) },
					func() string { m, err := h.infer(mat(genM(5, 3, 9))); return errStr(err) + bitsStr(m) },
				}
			}
			return []func() string{
				mk,
				func() string { m, err := h.L.Forward(s.x); return errStr(err) + bitsStr(m) },
				func() string { return m3(h.L.Backward(s.x, s.d)) },
				func() string {
					m, err := h.infer(s.d)
					a := errStr(err) + bitsStr(m)
					return a + m3(h.L.Backward(s.d, s.x))
				},
			}
		}})
	}
	for k := 0; k < 4; k++ {
		k := k
		o = append(o, script{name: ref.LossName[k] + " loss of another size", fam: fmt.Sprint("loss", k), variant: true, make: func(s *shared, _ string) []func() string {
			var l nn.Loss
			p := ref.Map(genM(2, 3, 14+k), func(v float64) float64 { return (v + 1.1) / 2.3 })
			y := labels(k, 2, 3, 1)
			return []func() string{
				func() string { l = mustLoss(k, 3); return "" },
				func() string { v, err := l.Forward(mat(p), mat(y)); return fmt.Sprintf("%s %x", errStr(err), v) },
				func() string { g, err := l.Backward(mat(p), mat(y)); return errStr(err) + bitsStr(g) },
				func() string { v, err := l.Forward(mat(y), mat(y)); return fmt.Sprintf("%s %x", errStr(err), v) },
			}
		}})
		o = append(o, script{name: ref.LossName[k] + " loss", fam: fmt.Sprint("loss", k), make: func(s *shared, _ string) []func() string {
			var l nn.Loss
			p := ref.Map(genM(3, 2, 4+k), func(v float64) float64 { return (v + 1.1) / 2.3 })
			return []func() string{
				func() string { l = mustLoss(k, 2); return "" },
				func() string { v, err := l.Forward(mat(p), s.y); return fmt.Sprintf("%s %x", errStr(err), v) },
				func() string { g, err := l.Backward(mat(p), s.y); return errStr(err) + bitsStr(g) },
				func() string { v, err := l.Forward(s.y, s.y); return fmt.Sprintf("%s %x", errStr(err), v) },
			}
		}})
	}
	oos := []*ref.Opt{sgd(0.1, 0.1, 0.9), sgd(0.3, 0, 0), adam(0.05, 0.1),
		sgd(0.7, 0.3, 0.9), sgd(0.1, 0.1, 0.2), sgd(0.2, 0.4, 0), sgd(0.1, 0, 0.6),
		adam(0.2, 0), {Adam: true, LR: 0.05, Decay: 0.1, Epsilon: 1e-3, Beta1: 0.9, Beta2: 0.999}, {Adam: true, LR: 0.05, Decay: 0.1, Epsilon: 1e-7, Beta1: 0.5, Beta2: 0.9}}
	for i, oo := range oos {
		i, oo := i, oo
		o = append(o, script{name: optName(oo), fam: "optimizer", variant: i > 2, make: func(s *shared, _ string) []func() string {
			var op nn.Optimizer
			W, B := mat(genM(3, 2, i)), mat(genM(1, 2, i+1))
			step := func(g int) func() string {
				return func() string {
					err := op.Update(&W, &B, s.d, mat(genM(1, 2, g)))
					return errStr(err) + bitsStr(W) + bitsStr(B)
				}
			}
			return []func() string{func() string { op = mustOpt(oo); return "" }, step(1), step(2), step(3)}
		}})
	}
	nets := fitNets()
	for _, n := range fitNets()[:3] { // the same structures with other parameters
		n = n.Clone()
		for i, l := range n.Layers {
			l.W, l.B = genM(l.In, l.Out, 90+i), genM(1, l.Out, 95+i)[0]
			if l.Kind == ref.Leaky {
				l.Slope = 0.6
			}
		}
		nets = append(nets, n)
	}
	for ni, n := range nets {
		ni, n := ni, n
		oo := []*ref.Opt{sgd(0.1, 0.1, 0.9), adam(0.05, 0.1)}[ni%2]
		name := "model " + netName(n)
		if ni >= 6 {
			oo = []*ref.Opt{sgd(0.3, 0.2, 0.4), adam(0.2, 0.3)}[ni%2]
			name += " with other parameters"
		}
		o = append(o, script{name: name, fam: "model", variant: ni >= 6, make: func(s *shared, _ string) []func() string {
			var h *MH
			y := s.y
			state := func() string {
				t := ""
				for _, p := range h.params() {
					t += fmt.Sprintf("%x", p)
				}
				return t
			}
			return []func() string{
				func() string { h = buildModel(n, oo, ni%3, pick(ni >= 6, 0.1, 0.3)); return state() },
				func() string {
					return errStr(h.Mod.Fit(s.x, y, 1, 2, nn.Matrix{}, nn.Matrix{}, 0)) + state()
				},
				func() string {
					p, err := h.Mod.Predict(s.x)
					v, e2 := h.Mod.CalculateLoss(s.x, y)
					a, e3 := h.Mod.CalculateAccuracy(s.x, y)
					return fmt.Sprintf("%s%s%s%s %x %x", errStr(err), errStr(e2), errStr(e3), bitsStr(p), v, a)
				},
				func() string {
					return errStr(h.Mod.Fit(s.x, y, 2, 0, s.x, y, 1)) + state()
				},
			}
		}})
	}
	save := func(h *MH) string {
		d := nn.NewSavedModelData(h.Mod)
		var b bytes.Buffer
		err := d.Serialize(&b)
		return errStr(err) + fileStr(b.Bytes())
	}
	o = append(o, script{name: "saving and loading", make: func(s *shared, dir string) []func() string {
		var h *MH
		var data string
		return []func() string{
			func() string { h = buildModel(fitNets()[2], adam(0.1, 0.2), 2, 0.5); data = save(h); return data },
			func() string {
				d := nn.NewSavedModelData(h.Mod)
				var b bytes.Buffer
				d.Serialize(&b)
				m, err := nn.LoadModel(&b)
				h = wrapModel(m)
				return errStr(err)
			},
			func() string {
				return errStr(h.Mod.Fit(s.x, s.y, 1, 2, nn.Matrix{}, nn.Matrix{}, 0)) + save(h)
			},
			func() string {
				_, err := nn.LoadModel(bytes.NewBufferString("CNNM none"))
				p, err2 := h.Mod.Predict(s.x)
				return errStr(err) + errStr(err2) + bitsStr(p)
			},
		}
	}})
	o = append(o, script{name: "model files", disk: true, make: func(s *shared, dir string) []func() string {
		var h *MH
		f := filepath.Join(dir, "m.bin")
		return []func() string{
			func() string { h = buildModel(fitNets()[1], sgd(0.1, 0.2, 0.5), 1, 0.5); return "" },
			func() string { return errStr(nn.SaveFile(&h.Mod, f)) },
			func() string {
				m, err := nn.LoadFile(f)
				if err == nil {
					h = wrapModel(m)
				}
				return errStr(err) + save(h)
			},
			func() string { p, err := h.Mod.Predict(s.x); return errStr(err) + bitsStr(p) },
		}
	}})
	o = append(o, script{name: "matrices", make: func(s *shared, _ string) []func() string {
		var a, b nn.Matrix
		return []func() string{
			func() string { a = s.x.T(); b = s.x.MulScalar(2); return bitsStr(a) + bitsStr(b) },
			func() string { p, err := a.Dot(b); e := a.Set(0, 0, 5); return errStr(err) + errStr(e) + bitsStr(p) },
			func() string {
				e := b.SetRow(1, []float64{8, 9})
				q, err := b.Add(s.d)
				return errStr(e) + errStr(err) + bitsStr(q) + bitsStr(b.Sum(0)) + bitsStr(b.Sum(1))
			},
			func() string {
				q := nn.RELU(b.AddScalar(-3))
				w := nn.Softmax(b.Neg())
				return bitsStr(q) + bitsStr(w) + bitsStr(a)
			},
		}
	}})
	o = append(o, script{name: "labels and accuracies", make: func(s *shared, _ string) []func() string {
		return []func() string{
			func() string { m, err := nn.SparseToOneHot(nn.RowMax(s.y), 4); return errStr(err) + bitsStr(m) },
			func() string {
				return fmt.Sprint(nn.CategoricalAccuracy(s.x, s.y), nn.RegressionAccuracy(s.x, s.y, 0.7))
			},
			func() string { return fmt.Sprint(nn.BinaryCategoricalAccuracy(s.x, s.y)) },
			func() string { return bitsStr(nn.OutputBinaryValues(s.x.MulScalar(3))) },
		}
	}})
	// objects that use randomness only have to leave the others alone
	o = append(o, script{name: "initialising and dropping", make: func(s *shared, _ string) []func() string {
		var h *MH
		n := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{refLayer(ref.Dropout, 2, 4, 1), refLayer(ref.Linear, 4, 2, 2)}}
		return []func() string{
			func() string { h = buildModel(n, adam(0.1, 0), 0, 0.1); return "" },
			func() string { h.Mod.InitLayers(); return "" },
			func() string { return errStr(h.Mod.Fit(s.x, s.d, 2, 2, nn.Matrix{}, nn.Matrix{}, 0)) },
			func() string {
				nn.ShuffleDataset(mat(genM(4, 2, 1)), mat(genM(4, 2, 2)))
				h.Mod.InitLayers()
				return ""
			},
		}
	}})
	o = append(o, script{name: "rejected calls", make: func(s *shared, _ string) []func() string {
		h := &MH{}
		return []func() string{
			func() string { h = buildModel(fitNets()[3], adam(0.1, 0), 0, 0.1); return "" },
			func() string {
				_, e := h.Mod.Predict(mat(genM(2, 5, 1)))
				return errStr(e) + errStr(h.Mod.Fit(mat(genM(2, 5, 1)), s.y, 1, 0, nn.Matrix{}, nn.Matrix{}, 0))
			},
			func() string {
				e := h.Mod.Finalize(mustLoss(ref.MSE, 9), mustOpt(sgd(1, 0, 0)), 1, 0)
				_, e2 := nn.NewLayer(0, 1)
				_, e3 := nn.SparseToOneHot(s.d, 1)
				return errStr(e) + errStr(e2) + errStr(e3)
			},
			func() string { p, e := h.Mod.Predict(s.x); return errStr(e) + bitsStr(p) },
		}
	}})
	for _, z := range [][3]int{{1, 1, 1}, {2, 3, 1}, {2, 1, 2}, {17, 20, 18}, {34, 33, 35}} {
		o = append(o, sizedScripts(z[0], z[1], z[2])...)
	}
	return o
}

// sizedScripts are objects of one size and batch size; they meet their own family.
func sizedScripts(rows, in, out int) []script {
	tag := fmt.Sprintf(" %d rows %dx%d", rows, in, out)
	show := func(m nn.Matrix, err error) string { return fmt.Sprintf("%s%x;", errStr(err), core.Hash(bitsStr(m))) }
	one := func(name string, f func(s *shared, dir string) []func() string) script {
		return script{name: name + tag, fam: tag, variant: true, noSched: true, large: rows > 2, make: f}
	}
	layers := one("layers", func(*shared, string) []func() string {
		var hs []*LH
		each := func(f func(i int, h *LH) string) string {
			t := ""
			for i, h := range hs {
				t += f(i, h)
			}
			return t
		}
		return []func() string{
			func() string {
				for k := 0; k < 6; k++ {
					l := refLayer(k, in, out, k+rows)
					l.Rate = 0
					hs = append(hs, fromRef(l))
				}
				return ""
			},
			func() string {
				return each(func(i int, h *LH) string { return show(h.L.Forward(mat(genM(rows, in, i)))) })
			},
			func() string {
				return each(func(i int, h *LH) string {
					a, b, d, err := h.L.Backward(mat(genM(rows, in, i)), mat(genM(rows, out, i+1)))
					return show(a, err) + show(b, nil) + show(d, nil)
				})
			},
			func() string {
				return each(func(i int, h *LH) string {
					return show(h.infer(mat(genM(rows, in, i+7)))) + show(*h.W(), nil) + show(*h.B(), nil)
				})
			},
		}
	})
	steps := one("losses and optimizers", func(*shared, string) []func() string {
		var ls []nn.Loss
		var os []nn.Optimizer
		oo := []*ref.Opt{sgd(0.1, 0.1, 0.9), sgd(0.3, 0, 0), adam(0.05, 0.1)}
		p := ref.Map(genM(rows, out, 4), func(v float64) float64 { return (v + 1.1) / 2.3 })
		W, B := mat(genM(in, out, 5)), mat(genM(1, out, 6))
		update := func(g int) string {
			t := ""
			for i, o := range os {
				t += show(W, o.Update(&W, &B, mat(genM(in, out, g+i)), mat(genM(1, out, g+i+1)))) + show(B, nil)
			}
			return t
		}
		return []func() string{
			func() string {
				for k := 0; k < 4; k++ {
					ls = append(ls, mustLoss(k, out))
				}
				for _, o := range oo {
					os = append(os, mustOpt(o))
				}
				return ""
			},
			func() string {
				t := ""
				for k, l := range ls {
					v, err := l.Forward(mat(p), mat(labels(k, rows, out, 1)))
					t += fmt.Sprintf("%s%x", errStr(err), v) + show(l.Backward(mat(p), mat(labels(k, rows, out, 1))))
				}
				return t + update(1)
			},
			func() string { return update(9) },
			func() string { return update(17) },
		}
	})
	model := one("models", func(*shared, string) []func() string {
		var hs []*MH
		x := genM(rows, in, 3)
		return []func() string{
			func() string {
				for k := 0; k < 3; k++ {
					last := []int{ref.Linear, ref.Softmax, ref.Sigmoid}[k]
					n := &ref.Net{Loss: []int{ref.MSE, ref.CE, ref.BCE}[k], Layers: []*ref.Layer{refLayer(ref.Leaky, in, out, k), refLayer(last, out, out, k+9)}}
					hs = append(hs, buildModel(n, []*ref.Opt{sgd(0.1, 0.1, 0.9), adam(0.05, 0.1)}[k%2], k, 0.3))
				}
				return ""
			},
			func() string {
				t := ""
				for k, h := range hs {
					y := labels([]int{ref.MSE, ref.CE, ref.BCE}[k], rows, out, 1)
					t += errStr(h.Mod.Fit(mat(x), mat(y), 1, (rows+1)/2, nn.Matrix{}, nn.Matrix{}, 0))
				}
				return t
			},
			func() string {
				t := ""
				for k, h := range hs {
					y := labels([]int{ref.MSE, ref.CE, ref.BCE}[k], rows, out, 1)
					v, e := h.Mod.CalculateLoss(mat(x), mat(y))
					a, e2 := h.Mod.CalculateAccuracy(mat(x), mat(y))
					t += show(h.Mod.Predict(mat(x))) + fmt.Sprintf("%s%s%x %x", errStr(e), errStr(e2), v, a)
				}
				return t
			},
			func() string {
				t := ""
				for _, h := range hs {
					d := nn.NewSavedModelData(h.Mod)
					var b bytes.Buffer
					t += errStr(d.Serialize(&b)) + fmt.Sprintf("%x", core.Hash(fileStr(b.Bytes())))
				}
				return t
			},
		}
	})
	misc := one("matrices and labels", func(*shared, string) []func() string {
		a, b := mat(genM(rows, in, 1)), mat(genM(in, out, 2))
		return []func() string{
			func() string { return show(a.T(), nil) + show(a.MulScalar(2), nil) + show(a.Dot(b)) },
			func() string { return show(a.Sum(0), nil) + show(a.Sum(1), nil) + show(a.Add(a)) + show(a.Sub(a)) },
			func() string { return show(nn.RowMax(a), nil) + show(nn.SparseToOneHot(nn.RowMax(a), in+1)) },
			func() string {
				return show(nn.Sigmoid(a.AddScalar(1)), nil) + show(nn.Softmax(a.Neg()), nil) + show(nn.RELU(a.MulScalar(1)), nil) +
					fmt.Sprint(nn.CategoricalAccuracy(a, a), nn.RegressionAccuracy(a, a, 0.5), nn.BinaryCategoricalAccuracy(a, a))
			},
		}
	})
	return []script{layers, steps, model, misc}
}

var scratchN atomic.Int64

func newScratch(disk bool) (string, func()) {
	if !disk {
		return "", func() {}
	}
	d, err := os.MkdirTemp(os.Getenv("MC_TMP"), "s")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

// alone runs a script by itself.
func alone(sc script) []string {
	d, clean := newScratch(sc.disk)
	defer clean()
	var o []string
	for _, f := range sc.make(newShared(), d) {
		o = append(o, f())
	}
	return o
}

func c20(r *core.Run) {
	r.Rule = "cases: for every ordered pair of objects (layers, losses, optimizers, models of all kinds, saving/loading, matrices, label helpers, initialisation, rejected calls) that share only data they read: every interleaving of their operations, and the main orders of them (thorough: all) as the first thing a fresh process does; every goroutine schedule with a bounded number of preemptions inside the operations; and one truly concurrent execution with the happens-before race detector, whose silence means that no two accesses of the pair conflict, so that all schedules are equivalent; every observation must be bit-identical to the object alone; states are distinct (pair, schedule or interleaving)"
	r.Assume("objects that use randomness have no fixed results of their own; they only run as the other object", "the race detector sees the accesses of the executed paths; its shadow memory keeps the last accesses of each word")
	scs := c20scripts()
	// what every object does alone, in a process of its own
	var ref1 [][]string
	for i, s := range scs {
		o := cold(i, -1, nil)
		if o == nil {
			o = [][]string{alone(s)}
			r.Add("objects_not_run_in_a_process_of_their_own", 1)
		}
		ref1 = append(ref1, o[0])
	}
	check := func(c *core.C, who string, si int, got []string) {
		for k := range got {
			if got[k] != ref1[si][k] {
				c.Failf("%s: operation %d of %q observes\n%s\nalone it observes\n%s", who, k, scs[si].name, got[k], ref1[si][k])
			}
		}
	}
	// operations interleaved
	for a := range scs {
		for b := range scs {
			a, b := a, b
			if b < a || !pairOK(scs[a], scs[b]) {
				continue
			}
			walk := merges
			if scs[a].large {
				walk = mainOrders
			}
			walk(len(ref1[a]), len(ref1[b]), func(w []int) {
				w = cp(w)
				r.Case("interleavings", func() string { return fmt.Sprintf("%q with %q, order %v", scs[a].name, scs[b].name, w) }, func(c *core.C) {
					c.Trace()
					s := newShared()
					d1, cl1 := newScratch(scs[a].disk)
					defer cl1()
					d2, cl2 := newScratch(scs[b].disk)
					defer cl2()
					ops := [][]func() string{scs[a].make(s, d1), scs[b].make(s, d2)}
					var got [2][]string
					for _, t := range w {
						got[t] = append(got[t], ops[t][len(got[t])]())
						c.Step(1)
					}
					check(c, "interleaved", a, got[0])
					check(c, "interleaved", b, got[1])
					c.State(core.Hash("il", a, b, fmt.Sprint(w)))
				})
			})
		}
	}
	// the two objects first of all in a fresh process
	type coldJob struct {
		a, b int
		w    []int
	}
	var jobs []coldJob
	for a := range scs {
		for b := a; b < len(scs); b++ {
			if !pairOK(scs[a], scs[b]) {
				continue
			}
			n, m := len(ref1[a]), len(ref1[b])
			all := [][]int{}
			merges(n, m, func(w []int) { all = append(all, cp(w)) })
			if !r.Thorough || scs[a].large {
				all = nil
				mainOrders(n, m, func(w []int) { all = append(all, w) })
			}
			for _, w := range all {
				jobs = append(jobs, coldJob{a, b, w})
			}
		}
	}
	for i, j := range jobs {
		i, j := i, j
		r.Case("first in the process", func() string { return fmt.Sprintf("%q with %q, order %v", scs[j.a].name, scs[j.b].name, j.w) }, func(c *core.C) {
			c.Trace()
			res := cold(j.a, j.b, j.w)
			if res == nil {
				panic(core.Undecided("a process of its own could not be run"))
			}
			c.Step(len(j.w))
			check(c, "in a fresh process", j.a, res[0])
			check(c, "in a fresh process", j.b, res[1])
			c.State(core.Hash("cold", i))
		})
	}
	// schedules
	type plan struct{ lvl, bound int }
	plans := []plan{{vsched.Stmt, 1}, {vsched.Func, 1}}
	if r.Thorough {
		plans = []plan{{vsched.Stmt, 1}, {vsched.Func, 2}, {vsched.Loop, 2}}
	}
	for _, p := range plans {
		for a := range scs {
			for b := a; b < len(scs); b++ {
				a, b, p := a, b, p
				if !pairOK(scs[a], scs[b]) || scs[a].noSched || scs[b].noSched || scs[a].disk && scs[b].disk && p.bound > 1 || !r.Thorough && (a == b) != (p.lvl == vsched.Stmt) {
					continue
				}
				r.Case("schedules", func() string {
					return fmt.Sprintf("%q with %q, preemption bound %d at %s", scs[a].name, scs[b].name, p.bound, levelName[p.lvl])
				}, func(c *core.C) {
					c.Trace()
					join := func(o []string) string { return strings.Join(o, "\n") }
					d1, cl1 := newScratch(scs[a].disk)
					defer cl1()
					d2, cl2 := newScratch(scs[b].disk)
					defer cl2()
					var before string
					schedules(r, c, func() ([]func() string, func() string) {
						s := newShared()
						before = bitsStr(s.x) + bitsStr(s.y) + bitsStr(s.d)
						run := func(ops []func() string) func() string {
							return func() string {
								var o []string
								for _, f := range ops {
									o = append(o, f())
								}
								return join(o)
							}
						}
						return []func() string{run(scs[a].make(s, d1)), run(scs[b].make(s, d2))}, func() string {
							if before != bitsStr(s.x)+bitsStr(s.y)+bitsStr(s.d) {
								return "shared data was changed"
							}
							return ""
						}
					}, []string{join(ref1[a]), join(ref1[b])}, p.lvl, p.bound, 2000000)
					c.State(core.Hash("sched", a, b, p))
				})
			}
		}
	}
	// conflicting accesses
	raceChild(r, "C20", len(scs), func(a, b int) bool { return pairOK(scs[a], scs[b]) }, func(a, b int) string {
		return fmt.Sprintf("%q with %q at the same time", scs[a].name, scs[b].name)
	}, func(report string) bool { return true })
}

// cold runs script a, or a and b in the given order of operations, in a
// process of its own; nil when there is none to be had.
func cold(a, b int, w []int) [][]string {
	js, _ := json.Marshal(w)
	cmd := exec.Command(os.Args[0], "cold", fmt.Sprint(a), fmt.Sprint(b), string(js))
	out, err := cmd.Output()
	var o [][]string
	if json.Unmarshal(out, &o) == nil {
		return o
	}
	if x, ok := err.(*exec.ExitError); ok && bytes.Contains(x.Stderr, []byte("panic:")) {
		return [][]string{{"panic: " + string(x.Stderr)}, {"panic: " + string(x.Stderr)}}
	}
	return nil
}

// coldRun is the child of cold.
func coldRun(args []string) {
	var a, b int
	var w []int
	fmt.Sscan(args[0], &a)
	fmt.Sscan(args[1], &b)
	json.Unmarshal([]byte(args[2]), &w)
	scs := c20scripts()
	s := newShared()
	d1, c1 := newScratch(scs[a].disk)
	got := make([][]string, 1)
	ops := [][]func() string{scs[a].make(s, d1)}
	if b < 0 {
		for range ops[0] {
			w = append(w, 0)
		}
	} else {
		d2, c2 := newScratch(scs[b].disk)
		defer c2()
		ops = append(ops, scs[b].make(s, d2))
		got = append(got, nil)
	}
	for _, t := range w {
		got[t] = append(got[t], ops[t][len(got[t])]())
	}
	c1()
	out, _ := json.Marshal(got)
	os.Stdout.Write(out)
}

// mainOrders are one after the other, in turn, and nested.
func mainOrders(n, m int, f func(w []int)) {
	var all [][]int
	merges(n, m, func(w []int) { all = append(all, cp(w)) })
	var turn, nest []int
	for i := 0; i < n || i < m; i++ {
		if i < n {
			turn = append(turn, 0)
		}
		if i < m {
			turn = append(turn, 1)
		}
	}
	nest = append(nest, 0, 0)
	for i := 0; i < m; i++ {
		nest = append(nest, 1)
	}
	for i := 2; i < n; i++ {
		nest = append(nest, 0)
	}
	for _, w := range [][]int{all[0], all[len(all)-1], turn, nest} {
		f(w)
	}
}

// merges enumerates the interleavings of two sequences.
func merges(n, m int, f func(w []int)) {
	var w []int
	var rec func(i, j int)
	rec = func(i, j int) {
		if i == n && j == m {
			f(w)
			return
		}
		if i < n {
			w = append(w, 0)
			rec(i+1, j)
			w = w[:len(w)-1]
		}
		if j < m {
			w = append(w, 1)
			rec(i, j+1)
			w = w[:len(w)-1]
		}
	}
	rec(0, 0)
}

// raceChild runs every pair (a,b) of a check truly concurrently in the binary
// built with the race detector, and turns relevant reports into violations.
func raceChild(r *core.Run, id string, n int, ok func(a, b int) bool, desc func(a, b int) string, relevant func(report string) bool) {
	bin := os.Getenv("MC_RACE")
	if bin == "" {
		r.Extra("race_detector", "not available")
		return
	}
	reports := map[[2]int]string{}
	var rmu sync.Mutex
	runPairs := func(arg string) {
		cmd := exec.Command(bin, "race", id, arg)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=5 atexit_sleep_ms=0")
		var buf bytes.Buffer
		cmd.Stderr = &buf
		err := cmd.Run()
		rmu.Lock()
		defer rmu.Unlock()
		cur := [2]int{-1, -1}
		var block []string
		flush := func() {
			if t := strings.Join(block, "\n"); strings.Contains(t, "DATA RACE") && relevant(t) && reports[cur] == "" {
				reports[cur] = t
			}
			block = nil
		}
		for _, l := range strings.Split(buf.String(), "\n") {
			var a, b int
			if k, _ := fmt.Sscanf(l, "PAIR %d %d", &a, &b); k == 2 {
				flush()
				cur = [2]int{a, b}
				continue
			}
			if strings.HasPrefix(l, "=====") && len(block) > 1 {
				flush()
				continue
			}
			block = append(block, l)
		}
		tail := strings.Join(block, "\n")
		if err != nil && (strings.Contains(tail, "fatal error: concurrent map") || strings.Contains(tail, "panic:")) {
			reports[cur] = tail
		}
		flush()
	}
	pairs := 0
	for a := 0; a < n; a++ {
		for b := a; b < n; b++ {
			a, b := a, b
			if !ok(a, b) {
				continue
			}
			r.Case("conflicting accesses", func() string { return desc(a, b) }, func(c *core.C) {
				// in a process of its own: nothing is warm, nothing is left over
				runPairs(fmt.Sprintf("%d,%d", a, b))
				c.Step(1)
				pairs++
				c.State(core.Hash(id, "race", a, b))
				if t := reports[[2]int{a, b}]; t != "" {
					// seen again in a process of its own?
					again := 0
					for k := 0; k < 5; k++ {
						delete(reports, [2]int{a, b})
						runPairs(fmt.Sprintf("%d,%d", a, b))
						if reports[[2]int{a, b}] != "" {
							again++
						}
					}
					reports[[2]int{a, b}] = t
					c.Failf("the two goroutines conflict (%d of 5 re-runs as well): %s", again, t)
				}
			})
		}
	}
	r.Extra("pairs_checked_for_conflicting_accesses", pairs)
}

// raceRun is the child: args are the check and the pairs.
func raceRun(args []string) {
	runtime.GOMAXPROCS(4)
	id, what := args[0], args[1]
	var n int
	var threads func(a, b int) (func(), func())
	switch id {
	case "C20":
		scs := c20scripts()
		n = len(scs)
		threads = func(a, b int) (func(), func()) {
			s := newShared()
			mk := func(sc script) func() {
				d, clean := newScratch(sc.disk)
				ops := sc.make(s, d)
				return func() {
					defer clean()
					for _, f := range ops {
						f()
					}
				}
			}
			return mk(scs[a]), mk(scs[b])
		}
	case "C23":
		n = len(c23race())
		threads = func(a, b int) (func(), func()) {
			x := c23race()
			if x[a].net != x[b].net {
				return nil, nil
			}
			h := buildModel(inferNets()[x[a].net], sgd(0.1, 0, 0), x[a].acc, 0.3)
			return func() { x[a].call.run(&h.Mod) }, func() { x[b].call.run(&h.Mod) }
		}
	default:
		os.Exit(64)
	}
	run := func(a, b int) {
		f, g := threads(a, b)
		if f == nil {
			return
		}
		fmt.Fprintf(os.Stderr, "PAIR %d %d\n", a, b)
		for rep := 0; rep < 2; rep++ {
			var wg sync.WaitGroup
			wg.Add(2)
			go func() { defer wg.Done(); f() }()
			go func() { defer wg.Done(); g() }()
			wg.Wait()
			f, g = threads(a, b)
		}
	}
	_ = n
	var a, b int
	fmt.Sscanf(what, "%d,%d", &a, &b)
	run(a, b)
}

type raceInference struct {
	net, acc int
	call     inference
}

func c23race() []raceInference {
	var o []raceInference
	for ni, n := range inferNets() {
		for s, rows := range []int{1, 3} {
			acc := (ni + s) % 3
			for _, c := range inferences(n.Loss, acc, rows, 2, 2, 3+20*s) {
				o = append(o, raceInference{ni, acc, c})
			}
		}
	}
	return o
}
