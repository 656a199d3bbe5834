package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() { checks["C29"] = c29 }

// things29 are the objects whose memory use is watched.
type things29 struct {
	a, b, x, y, w, bias, gw, gb nn.Matrix
	layers                      []*LH
	losses                      []nn.Loss
	opts                        []nn.Optimizer
	models                      []*MH
	saved                       []byte
	file                        string
	keep                        any // the latest result of every kind of call stays alive
}

func newThings29(file string) *things29 {
	t := &things29{file: file}
	t.a, t.b = mat(genM(2, 3, 1)), mat(genM(3, 2, 2))
	t.x, t.y = mat(genM(4, 2, 3)), mat(oneHot(4, 2, 1))
	t.w, t.bias, t.gw, t.gb = mat(genM(2, 2, 4)), mat(genM(1, 2, 5)), mat(genM(2, 2, 6)), mat(genM(1, 2, 7))
	for k := 0; k < 6; k++ {
		t.layers = append(t.layers, fromRef(refLayer(k, 2, 2, k)))
	}
	for k := 0; k < 4; k++ {
		t.losses = append(t.losses, mustLoss(k, 2))
	}
	for _, o := range []*ref.Opt{sgd(1e-6, 0, 0), sgd(1e-6, 0.1, 0.5), adam(1e-6, 0.1)} {
		t.opts = append(t.opts, mustOpt(o))
		n := &ref.Net{Loss: ref.CE, Layers: []*ref.Layer{refLayer(ref.Hidden, 2, 3, 1), refLayer(ref.Dropout, 3, 3, 2), refLayer(ref.Softmax, 3, 2, 3)}}
		t.models = append(t.models, buildModel(n, o, 1, 0.5))
	}
	var buf bytes.Buffer
	d := nn.NewSavedModelData(t.models[0].Mod)
	if err := d.Serialize(&buf); err != nil {
		panic(err)
	}
	t.saved = buf.Bytes()
	return t
}

type op29 struct {
	name string
	n    int // how often at most, for expensive calls
	f    func(t *things29, k int)
}

func ops29() []op29 {
	var o []op29
	add := func(name string, f func(t *things29, k int)) { o = append(o, op29{name, 4000, f}) }
	add("Add", func(t *things29, k int) { t.keep, _ = t.a.Add(t.a) })
	add("Sub", func(t *things29, k int) { t.keep, _ = t.a.Sub(t.a) })
	add("Add refused", func(t *things29, k int) { t.keep, _ = t.a.Add(t.b) })
	add("Dot", func(t *things29, k int) { t.keep, _ = t.a.Dot(t.b) })
	add("Dot refused", func(t *things29, k int) { t.keep, _ = t.a.Dot(t.a) })
	add("T", func(t *things29, k int) { t.keep = t.a.T() })
	add("Neg", func(t *things29, k int) { t.keep = t.a.Neg() })
	add("scalars", func(t *things29, k int) {
		m := t.a.AddScalar(float64(k))
		m = m.MulScalar(float64(k))
		t.keep = m.PowScalar(float64(k%7) / 2)
	})
	add("Sum", func(t *things29, k int) { t.a.Sum(0); t.keep = t.a.Sum(1) })
	add("Equals", func(t *things29, k int) { t.keep = t.a.Equals(t.b) })
	add("NewMatrix", func(t *things29, k int) { t.keep, _ = nn.NewMatrix(1+k%9, 2) })
	add("NewMatrixFromSlice", func(t *things29, k int) { t.keep, _ = nn.NewMatrixFromSlice([][]float64{{1, 2}}) })
	add("cells", func(t *things29, k int) {
		t.a.Set(k%2, k%3, float64(k))
		t.a.Get(k%2, k%3)
		t.a.Get(9, 9)
		t.a.GetRow(1)
		t.keep, _ = t.a.GetColumn(1)
		t.a.SetRow(k%2, []float64{1, 2, 3})
		t.a.SetColumn(k%3, []float64{1, 2})
	})
	add("activations", func(t *things29, k int) {
		x := t.a.MulScalar(float64(k))
		d := t.a.MulScalar(1)
		nn.RELU(x)
		nn.RELUPrime(d, x)
		nn.LeakyRELU(x, 0.1)
		nn.Sigmoid(x)
		t.keep = nn.Softmax(x)
	})
	add("labels", func(t *things29, k int) {
		nn.RowMax(t.x)
		nn.SparseToOneHot(mat(M{{float64(k % 5)}}), 5)
		nn.OutputBinaryValues(t.x.MulScalar(1))
		nn.Clip(t.x.MulScalar(1))
		nn.CategoricalAccuracy(t.x, t.y)
		nn.RegressionAccuracy(t.x, t.y, 0.1)
		t.keep = nn.BinaryCategoricalAccuracy(t.x.MulScalar(1), t.y)
	})
	add("shuffle", func(t *things29, k int) {
		x, _ := nn.ShuffleDataset(t.x.MulScalar(1), t.y.MulScalar(1))
		t.keep = x
	})
	for k := 0; k < 6; k++ {
		kind := k
		name := ref.KindName[kind]
		add(name+" forward", func(t *things29, k int) { t.keep, _ = t.layers[kind].L.Forward(t.x) })
		add(name+" forward with changing data", func(t *things29, k int) { t.keep, _ = t.layers[kind].L.Forward(t.x.AddScalar(float64(k))) })
		add(name+" forward and backward", func(t *things29, k int) {
			t.layers[kind].L.Forward(t.x)
			_, _, t.keep, _ = func() (a, b nn.Matrix, d nn.Matrix, e error) { return t.layers[kind].L.Backward(t.x, t.y) }()
		})
		add(name+" backward refused", func(t *things29, k int) { t.layers[kind].L.Backward(t.x, t.a) })
		add(name+" init", func(t *things29, k int) { t.layers[kind].L.Init() })
		add(name+" constructor", func(t *things29, k int) { t.keep, _ = newLayer(kind, 2, 1+k%4, 0.1, 0.5) })
	}
	add("inference of dropout", func(t *things29, k int) { t.keep, _ = t.layers[ref.Dropout].drop.ForwardNoDropout(t.x) })
	for k := 0; k < 4; k++ {
		kind := k
		add(ref.LossName[kind], func(t *things29, k int) {
			t.losses[kind].Forward(t.x, t.y)
			t.keep, _ = t.losses[kind].Backward(t.x, t.y)
			t.losses[kind].Forward(t.a, t.y)
			newLoss(kind, 1+k%5)
		})
	}
	for k := 0; k < 3; k++ {
		which := k
		add(fmt.Sprintf("optimizer %d", which), func(t *things29, k int) { t.opts[which].Update(&t.w, &t.bias, t.gw, t.gb) })
		add(fmt.Sprintf("optimizer %d refused", which), func(t *things29, k int) { t.opts[which].Update(&t.w, &t.bias, t.a, t.gb) })
		add(fmt.Sprintf("model %d Fit", which), func(t *things29, k int) {
			t.models[which].Mod.Fit(t.x, t.y, 1, 3, nn.Matrix{}, nn.Matrix{}, 0)
		})
		add(fmt.Sprintf("model %d Fit with log", which), func(t *things29, k int) {
			t.models[which].Mod.Fit(t.x, t.y, 2, 0, t.x, t.y, 1)
		})
		add(fmt.Sprintf("model %d evaluation", which), func(t *things29, k int) {
			m := &t.models[which].Mod
			m.Predict(t.x)
			m.Predict(t.x.AddScalar(float64(k)))
			m.CalculateLoss(t.x, t.y)
			m.CalculateAccuracy(t.x, t.y)
			out, _ := m.Forward(t.x, k%2 == 0)
			m.Backward(out, t.y)
			m.Predict(t.a)
		})
		add(fmt.Sprintf("model %d finished again", which), func(t *things29, k int) {
			t.models[which].Mod.Finalize(t.losses[ref.CE], t.opts[which], nn.AccuracyType(k%3), 0.5)
		})
		add(fmt.Sprintf("model %d finished again and trained", which), func(t *things29, k int) {
			t.models[which].Mod.Finalize(t.losses[ref.CE], t.opts[which], 1, 0.5)
			t.models[which].Mod.Fit(t.x, t.y, 1, 3, nn.Matrix{}, nn.Matrix{}, 0)
		})
		add(fmt.Sprintf("model %d refused calls", which), func(t *things29, k int) {
			m := &t.models[which].Mod
			m.AddLayer(t.layers[0].L) // has 2 inputs, as the model has outputs
			m.ModelSize, m.Layers, m.OutputSize = 3, m.Layers[:3:3], 2
			l, _ := nn.NewLinearLayer(5, 5)
			m.AddLayer(&l)
			m.Fit(t.a, t.y, 1, 0, nn.Matrix{}, nn.Matrix{}, 0)
			m.Finalize(mustLoss(ref.MSE, 7), t.opts[which], 1, 0.5)
		})
		wide, none := mat(genM(4, 3, 1)), nn.Matrix{}
		for ci, call := range []func(m *nn.Model, t *things29){
			func(m *nn.Model, t *things29) { m.Fit(wide.MulScalar(1), t.y, 1, 3, none, none, 0) },
			func(m *nn.Model, t *things29) { m.Fit(t.x, wide.MulScalar(1), 1, 0, none, none, 0) },
			func(m *nn.Model, t *things29) { m.Fit(t.x, t.y, 1, 0, wide.MulScalar(1), t.y, 1) },
			func(m *nn.Model, t *things29) { m.Fit(t.x, t.y, 1, -1, none, none, 0) },
			func(m *nn.Model, t *things29) { m.Fit(t.x, mat(genM(3, 2, 1)), 1, 0, none, none, 0) },
			func(m *nn.Model, t *things29) { m.Predict(wide.MulScalar(1)) },
			func(m *nn.Model, t *things29) { m.CalculateLoss(t.x, wide.MulScalar(1)) },
			func(m *nn.Model, t *things29) { m.CalculateAccuracy(t.x, wide.MulScalar(1)) },
			func(m *nn.Model, t *things29) { m.CalculateLoss(wide.MulScalar(1), t.y) },
			func(m *nn.Model, t *things29) { m.Forward(wide.MulScalar(1), true) },
			func(m *nn.Model, t *things29) { m.Backward([]nn.Matrix{t.x.MulScalar(1), t.y}, t.y) },
			func(m *nn.Model, t *things29) {
				out, _ := m.Forward(t.x, true)
				m.Backward(out, wide.MulScalar(1))
			},
			func(m *nn.Model, t *things29) { m.Finalize(t.losses[0], t.opts[which], 1, -1) },
			func(m *nn.Model, t *things29) { nn.SaveFile(m, t.file+"/below/a/file") },
			func(m *nn.Model, t *things29) { nn.LoadFile(t.file + "missing") },
			func(m *nn.Model, t *things29) {
				f, e := nn.NewModel(), none
				f.Fit(t.x.MulScalar(1), t.y, 1, 0, e, e, 0)
				f.Predict(t.x.MulScalar(1))
			},
		} {
			ci, call := ci, call
			add(fmt.Sprintf("model %d refused call %d", which, ci), func(t *things29, k int) { call(&t.models[which].Mod, t) })
		}
		add(fmt.Sprintf("model %d InitLayers", which), func(t *things29, k int) { t.models[which].Mod.InitLayers() })
		add(fmt.Sprintf("model %d serialized", which), func(t *things29, k int) {
			var buf bytes.Buffer
			d := nn.NewSavedModelData(t.models[which].Mod)
			d.Serialize(&buf)
			t.keep = buf.Bytes()
		})
	}
	add("new models", func(t *things29, k int) {
		m := nn.NewModel()
		l, _ := nn.NewSigmoidLayer(2, 2)
		m.AddLayer(&l)
		m.Finalize(t.losses[0], t.opts[2], 1, 0.5)
		m.Fit(t.x, t.y, 1, 3, nn.Matrix{}, nn.Matrix{}, 0)
		m.Predict(t.x)
		t.keep = m
	})
	add("load", func(t *things29, k int) { t.keep, _ = nn.LoadModel(bytes.NewBuffer(t.saved)) })
	add("load and use", func(t *things29, k int) {
		m, _ := nn.LoadModel(bytes.NewBuffer(t.saved))
		m.Fit(t.x, t.y, 1, 3, nn.Matrix{}, nn.Matrix{}, 0)
		m.Predict(t.x)
	})
	add("load refused", func(t *things29, k int) { nn.LoadModel(bytes.NewBuffer(t.saved[:k%len(t.saved)])) })
	o = append(o, op29{"save and load a file", 1500, func(t *things29, k int) {
		nn.SaveFile(&t.models[1].Mod, t.file)
		t.keep, _ = nn.LoadFile(t.file)
	}})
	add("logger", func(t *things29, k int) { nn.InitLogger(false, false, "") })
	return o
}

// held is the memory in use once everything unreachable is gone, and the number
// of goroutines.
func held() (int, int) {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc), runtime.NumGoroutine()
}

func c29(r *core.Run) {
	r.Rule = "cases: every operation of the library repeated thousands of times, and every ordered pair of operations in turn hundreds of times, on the same objects; after a first part that fills whatever is kept for good, the second, longer part must not leave more memory or goroutines in use; states are distinct cycles"
	r.Assume("a leak of at least some eight bytes per call shows within the repetitions")
	dir := filepath.Join(scratch(), "c29")
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o777)
	file := filepath.Join(dir, "m")
	ops := ops29()
	grows := func(c *core.C, cycle []op29, n, limit int) {
		c.Trace()
		t := newThings29(file)
		run := func(from, to int) {
			for k := from; k < to; k++ {
				for _, o := range cycle {
					o.f(t, k)
				}
			}
		}
		// A growing part can stop (a bounded cache that fills up), a leak goes on.
		at := n
		run(0, at)
		for try := 0; ; try++ {
			h0, g0 := held()
			run(at, at+2*n)
			at += 2 * n
			h1, g1 := held()
			c.Step(2 * n * len(cycle))
			if h1-h0 <= limit && g1 <= g0 {
				break
			}
			if try == 2 {
				if g1 > g0 {
					c.Failf("%d rounds leave %d goroutines running", 2*n, g1-g0)
				}
				c.Failf("%d rounds leave %d bytes more in use", 2*n, h1-h0)
			}
		}
		runtime.KeepAlive(t)
	}
	for _, o := range ops {
		o := o
		r.Case("one operation", func() string { return o.name }, func(c *core.C) {
			n := o.n
			if r.Max {
				n *= 5
			}
			grows(c, []op29{o}, n, 24000)
			c.State(core.Hash("one", o.name))
		})
	}
	for _, a := range ops {
		for _, b := range ops {
			a, b := a, b
			if !r.Max && (strings.Contains(a.name, "refused call ") || strings.Contains(b.name, "refused call ")) && fmt.Sprintf("%.7s", a.name) != fmt.Sprintf("%.7s", b.name) {
				continue // refused calls alternate with calls on the same model only
			}
			r.Case("two operations", func() string { return a.name + ", " + b.name }, func(c *core.C) {
				n := pick(r.Max, 1000, 150)
				grows(c, []op29{a, b}, n, 12000)
				c.State(core.Hash("two", a.name, b.name))
			})
		}
	}
}
