package main

import (
	"fmt"
	"strings"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
	"nnverif/seam/vsched"
	"time"
)

func init() { checks["C23"] = c23 }

// inference is one call on a finished model and its canonical result.
type inference struct {
	name string
	run  func(m *nn.Model) string
}

func bitsStr(m nn.Matrix) string {
	s := fmt.Sprintf("%dx%d:", m.Rows, m.Cols)
	for i := range m.M {
		for j := range m.M[i] {
			s += fmt.Sprintf("%x ", m.M[i][j])
		}
		s += ";"
	}
	return s
}

func errStr(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

func inferences(loss, acc, rows, in, out, seed int) []inference {
	xs := []M{genM(rows, in, seed), genM(rows, in, seed+1), genM(rows, in, seed+2)}
	y := labels(loss, rows, out, seed+1)
	if acc == ref.AccCat {
		y = oneHot(rows, out, seed)
	}
	if acc == ref.AccBin && loss != ref.CE {
		y = bitLabels(rows, out, seed)
	}
	return []inference{
		{fmt.Sprintf("Predict(%d rows)", rows), func(m *nn.Model) string {
			p, err := m.Predict(mat(xs[0]))
			return errStr(err) + bitsStr(p)
		}},
		{fmt.Sprintf("CalculateLoss(%d rows)", rows), func(m *nn.Model) string {
			v, err := m.CalculateLoss(mat(xs[1]), mat(y))
			return fmt.Sprintf("%s %x", errStr(err), v)
		}},
		{fmt.Sprintf("CalculateAccuracy(%d rows)", rows), func(m *nn.Model) string {
			v, err := m.CalculateAccuracy(mat(xs[2]), mat(y))
			return fmt.Sprintf("%s %x", errStr(err), v)
		}},
	}
}

// inferNets: every layer kind alone, in front of and behind another one.
func inferNets() []*ref.Net {
	var o []*ref.Net
	for k := 0; k < 6; k++ {
		o = append(o, &ref.Net{Loss: []int{ref.MSE, ref.CE, ref.BCE, ref.MAE}[k%4], Layers: []*ref.Layer{refLayer(k, 2, 2, 1)}})
	}
	for k := 0; k < 6; k++ {
		l := (k*5 + 2) % 6
		o = append(o, &ref.Net{Loss: []int{ref.CE, ref.BCE, ref.MSE}[k%3], Layers: []*ref.Layer{refLayer(k, 2, 3, 1), refLayer(l, 3, 2, 2)}})
	}
	o = append(o, &ref.Net{Loss: ref.CE, Layers: []*ref.Layer{refLayer(ref.Dropout, 2, 2, 1), refLayer(ref.Dropout, 2, 2, 2), refLayer(ref.Softmax, 2, 2, 3)}})
	return o
}

var levelName = []string{"functions", "loops", "statements"}

// schedules explores one set of threads and fails on any that differs.
func schedules(r *core.Run, c *core.C, setup func() ([]func() string, func() string), want []string, lvl, bound int, max int64) {
	var got []string
	var after func() string
	vsched.Beat = r.Beat
	vsched.MaxTime = pick(r.Max, 5*time.Minute, 40*time.Second)
	res := vsched.Explore(func() []func() {
		fs, af := setup()
		after = af
		got = make([]string, len(fs))
		var o []func()
		for i, f := range fs {
			i, f := i, f
			o = append(o, func() { got[i] = f() })
		}
		return o
	}, lvl, bound, max, func(sched string, panics []string) bool {
		for i := range got {
			if panics[i] != "" {
				c.Failf("schedule [%s]: thread %d panics: %s", sched, i, panics[i])
			}
			if got[i] != want[i] {
				c.Failf("schedule [%s]: thread %d gives\n%s\nalone it gives\n%s", sched, i, got[i], want[i])
			}
		}
		if after != nil {
			if s := after(); s != "" {
				c.Failf("schedule [%s]: %s", sched, s)
			}
		}
		return true
	})
	c.Step(int(res.Schedules))
	r.Add("schedules", res.Schedules)
	r.Add("scheduling_points_passed", res.Points)
	r.Add(fmt.Sprintf("schedules_%s_bound_%d", levelName[lvl], bound), res.Schedules)
	if res.Foreign {
		r.Add("explorations_with_goroutines_of_the_code_itself", 1)
	}
	if res.Hung || !res.Complete {
		r.Add("incomplete_explorations", 1)
		panic(core.Undecided("an exploration of schedules was cut short"))
	}
}

func c23(r *core.Run) {
	r.Rule = "cases: for models of every layer kind (alone and combined) and every accuracy mode, every pair (and triple) of concurrent Predict, CalculateLoss and CalculateAccuracy calls with different inputs and batch sizes; for wide models too; each is run under every schedule of the real code with a bounded number of preemptions, at statement, loop-body and function granularity; every call's result must be bit-identical to the same call run alone and the parameters unchanged; states are distinct (model, calls, granularity, bound)"
	r.Assume("scheduling points are statements of the package (sequentially consistent between them); tearing within one statement is not explored")
	type plan struct{ lvl, bound int }
	plans := []plan{{vsched.Stmt, 1}, {vsched.Func, 2}}
	if r.Thorough {
		plans = []plan{{vsched.Stmt, 1}, {vsched.Func, 3}, {vsched.Loop, 2}, {vsched.Stmt, 2}}
	}
	const max = 400000
	for ni, n := range inferNets() {
		for acc := 0; acc < 3; acc++ {
			// the two threads use different inputs, of equal and different sizes
			var calls, calls2 []inference
			for s, rows := range []int{1, 3} {
				calls = append(calls, inferences(n.Loss, acc, rows, 2, 2, 3+20*s)...)
				calls2 = append(calls2, inferences(n.Loss, acc, rows, 2, 2, 11+20*s)...)
			}
			for a := range calls {
				for b := a; b < len(calls); b++ {
					for _, p := range plans {
						ni, n, acc, a, b, p := ni, n, acc, a, b, p
						// accuracy modes only differ after the forward pass
						if acc != ni%3 && p.bound > 1 && (p.lvl == vsched.Stmt || !r.Thorough) {
							continue
						}
						r.Case("pairs", func() string {
							return fmt.Sprintf("%s mode %d: %s with %s, preemption bound %d at %s", netName(n), acc, calls[a].name, calls2[b].name, p.bound, levelName[p.lvl])
						}, func(c *core.C) {
							c.Trace()
							c.State(core.Hash(ni, acc, a, b, p))
							c23run(r, c, n, acc, []inference{calls[a], calls2[b]}, p.lvl, p.bound, (a+b)%2 == 1, max)
						})
					}
				}
			}
		}
		// three at once
		acc := ni % 3
		var calls []inference
		calls = append(calls, inferences(n.Loss, acc, 1, 2, 2, 3)...)
		calls = append(calls, inferences(n.Loss, acc, 2, 2, 2, 8)...)
		calls = append(calls, inferences(n.Loss, acc, 3, 2, 2, 9)...)
		for k := 0; k < pick(r.Thorough, 9, 2); k++ {
			ni, n, k := ni, n, k
			set := []inference{calls[k%9], calls[(k+4)%9], calls[(k+8)%9]}
			r.Case("triples", func() string {
				return fmt.Sprintf("%s mode %d: %s, %s, %s", netName(n), acc, set[0].name, set[1].name, set[2].name)
			}, func(c *core.C) {
				c.Trace()
				c.State(core.Hash("three", ni, k))
				c23run(r, c, n, acc, set, vsched.Func, 2, k%2 == 1, max)
				if r.Thorough {
					c23run(r, c, n, acc, set, vsched.Stmt, 1, k%2 == 0, max)
				}
			})
		}
	}
	c23wide(r, max)
	cs := c23race()
	raceChild(r, "C23", len(cs), func(a, b int) bool { return cs[a].net == cs[b].net }, func(a, b int) string {
		return fmt.Sprintf("%s: %s with %s at the same time (fatal map conflicts)", netName(inferNets()[cs[a].net]), cs[a].call.name, cs[b].call.name)
	}, mapConflict)
}

// c23wide: wider models and larger batches, of equal and different sizes. The
// loops are long; only the first executions of each statement are preempted.
func c23wide(r *core.Run, max int64) {
	defer func() { vsched.PerSite = 0 }()
	for ni := 0; ni < 12; ni++ {
		k := ni % 6
		n := &ref.Net{Loss: []int{ref.MSE, ref.CE, ref.BCE, ref.MAE}[ni%4], Layers: []*ref.Layer{refLayer(k, 3, 17, 1)}}
		if ni >= 6 {
			n = &ref.Net{Loss: []int{ref.CE, ref.BCE, ref.MSE}[ni%3], Layers: []*ref.Layer{refLayer(k, 17, 18, 1), refLayer((k*5+2)%6, 18, 1, 2)}}
		}
		in, out := n.Layers[0].In, n.Layers[len(n.Layers)-1].Out
		for _, rows := range [][2]int{{2, 2}, {1, 2}, {17, 17}, {18, 4}} {
			for acc := 0; acc < 3; acc++ {
				if !r.Thorough && acc != (ni+rows[0])%3 && rows[0] != 2 {
					continue
				}
				a, b := inferences(n.Loss, acc, rows[0], in, out, 3), inferences(n.Loss, acc, rows[1], in, out, 30)
				for x := range a {
					for y := range b {
						if !r.Thorough && x != y && (x+y+ni)%3 != 0 {
							continue
						}
						ni, n, acc, x, y, rows := ni, n, acc, x, y, rows
						r.Case("wide models", func() string {
							return fmt.Sprintf("%s mode %d: %s with %s", netName(n), acc, a[x].name, b[y].name)
						}, func(c *core.C) {
							c.Trace()
							c.State(core.Hash("wide", ni, acc, x, y, fmt.Sprint(rows)))
							vsched.PerSite = pick(r.Thorough, 4, 2)
							defer func() { vsched.PerSite = 0 }()
							c23run(r, c, n, acc, []inference{a[x], b[y]}, vsched.Stmt, 1, (x+y)%2 == 1, max)
							if rows[0] == rows[1] && (r.Thorough || x == 0 && y == 0) {
								vsched.PerSite = 1
								c23run(r, c, n, acc, []inference{a[x], b[y]}, vsched.Stmt, 2, (x+y)%2 == 1, max)
							}
						})
					}
				}
			}
		}
	}
}

// mapConflict says whether a race report is about a map: concurrent use of one
// kills the process. Other conflicting accesses are left to the schedules.
func mapConflict(report string) bool {
	return strings.Contains(report, "runtime.map") || strings.Contains(report, "internal/runtime/maps") || !strings.Contains(report, "DATA RACE")
}

func c23run(r *core.Run, c *core.C, n *ref.Net, acc int, set []inference, lvl, bound int, used bool, max int64) {
	var want []string
	h := buildModel(n, sgd(0.1, 0, 0), acc, 0.3)
	before := h.params()
	for _, f := range set {
		want = append(want, f.run(&buildModel(n, sgd(0.1, 0, 0), acc, 0.3).Mod))
	}
	schedules(r, c, func() ([]func() string, func() string) {
		h := buildModel(n, sgd(0.1, 0, 0), acc, 0.3)
		if used { // a model that has served before, with one of the batch sizes
			h.Mod.Predict(mat(genM(3, n.Layers[0].In, 77)))
		}
		var fs []func() string
		for _, f := range set {
			f := f
			fs = append(fs, func() string { return f.run(&h.Mod) })
		}
		return fs, func() string {
			if !sameParams(h.params(), before) {
				return fmt.Sprintf("the parameters became %v, they were %v", h.params(), before)
			}
			return ""
		}
	}, want, lvl, bound, max)
}
