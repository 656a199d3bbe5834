package main

import (
	"bytes"
	"fmt"
	"log"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
)

func init() { checks["C25"] = c25 }

// the loggers as they are when nobody has set them up
var pristine = [3]*log.Logger{nn.InfoLogger, nn.WarningLogger, nn.ErrorLogger}

func restoreLoggers() {
	nn.InfoLogger, nn.WarningLogger, nn.ErrorLogger = pristine[0], pristine[1], pristine[2]
}

// logLine is a line about an epoch.
type logLine struct {
	epoch     int
	val       bool
	loss, acc float64
}

var lineRE = regexp.MustCompile(`Epoch:\s*(\d+).*?Loss:\s*([^\s,]+).*?Accuracy:\s*([^\s,]+)`)

// parseLog returns the epoch lines of a log, in order; other info lines fail.
func parseLog(c *core.C, s string) []logLine {
	var o []logLine
	for _, l := range strings.Split(s, "\n") {
		if l == "" {
			continue
		}
		m := lineRE.FindStringSubmatch(l)
		if m == nil {
			c.Failf("unexpected log line %q", l)
		}
		e, _ := strconv.Atoi(m[1])
		x, err1 := strconv.ParseFloat(m[2], 64)
		y, err2 := strconv.ParseFloat(m[3], 64)
		if err1 != nil || err2 != nil {
			c.Failf("log line %q has no figures", l)
		}
		o = append(o, logLine{e, strings.Contains(l, "alidation"), x, y})
	}
	return o
}

func near(a, b float64) bool {
	return core.Same(a, b) || math.Abs(a-b) <= 2e-6+1e-8*math.Abs(b)
}

// expectLog trains the reference and returns the lines there must be.
func expectLog(n *ref.Net, x, y, vx, vy M, epochs, batch, every, acc int, prec float64) []logLine {
	var o []logLine
	for e := 0; e < epochs; e++ {
		n.Fit(x, y, 1, batch)
		if every == 0 || e%every != 0 {
			continue
		}
		p := n.Predict(x)
		o = append(o, logLine{e, false, ref.Loss(n.Loss, p, y), ref.Accuracy(acc, p, y, prec)})
		if vy != nil {
			p := n.Predict(vx)
			o = append(o, logLine{e, true, ref.Loss(n.Loss, p, vy), ref.Accuracy(acc, p, vy, prec)})
		}
	}
	return o
}

func wantLog(c *core.C, text string, want []logLine) {
	got := parseLog(c, text)
	if len(got) != len(want) {
		c.Failf("%d log lines, want %d: %q", len(got), len(want), text)
	}
	for i := range want {
		g, w := got[i], want[i]
		if g.epoch != w.epoch || g.val != w.val || !near(g.loss, w.loss) || !near(g.acc, w.acc) {
			c.Failf("log line %d is epoch %d validation=%v loss %v accuracy %v; want epoch %d validation=%v loss %v accuracy %v (log: %q)",
				i, g.epoch, g.val, g.loss, g.acc, w.epoch, w.val, w.loss, w.acc, text)
		}
	}
}

func optM(m M) nn.Matrix {
	if m == nil {
		return nn.Matrix{}
	}
	return mat(m)
}

// capture redirects stdout and stderr to a file; more returns what was added to it.
func capture(path string) (more func() string, restore func()) {
	w, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = w, w
	seen := 0
	return func() string {
			b, _ := os.ReadFile(path)
			s := string(b[seen:])
			seen = len(b)
			return s
		}, func() {
			os.Stdout, os.Stderr = so, se
			w.Close()
		}
}

func c25(r *core.Run) {
	r.Rule = "cases: every combination of model (all layer kinds, losses), optimizer, accuracy mode, epochs 0-7, log interval 0-8, batch size, and validation setting (none, inputs only, both; the training data, parts of it, and it with other labels or inputs), and of two or over a thousand consecutive trainings, over a thousand epochs, data sets of thousands of rows, the lines of the info logger compared with a reference trainer's figures; and every sequence of logger set-ups (none, silent, verbose, two files, unusable path) and logged calls up to a depth, the contents of files, standard output and standard error compared; states are distinct settings"
	r.Assume("negative log intervals and where messages go when no logger was set up are not specified; figures are compared to the six decimals printed")
	tmp := os.Getenv("MC_TMP")
	opts := []*ref.Opt{sgd(0.2, 0.1, 0.9), adam(0.05, 0)}
	for ni, n0 := range fitNets() {
		for oi, o := range opts {
			for acc := 0; acc < 3; acc++ {
				for val := 0; val < 7; val++ {
					for batch := 0; batch <= 3; batch++ {
						for every := 0; every <= 8; every++ {
							for epochs := 0; epochs <= 7; epochs++ {
								n0, o, acc, val, batch, every, epochs := n0, o, acc, val, batch, every, epochs
								if !r.Thorough && (epochs+every+batch+ni+oi)%2 == 1 && (every > 3 || val > 2) || val > 2 && !r.Thorough && (every > 4 || epochs == 6) {
									continue
								}
								r.Case("figures", func() string {
									return fmt.Sprintf("%s %s mode %d, validation %d, batch %d, log every %d, %d epochs", netName(n0), optName(o), acc, val, batch, every, epochs)
								}, func(c *core.C) {
									c.Trace()
									defer restoreLoggers()
									var buf bytes.Buffer
									nn.InfoLogger = log.New(&buf, "", 0)
									n := n0.Clone()
									n.SetOpt(o)
									h := buildModel(n, o, acc, 0.35)
									d := data2(n0, ni+acc)
									var vx, vy M
									if val > 0 {
										vx = d[2]
									}
									if val >= 2 {
										vy = d[3]
									}
									switch val {
									case 3: // the training inputs with other labels
										vx, vy = d[0], labels(n0.Loss, 5, 2, ni+acc+9)
										vy[0] = d[1][0]
									case 4: // other inputs with the training labels
										vx, vy = core.CopyM(d[0]), d[1]
										vx[4][1] += 1.5
									case 5: // the training data itself
										vx, vy = d[0], d[1]
									case 6: // a single sample, the first of the training data
										vx, vy = d[0][:1], d[1][:1]
									}
									want := expectLog(n, d[0], d[1], vx, vy, epochs, batch, every, acc, 0.35)
									noErr(c, "Fit", h.Mod.Fit(mat(d[0]), mat(d[1]), epochs, batch, optM(vx), optM(vy), every))
									c.Step(1)
									wantLog(c, buf.String(), want)
									// a second call numbers its epochs from 0 again
									if epochs > 0 && batch == 2 {
										buf.Reset()
										want = expectLog(n, d[0], d[1], vx, vy, 3, 0, every, acc, 0.35)
										noErr(c, "Fit", h.Mod.Fit(mat(d[0]), mat(d[1]), 3, 0, optM(vx), optM(vy), every))
										c.Step(1)
										wantLog(c, buf.String(), want)
									}
									wantParams(c, "after logging", h, n, tolFit)
									c.State(core.Hash("fig", ni, oi, acc, val, batch, every, epochs))
									c.Outcome(core.Hash(len(want)))
								})
							}
						}
					}
				}
			}
		}
	}
	// many epochs and large intervals
	for every := 1; every <= 60; every++ {
		every := every
		epochs := pick(every%20 == 1, pick(r.Max, 5000, 1100), 60)
		r.Case("many epochs", func() string { return fmt.Sprintf("%d epochs, log every %d", epochs, every) }, func(c *core.C) {
			c.Trace()
			defer restoreLoggers()
			var buf bytes.Buffer
			nn.InfoLogger = log.New(&buf, "", 0)
			n := smooth(2, 2)[every%2].Clone()
			o := sgd(0.1, 0, 0)
			n.SetOpt(o)
			h := buildModel(n, o, every%2, 0.2)
			d := data2(n, every)
			want := expectLog(n, d[0], d[1], d[2], d[3], epochs, 2, every, every%2, 0.2)
			noErr(c, "Fit", h.Mod.Fit(mat(d[0]), mat(d[1]), epochs, 2, mat(d[2]), mat(d[3]), every))
			c.Step(1)
			wantLog(c, buf.String(), want)
			c.State(core.Hash("many", every))
		})
	}
	// one model trained, with and without logging, very often
	for ni, n0 := range smooth(2, 2) {
		for acc := 0; acc < 3; acc++ {
			for _, mode := range []int{0, 1, 2} {
				ni, n0, acc, mode := ni, n0, acc, mode
				r.Case("trained very often", func() string {
					return fmt.Sprintf("%s mode %d, %s", netName(n0), acc, []string{"always logged", "logged at different intervals", "finished again in between"}[mode])
				}, func(c *core.C) {
					c.Trace()
					defer restoreLoggers()
					var buf bytes.Buffer
					nn.InfoLogger = log.New(&buf, "", 0)
					n := n0.Clone()
					o := sgd(0.1, 0.01, 0.5)
					n.SetOpt(o)
					h := buildModel(n, o, acc, 0.2)
					for i := 0; i < pick(r.Max, 20000, 1200); i++ {
						d := data2(n, i%6)
						vx, vy := d[2], d[3]
						if i%3 == 1 {
							vx, vy = nil, nil
						}
						every := 1
						if mode == 1 {
							every = i % 4
						}
						buf.Reset()
						want := expectLog(n, d[0], d[1], vx, vy, 3, 2, every, acc, 0.2)
						noErr(c, "Fit", h.Mod.Fit(mat(d[0]), mat(d[1]), 3, 2, optM(vx), optM(vy), every))
						c.Step(1)
						wantLog(c, buf.String(), want)
						if i%20 == 19 { // rounding does not add up
							for j, l := range n.Layers {
								l.W, l.B = h.Layers[j].params(c)
							}
						}
						if mode == 2 && i%2 == 0 {
							n.SetOpt(o)
							noErr(c, "Finalize", h.Mod.Finalize(mustLoss(n.Loss, 2), mustOpt(o), nn.AccuracyType(acc), 0.2))
						}
					}
					c.State(core.Hash("often", ni, acc, mode))
				})
			}
		}
	}
	// larger data sets
	for _, rows := range []int{10, 31, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 500, 1000, 1001, 1024, 1025, 2049, 5000} {
		for acc := 0; acc < 3; acc++ {
			rows, acc := rows, acc
			r.Case("larger data sets", func() string { return fmt.Sprintf("%d rows, mode %d", rows, acc) }, func(c *core.C) {
				c.Trace()
				for vk, vrows := range []int{1, 3, rows, rows + 1} {
					restoreLoggers()
					var buf bytes.Buffer
					nn.InfoLogger = log.New(&buf, "", 0)
					n := smooth(2, 2)[acc].Clone()
					o := sgd(0.1, 0.1, 0.5)
					n.SetOpt(o)
					h := buildModel(n, o, acc, 0.2)
					x, y := genM(rows, 2, 3), labels(n.Loss, rows, 2, 4)
					vx, vy := genM(vrows, 2, 5), labels(n.Loss, vrows, 2, 6)
					want := expectLog(n, x, y, vx, vy, 2, []int{0, rows / 2, rows, 17}[vk], 1, acc, 0.2)
					noErr(c, "Fit", h.Mod.Fit(mat(x), mat(y), 2, []int{0, rows / 2, rows, 17}[vk], mat(vx), mat(vy), 1))
					c.Step(1)
					wantLog(c, buf.String(), want)
					c.State(core.Hash("larger", rows, acc, vk))
				}
				restoreLoggers()
			})
		}
	}
	// rows and epochs past 2^16
	for k := 0; k < 4; k++ {
		k := k
		r.Case("very large counts", func() string { return fmt.Sprint(k) }, func(c *core.C) {
			c.Trace()
			defer restoreLoggers()
			var buf bytes.Buffer
			nn.InfoLogger = log.New(&buf, "", 0)
			n := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{{Kind: ref.Linear, In: 1, Out: 1, W: M{{0.5}}, B: []float64{0.25}}}}
			o := sgd(0.01, 0, 0.5)
			n.SetOpt(o)
			h := buildModel(n, o, 0, 0.2)
			rows, vrows, epochs, batch, every := 2, 1, 70000, 0, 1000
			switch k {
			case 1:
				rows, vrows, epochs, batch, every = 1, 2, 66000, 1, 32768
			case 2:
				rows, vrows, epochs, batch, every = 70000, 65537, 2, 0, 1
			case 3:
				rows, vrows, epochs, batch, every = 65537, 70000, 2, 7, 1
			}
			x, y, vx, vy := genM(rows, 1, 3), genM(rows, 1, 4), genM(vrows, 1, 5), genM(vrows, 1, 6)
			want := expectLog(n, x, y, vx, vy, epochs, batch, every, 0, 0.2)
			noErr(c, "Fit", h.Mod.Fit(mat(x), mat(y), epochs, batch, mat(vx), mat(vy), every))
			c.Step(epochs)
			wantLog(c, buf.String(), want)
			c.State(core.Hash("counts", k))
		})
	}
	// one-weight problems, which reach losses of exactly 0, perfect accuracy, and divergence
	D := []float64{0, 1, -1, 0.5, 2}
	product([]int{len(D), len(D), len(D), 3, 3, 2, 2}, func(ix []int) {
		w, x, y := D[ix[0]], D[ix[1]], D[ix[2]]
		o, acc, every := sgd([]float64{0.25, 0.5, 1}[ix[3]], 0, []float64{0, 0.5, 1}[ix[4]]), ix[5]*2, ix[6]+1
		r.Case("one weight", func() string {
			return fmt.Sprintf("w=%v x=%v y=%v %s mode %d log every %d", w, x, y, optName(o), acc, every)
		}, func(c *core.C) {
			c.Trace()
			defer restoreLoggers()
			var buf bytes.Buffer
			nn.InfoLogger = log.New(&buf, "", 0)
			n := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{{Kind: ref.Linear, In: 1, Out: 1, W: M{{w}}, B: []float64{0}}}}
			n.SetOpt(o)
			h := buildModel(n, o, acc, 0.2501)
			want := expectLog(n, M{{x}, {x}}, M{{y}, {y}}, M{{1}}, M{{y}}, 8, 1, every, acc, 0.2501)
			noErr(c, "Fit", h.Mod.Fit(mat(M{{x}, {x}}), mat(M{{y}, {y}}), 8, 1, mat(M{{1}}), mat(M{{y}}), every))
			c.Step(1)
			wantLog(c, buf.String(), want)
			c.State(core.HashF(core.Hash("one", acc, every), w, x, y, o.LR, o.Mom))
		})
	})
	// logger set-ups
	type sink int
	const (
		unset sink = iota
		silent
		verbose
		fileA
		fileB
		unknown
	)
	names := []string{"InitLogger(false)", "InitLogger(true)", "InitLogger(file A)", "InitLogger(true, file B)", "InitLogger(unusable file)", "train with log", "load corrupted data", "load missing file", "info line"}
	count := int64(0)
	words(len(names), 1, pick(r.Max, 6, pick(r.Thorough, 5, 4)), func(w []int) {
		w = cp(w)
		for pre := 0; pre < 2; pre++ {
			pre := pre
			r.Case("set-ups", func() string {
				var s []string
				for _, k := range w {
					s = append(s, names[k])
				}
				return fmt.Sprintf("files existing before: %v; %s", pre == 1, strings.Join(s, "; "))
			}, func(c *core.C) {
				c.Trace()
				if count++; count%256 == 0 {
					runtime.GC() // InitLogger leaves its files to the collector
				}
				restoreLoggers()
				defer restoreLoggers()
				dir, err := os.MkdirTemp(tmp, "log")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				paths := map[sink]string{fileA: filepath.Join(dir, "a.log"), fileB: filepath.Join(dir, "b.log")}
				have := map[sink]string{}
				if pre == 1 {
					for k, p := range paths {
						have[k] = fmt.Sprintf("earlier content of %d\nno newline at the end", k)
						os.WriteFile(p, []byte(have[k]), 0o644)
					}
				}
				cur := unset
				more, restore := capture(filepath.Join(dir, "stdio"))
				defer restore()
				for step, op := range w {
					what := fmt.Sprintf("step %d (%s)", step, names[op])
					var want []logLine
					info := ""
					msgs := "" // info lines expected, or "?" for lines of unspecified text
					func() {
						switch op {
						case 0:
							noErr(c, what, nn.InitLogger(false, false, ""))
							cur = silent
						case 1:
							noErr(c, what, nn.InitLogger(true, false, ""))
							cur = verbose
						case 2:
							noErr(c, what, nn.InitLogger(false, true, paths[fileA]))
							cur = fileA
						case 3:
							noErr(c, what, nn.InitLogger(true, true, paths[fileB]))
							cur = fileB
						case 4:
							if nn.InitLogger(false, true, filepath.Join(dir, "nowhere", "x.log")) == nil {
								c.Failf("%s: no error for a file in a missing directory", what)
							}
							cur = unknown
						case 5:
							n := fitNets()[0].Clone()
							o := sgd(0.1, 0, 0)
							n.SetOpt(o)
							h := buildModel(n, o, 0, 0.5)
							d := data2(n, step)
							want = expectLog(n, d[0], d[1], d[2], d[3], 3, 2, 2, 0, 0.5)
							noErr(c, what, h.Mod.Fit(mat(d[0]), mat(d[1]), 3, 2, mat(d[2]), mat(d[3]), 2))
							msgs = "log"
						case 6:
							if _, err := nn.LoadModel(bytes.NewBufferString("CNNM\x01")); err == nil {
								c.Failf("%s: no error", what)
							}
							msgs = "?"
						case 7:
							if _, err := nn.LoadFile(filepath.Join(dir, "missing.model")); err == nil {
								c.Failf("%s: no error", what)
							}
							msgs = "?"
						case 8:
							info = fmt.Sprintf("line of step %d", step)
							nn.InfoLogger.Print(info)
							nn.WarningLogger.Print(info)
							nn.ErrorLogger.Print(info)
							msgs = "info"
						}
					}()
					out := more()
					c.Step(1)
					if cur == silent && out != "" {
						c.Failf("%s: the silent logger wrote %q", what, out)
					}
					// what was added to each file
					for k, p := range paths {
						b, err := os.ReadFile(p)
						if err != nil && (have[k] != "" || cur == k) {
							c.Failf("%s: the log file is gone: %v", what, err)
						}
						s := string(b)
						if !strings.HasPrefix(s, have[k]) {
							c.Failf("%s: the log file held %q and now holds %q", what, have[k], s)
						}
						added := s[len(have[k]):]
						have[k] = s
						if cur != k {
							if added != "" && cur != unknown {
								c.Failf("%s: %q was written to a log file that is not in use", what, added)
							}
							continue
						}
						if out != "" {
							c.Failf("%s: the file logger wrote %q to the standard streams", what, out)
						}
						checkAdded(c, what, msgs, info, added, want)
					}
					if cur == verbose {
						checkAdded(c, what, msgs, info, out, want)
					}
				}
				c.State(hashShape("set", pre, len(w), w))
			})
		}
	})
}

func checkAdded(c *core.C, what, msgs, info, added string, want []logLine) {
	switch msgs {
	case "":
		if added != "" {
			c.Failf("%s: wrote %q", what, added)
		}
	case "log":
		wantLog(c, added, want)
		if !strings.HasSuffix(added, "\n") {
			c.Failf("%s: log does not end with a line: %q", what, added)
		}
	case "info":
		if strings.Count(added, info) != 3 || strings.Count(added, "\n") != 3 {
			c.Failf("%s: three messages %q gave %q", what, info, added)
		}
	}
}
