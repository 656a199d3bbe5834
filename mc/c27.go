package main

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
	"nnverif/seam/vos"
)

func init() { checks["C27"] = c27 }

// openBelow lists the files below dir this process has open.
func openBelow(dir string) []string {
	var o []string
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(core.Undecided("cannot list the open files: " + err.Error()))
	}
	for _, e := range es {
		p, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && (p == dir || strings.HasPrefix(p, dir+"/")) {
			o = append(o, filepath.Base(p))
		}
	}
	sort.Strings(o)
	return o
}

// tree27 reads everything below dir.
func tree27(dir string) map[string]string {
	o := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		name := p[len(dir)+1:]
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			o[name] = fi.Mode().String() + string(b)
		} else {
			o[name] = fi.Mode().String()
		}
		return nil
	})
	return o
}

// sameTree reports a file other than but that differs between two snapshots.
func sameTree(c *core.C, what string, a, b map[string]string, but string) {
	for k := range b {
		if _, ok := a[k]; !ok && k != but {
			c.Failf("%s leaves a file %q behind", what, k)
		}
	}
	for k, v := range a {
		if k == but {
			continue
		}
		w, ok := b[k]
		if !ok {
			c.Failf("%s removed %q", what, k)
		}
		if w != v {
			c.Failf("%s changed %q", what, k)
		}
	}
}

func c27(r *core.Run) {
	r.Level = "fault_enumeration"
	r.Rule = "cases: every history up to a depth of good and refused saves, loads of good, truncated, corrupt, missing and unreadable files; a load of every prefix of and with every single byte changed in a file; a save with every file size limit and with a fault at every operation; a load with a fault at every operation: after each call the process has no file open that it did not have before, and after calls without an injected fault nothing but the named file has changed; then the file is rewritten, truncated and removed below a loaded model; states are distinct (history, directory contents)"
	signal.Ignore(syscall.SIGXFSZ)
	base := filepath.Join(scratch(), "c27")
	os.RemoveAll(base)
	os.MkdirAll(base, 0o777)
	dir, err := filepath.EvalSymlinks(base)
	if err != nil {
		panic(core.Undecided(err.Error()))
	}
	// Files nobody holds any more are closed by the garbage collector: it must not
	// hide that they were left open.
	quiet := func(f func()) {
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		f()
	}
	file := filepath.Join(dir, "model.nn")
	closed := func(c *core.C, what string) {
		if o := openBelow(dir); len(o) > 0 {
			c.Failf("%s leaves %v open", what, o)
		}
	}
	lay := func() {
		os.RemoveAll(dir)
		os.MkdirAll(filepath.Join(dir, "d"), 0o777)
		os.WriteFile(filepath.Join(dir, "other.nn"), []byte("neighbour"), 0o644)
		for _, name := range []string{"model.nn~", "model.nn.bak", "model.nn.old", "model", "nn", ".model.nn", "MODEL.NN", "model.nn.nn"} {
			os.WriteFile(filepath.Join(dir, name), []byte("neighbour "+name), 0o640)
		}
		os.WriteFile(filepath.Join(dir, "d", "model.nn"), []byte("neighbour"), 0o600)
	}
	good := []*MH{
		buildModel(&ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{refLayer(ref.Linear, 1, 1, 1)}}, sgd(0.1, 0.2, 0.9), 0, 0.5),
		buildModel(&ref.Net{Loss: ref.CE, Layers: []*ref.Layer{refLayer(ref.Hidden, 2, 3, 1), refLayer(ref.Softmax, 3, 2, 2)}}, adam(0.02, 0.3), 1, 0.5),
	}
	many := &ref.Net{Loss: ref.MSE}
	for i := 0; i < 300; i++ {
		many.Layers = append(many.Layers, refLayer(ref.Linear, 1, 1, i))
	}
	unsavable := buildModel(many, sgd(0.1, 0, 0), 0, 0.5)
	var data [][]byte
	for _, h := range good {
		var buf bytes.Buffer
		d := nn.NewSavedModelData(h.Mod)
		if err := d.Serialize(&buf); err != nil {
			panic(err)
		}
		data = append(data, buf.Bytes())
	}
	// the loaded model does not depend on the file any more
	detached := func(c *core.C, m nn.Model) {
		h := wrapModel(m)
		x := mat(genM(2, m.InputSize, 1))
		before := h.params()
		p0, err0 := h.Mod.Predict(x)
		for k := 0; k < 3; k++ {
			switch k {
			case 0:
				b, _ := os.ReadFile(file)
				if f, err := os.OpenFile(file, os.O_WRONLY, 0); err == nil {
					f.Write(bytes.Repeat([]byte{0x41}, len(b)))
					f.Close()
				}
			case 1:
				os.Truncate(file, 0)
			case 2:
				os.Remove(file)
			}
			p1, err1 := h.Mod.Predict(x)
			c.Step(1)
			if !core.BitsM(before, h.params()) || (err0 == nil) != (err1 == nil) || err0 == nil && !core.BitsM(p0.M, p1.M) {
				c.Failf("rewriting, truncating or removing a file changes the model loaded from it earlier")
			}
		}
	}
	corrupt := [][]byte{{}, []byte("NNM"), data[1][:len(data[1])/2], data[1][:len(data[1])-1], append([]byte("XXX"), data[1]...), bytes.Repeat([]byte{0xff}, 300)}
	ops := []string{"save A", "save B", "save 300 layers", "save below a missing directory", "load", "load a damaged file", "load a missing file", "load a directory", "remove", "save over a directory"}
	words(len(ops), 1, pick(r.Max, 5, pick(r.Thorough, 4, 2)), func(w []int) {
		w = cp(w)
		r.Case("histories", func() string {
			var s []string
			for _, k := range w {
				s = append(s, ops[k])
			}
			return strings.Join(s, ", ")
		}, func(c *core.C) {
			c.Trace()
			lay()
			quiet(func() {
				for step, op := range w {
					before := tree27(dir)
					what := fmt.Sprintf("step %d (%s)", step, ops[op])
					touch := ""
					switch op {
					case 0, 1:
						touch = "model.nn"
						noErr(c, what, nn.SaveFile(&good[op].Mod, file))
						if b, _ := os.ReadFile(file); len(b) != len(data[op]) {
							c.Failf("%s: the file has %d bytes, the model %d", what, len(b), len(data[op]))
						}
					case 2:
						nn.SaveFile(&unsavable.Mod, file)
						touch = "model.nn" // C17 says what may become of it
					case 3:
						nn.SaveFile(&good[0].Mod, filepath.Join(dir, "none", "model.nn"))
					case 4:
						m, err := nn.LoadFile(file)
						closed(c, what)
						sameTree(c, what, before, tree27(dir), "")
						if err == nil {
							c.Step(1)
							keep, _ := os.ReadFile(file)
							fi, _ := os.Stat(file)
							detached(c, m)
							os.WriteFile(file, keep, fi.Mode())
							os.Chmod(file, fi.Mode())
						}
					case 5:
						for k, b := range corrupt {
							os.WriteFile(file, b, 0o666)
							before = tree27(dir)
							if _, err := nn.LoadFile(file); err == nil {
								c.Failf("%s: damaged file %d is loaded", what, k)
							}
							closed(c, what)
							sameTree(c, what, before, tree27(dir), "")
						}
					case 6:
						nn.LoadFile(filepath.Join(dir, "nothing"))
					case 7:
						nn.LoadFile(filepath.Join(dir, "d"))
					case 8:
						os.Remove(file)
						touch = "model.nn"
					case 9:
						nn.SaveFile(&good[1].Mod, filepath.Join(dir, "d"))
					}
					c.Step(1)
					closed(c, what)
					after := tree27(dir)
					sameTree(c, what, before, after, touch)
					c.State(core.Hash("hist", w[:step+1], len(after["model.nn"])))
				}
			})
		})
	})
	for di, b := range data {
		for n := 0; n <= 300; n++ {
			di, b, n := di, b, n
			r.Case("data behind the model", func() string { return fmt.Sprintf("model %d, %d bytes more", di, n) }, func(c *core.C) {
				c.Trace()
				for _, more := range [][]byte{bytes.Repeat([]byte("z"), n), bytes.Repeat([]byte{0}, n), bytes.Repeat(b, 3)[:n]} {
					lay()
					os.WriteFile(file, append(append([]byte(nil), b...), more...), 0o644)
					before := tree27(dir)
					quiet(func() {
						nn.LoadFile(file)
						closed(c, "the load")
					})
					sameTree(c, "the load", before, tree27(dir), "")
					quiet(func() {
						noErr(c, "SaveFile", nn.SaveFile(&good[di].Mod, file))
						closed(c, "the save")
					})
					sameTree(c, "the save", before, tree27(dir), "model.nn")
					c.Step(2)
				}
				c.State(core.Hash("more", di, n))
			})
		}
		for n := 0; n <= len(b); n++ {
			di, b, n := di, b, n
			r.Case("load every prefix", func() string { return fmt.Sprintf("model %d, %d of %d bytes", di, n, len(b)) }, func(c *core.C) {
				c.Trace()
				lay()
				os.WriteFile(file, b[:n], 0o644)
				before := tree27(dir)
				quiet(func() {
					nn.LoadFile(file)
					closed(c, "the load")
				})
				c.Step(1)
				sameTree(c, "the load", before, tree27(dir), "")
				c.State(core.Hash("prefix", di, n))
			})
			if n == len(b) {
				continue
			}
			r.Case("load with a changed byte", func() string { return fmt.Sprintf("model %d, byte %d", di, n) }, func(c *core.C) {
				c.Trace()
				lay()
				for _, x := range []byte{0x01, 0x80, 0xff} {
					d := append([]byte(nil), b...)
					d[n] ^= x
					os.WriteFile(file, d, 0o644)
					before := tree27(dir)
					quiet(func() {
						nn.LoadFile(file)
						closed(c, "the load")
					})
					c.Step(1)
					sameTree(c, "the load", before, tree27(dir), "")
					c.State(core.Hash("byte", di, n, x))
				}
			})
			r.Case("save with a file size limit", func() string { return fmt.Sprintf("model %d, %d of %d bytes", di, n, len(b)) }, func(c *core.C) {
				c.Trace()
				for _, old := range []bool{false, true} {
					lay()
					if old {
						os.WriteFile(file, []byte("old"), 0o644)
					}
					quiet(func() {
						withFileLimit(n, func() { nn.SaveFile(&good[di].Mod, file) })
						closed(c, "the failed save")
					})
					c.Step(1)
					c.State(core.Hash("limit", di, n, old))
				}
			})
		}
		// a fault at every operation of a save and of a load
		for _, load := range []bool{false, true} {
			run := func() error {
				if load {
					_, err := nn.LoadFile(file)
					return err
				}
				return nn.SaveFile(&good[di].Mod, file)
			}
			n := 0
			lay()
			os.WriteFile(file, b, 0o644)
			vos.Hook = func(vos.Op) *vos.Fault { n++; return nil }
			run()
			vos.Hook = nil
			for at := 0; at < n; at++ {
				for _, keep := range []int{-1, 0, 1, 10} {
					for _, more := range []bool{false, true} {
						di, b, load, at, keep, more := di, b, load, at, keep, more
						r.Case("faults", func() string {
							return fmt.Sprintf("model %d, load %v, operation %d fails (later ones too: %v), %d bytes kept", di, load, at, more, keep)
						}, func(c *core.C) {
							c.Trace()
							lay()
							os.WriteFile(file, b, 0o644)
							quiet(func() {
								k := 0
								vos.Hook = func(op vos.Op) *vos.Fault {
									k++
									if k-1 == at || more && k-1 > at {
										return &vos.Fault{Err: vos.ErrInjected, Keep: keep}
									}
									return nil
								}
								run()
								vos.Hook = nil
								closed(c, "the failed call")
							})
							c.Step(1)
							c.State(core.Hash("fault", di, load, at, keep, more))
						})
					}
				}
			}
		}
	}
}
