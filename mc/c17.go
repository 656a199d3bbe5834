package main

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	nn "github.com/cubeflix/nn"

	"nnverif/core"
	"nnverif/ref"
	"nnverif/seam/vos"
)

func init() { checks["C17"] = c17 }

// withFileLimit runs f while no file can grow beyond n bytes.
func withFileLimit(n int, f func()) {
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	lim := syscall.Rlimit{Cur: uint64(n), Max: old.Max}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(core.Undecided("cannot limit the file size: " + err.Error()))
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// saveFixture is what a save of a model may meet.
type saveFixture struct {
	name string
	old  []byte // earlier content, nil for no file
}

// afterFailure judges what is left behind by a save that returned an error.
func afterFailure(c *core.C, file string, old []byte, h *MH) {
	b, err := os.ReadFile(file)
	if err != nil || (old != nil && bytes.Equal(b, old)) {
		return
	}
	m, err := nn.LoadFile(file)
	c.Trace()
	c.Step(1)
	if err != nil {
		c.Outcome(core.Hash("left unloadable"))
		return
	}
	c.Outcome(core.Hash("left loadable"))
	sameModel(c, "the model in the file left behind by a failed save", h, wrapModel(m))
}

// afterSuccess judges a save that returned no error.
func afterSuccess(c *core.C, file string, h *MH, size int) {
	b, err := os.ReadFile(file)
	noErr(c, "reading the saved file", err)
	if len(b) != size {
		c.Failf("saving returned no error, but the file has %d bytes and the model %d", len(b), size)
	}
	m, err := nn.LoadFile(file)
	c.Trace()
	c.Step(1)
	noErr(c, "LoadFile after a save without error", err)
	sameModel(c, "saved file", h, wrapModel(m))
	c.Outcome(core.Hash("saved"))
}

func c17(r *core.Run) {
	r.Level = "fault_enumeration"
	r.Rule = "cases: saving models over no file, shorter, equal and longer earlier content (every length to some thousand bytes), other models, with the file size limited by the kernel to every number of bytes, with a fault injected at every file operation (error, partial write of every length, loss of the tail at close), to unwritable paths, retries after a failure, large models, and of models that cannot be saved; the file left behind is judged after each; non-trivial means a distinct (model, earlier content, fault)"
	r.Assume("the operating system's file operations either do what they report or report an error; atomicity across a crash of the process is not claimed")
	signal.Ignore(syscall.SIGXFSZ)
	dir := filepath.Join(scratch(), "c17")
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o777)
	opts := []*ref.Opt{sgd(0.1, 0.2, 0.9), adam(0.02, 0.3)}
	type subject struct {
		h    *MH
		size int
		b    []byte
	}
	var subs []subject
	nets := fitNets()
	deep := &ref.Net{Loss: ref.MSE}
	for i := 0; i < 6; i++ {
		deep.Layers = append(deep.Layers, kindMain[i].layer(2, 2, i))
	}
	nets = append([]*ref.Net{{Loss: ref.MSE, Layers: []*ref.Layer{refLayer(ref.Linear, 1, 1, 1)}}}, append(nets, deep)...)
	for i, n := range nets {
		h := buildModel(n, opts[i%2], i%3, 0.5)
		var buf bytes.Buffer
		d := nn.NewSavedModelData(h.Mod)
		if err := d.Serialize(&buf); err != nil {
			panic(err)
		}
		subs = append(subs, subject{h, buf.Len(), buf.Bytes()})
	}
	fixtures := func(s subject) []saveFixture {
		o := []saveFixture{{"no file", nil}, {"empty file", []byte{}}, {"one byte", []byte("N")}}
		o = append(o, saveFixture{"longer text", bytes.Repeat([]byte("y"), s.size+500)}, saveFixture{"equally long text", bytes.Repeat([]byte("y"), s.size)})
		o = append(o, saveFixture{"the same model", s.b}, saveFixture{"the same model and more", append(append([]byte(nil), s.b...), s.b...)})
		// the same structure with other parameters, and other structures
		other := append([]byte(nil), s.b...)
		for i := len(other) - 8; i < len(other); i++ {
			other[i] ^= 0x11
		}
		return append(o, saveFixture{"a sibling model", other}, saveFixture{"a smaller model", subs[0].b}, saveFixture{"a larger model", subs[len(subs)-1].b})
	}
	file := filepath.Join(dir, "model.nn")
	prepare := func(old []byte) {
		os.Remove(file)
		if old != nil {
			if err := os.WriteFile(file, old, 0o666); err != nil {
				panic(core.Undecided("cannot write the scratch file: " + err.Error()))
			}
		}
	}
	// earlier content of every length, of text and of a model's beginning
	big := buildModel(&ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{refLayer(ref.Linear, 40, 40, 1)}}, opts[0], 0, 0.5)
	var bigBuf bytes.Buffer
	bigData := nn.NewSavedModelData(big.Mod)
	if err := bigData.Serialize(&bigBuf); err != nil {
		panic(err)
	}
	bigSize := bigBuf.Len()
	for n := 0; n <= pick(r.Max, 40000, 4100); n++ {
		n := n
		if n > 2200 && n%256 > 1 && n%256 != 255 && n%1000 > 1 && !r.Max {
			continue
		}
		r.Case("earlier content of every length", func() string { return fmt.Sprintf("%d bytes", n) }, func(c *core.C) {
			for k, fill := range [][]byte{[]byte("z"), {0}, subs[1].b} {
				old := bytes.Repeat(fill, n/len(fill)+1)[:n]
				for _, t := range []struct {
					h    *MH
					size int
				}{{subs[0].h, subs[0].size}, {subs[2].h, subs[2].size}, {big, bigSize}} {
					prepare(old)
					noErr(c, "SaveFile", nn.SaveFile(&t.h.Mod, file))
					c.Trace()
					c.Step(1)
					afterSuccess(c, file, t.h, t.size)
				}
				c.State(core.Hash("length", n, k))
			}
		})
	}
	for si, s := range subs {
		si, s := si, s
		for fi, fx := range fixtures(s) {
			fx := fx
			r.Case("no fault", func() string { return fmt.Sprintf("model %d over %s", si, fx.name) }, func(c *core.C) {
				prepare(fx.old)
				noErr(c, "SaveFile", nn.SaveFile(&s.h.Mod, file))
				c.Trace()
				c.Step(1)
				c.State(core.Hash("plain", si, fx.name))
				afterSuccess(c, file, s.h, s.size)
			})
			if fi > 3 && si > 2 && fi != 7 && !r.Thorough {
				continue
			}
			for k := 0; k <= s.size+1; k++ {
				k := k
				r.Case("file size limit", func() string { return fmt.Sprintf("model %d (%d bytes) over %s, limit %d", si, s.size, fx.name, k) }, func(c *core.C) {
					prepare(fx.old)
					var err error
					withFileLimit(k, func() { err = nn.SaveFile(&s.h.Mod, file) })
					c.Trace()
					c.Step(1)
					c.State(core.Hash("limit", si, fx.name, k))
					if err == nil {
						afterSuccess(c, file, s.h, s.size)
						return
					}
					if k >= s.size {
						c.Failf("saving %d bytes failed although %d are allowed: %v", s.size, k, err)
					}
					afterFailure(c, file, fx.old, s.h)
				})
			}
			// faults at every operation the save makes
			var ops []vos.Op
			prepare(fx.old)
			vos.Hook = func(op vos.Op) *vos.Fault { ops = append(ops, op); return nil }
			err := nn.SaveFile(&s.h.Mod, file)
			vos.Hook = nil
			if err != nil {
				continue // reported above
			}
			if si == 0 && fi == 0 {
				var names []string
				for _, o := range ops {
					names = append(names, o.Kind)
				}
				r.Extra("file_operations_of_a_save", names)
			}
			for oi, op := range ops {
				keeps := []int{0}
				switch op.Kind {
				case "write":
					keeps = nil
					for k := 0; k <= op.Len; k++ {
						keeps = append(keeps, k)
					}
				case "close":
					keeps = nil
					for k := -1; k < s.size; k++ {
						keeps = append(keeps, k)
					}
				}
				for _, k := range keeps {
					oi, op, k := oi, op, k
					r.Case("fault at an operation", func() string {
						return fmt.Sprintf("model %d over %s, operation %d (%s) fails, %d bytes kept", si, fx.name, oi, op.Kind, k)
					}, func(c *core.C) {
						prepare(fx.old)
						n := 0
						hit := false
						vos.Hook = func(o vos.Op) *vos.Fault {
							n++
							if n-1 == oi && o.Kind == op.Kind {
								hit = true
								return &vos.Fault{Err: vos.ErrInjected, Keep: k}
							}
							return nil
						}
						err := nn.SaveFile(&s.h.Mod, file)
						vos.Hook = nil
						c.Trace()
						c.Step(1)
						c.State(core.Hash("op", si, fx.name, oi, k))
						if !hit {
							return
						}
						if err == nil {
							// fine only if the whole model is there all the same
							b, rerr := os.ReadFile(file)
							if rerr != nil || len(b) != s.size {
								c.Failf("saving returned no error although its %s failed: the file has %d of %d bytes", op.Kind, len(b), s.size)
							}
							afterSuccess(c, file, s.h, s.size)
							return
						}
						afterFailure(c, file, fx.old, s.h)
					})
				}
			}
		}
	}
	// large models, over large files
	for _, w := range []int{20, 33, 64, 91, 130, 190} {
		w := w
		n := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{refLayer(ref.Sigmoid, w, w, 1), refLayer(ref.Linear, w, 2, 2)}}
		h := buildModel(n, opts[w%2], w%3, 0.5)
		var buf bytes.Buffer
		d := nn.NewSavedModelData(h.Mod)
		if err := d.Serialize(&buf); err != nil {
			panic(err)
		}
		b := buf.Bytes()
		size := len(b)
		other := append([]byte(nil), b...)
		for i := size / 2; i < size; i++ {
			other[i] ^= 0x15
		}
		front := append([]byte(nil), b...)
		for i := 100; i < 200; i++ {
			front[i] ^= 0x15
		}
		for fi, fx := range []saveFixture{{"no file", nil}, {"text of equal length", bytes.Repeat([]byte("y"), size)}, {"a sibling model", other}, {"a model with a few other parameters", front}, {"longer text", bytes.Repeat([]byte("y"), size+size/2)}, {"the same model twice", append(append([]byte(nil), b...), b...)}} {
			fi, fx := fi, fx
			r.Case("large models", func() string { return fmt.Sprintf("width %d (%d bytes) over %s", w, size, fx.name) }, func(c *core.C) {
				prepare(fx.old)
				noErr(c, "SaveFile", nn.SaveFile(&h.Mod, file))
				c.Trace()
				c.Step(1)
				c.State(core.Hash("large", w, fx.name))
				afterSuccess(c, file, h, size)
			})
			var at []int
			for _, unit := range []int{4096, 32768, 65536} {
				for k := unit; k < size; k += unit {
					at = append(at, k-1, k, k+1)
				}
			}
			at = append(at, 0, 1, size/2, size-4096, size-8, size-1)
			for ai, k := range at {
				k := k
				if k < 0 || fi > 1 && !r.Thorough && ai%7 != 0 && k < size-8 {
					continue
				}
				r.Case("large models, file size limit", func() string { return fmt.Sprintf("width %d (%d bytes) over %s, limit %d", w, size, fx.name, k) }, func(c *core.C) {
					prepare(fx.old)
					var err error
					withFileLimit(k, func() { err = nn.SaveFile(&h.Mod, file) })
					c.Trace()
					c.Step(1)
					c.State(core.Hash("largelimit", w, fx.name, k))
					if err == nil {
						afterSuccess(c, file, h, size)
						return
					}
					afterFailure(c, file, fx.old, h)
				})
			}
			var ops []vos.Op
			prepare(fx.old)
			vos.Hook = func(op vos.Op) *vos.Fault { ops = append(ops, op); return nil }
			err := nn.SaveFile(&h.Mod, file)
			vos.Hook = nil
			if err != nil {
				continue
			}
			stride := 1 + len(ops)/40
			for oi := range ops {
				if oi%stride != 0 && oi < len(ops)-4 && !r.Thorough {
					continue
				}
				for _, k := range []int{-1, 0, 1, ops[oi].Len / 2, ops[oi].Len - 1, ops[oi].Len, size - 1} {
					if ops[oi].Kind == "write" && (k < 0 || k > ops[oi].Len) || ops[oi].Kind != "write" && ops[oi].Kind != "close" && k != 0 {
						continue
					}
					oi, op, k := oi, ops[oi], k
					r.Case("large models, fault at an operation", func() string {
						return fmt.Sprintf("width %d over %s, operation %d (%s) fails, %d bytes kept", w, fx.name, oi, op.Kind, k)
					}, func(c *core.C) {
						prepare(fx.old)
						n, hit := 0, false
						vos.Hook = func(o vos.Op) *vos.Fault {
							n++
							if n-1 == oi && o.Kind == op.Kind {
								hit = true
								return &vos.Fault{Err: vos.ErrInjected, Keep: k}
							}
							return nil
						}
						err := nn.SaveFile(&h.Mod, file)
						vos.Hook = nil
						c.Trace()
						c.Step(1)
						c.State(core.Hash("largeop", w, fx.name, oi, k))
						if !hit {
							return
						}
						if err == nil {
							afterSuccess(c, file, h, size)
							return
						}
						afterFailure(c, file, fx.old, h)
					})
				}
			}
		}
	}
	// histories of saves to one path
	words(3, 1, pick(r.Max, 7, pick(r.Thorough, 6, 5)), func(w []int) {
		w = cp(w)
		r.Case("histories", func() string { return fmt.Sprint(w) }, func(c *core.C) {
			prepare(nil)
			pickS := []int{0, 2, len(subs) - 1}
			for _, k := range w {
				s := subs[pickS[k]]
				noErr(c, "SaveFile", nn.SaveFile(&s.h.Mod, file))
				c.Trace()
				c.Step(1)
				afterSuccess(c, file, s.h, s.size)
			}
			c.State(core.Hash("hist", w))
		})
	})
	// a failed save and then a good one
	for si, s := range subs {
		for k := 0; k < s.size; k += pick(r.Thorough, 1, 5) {
			si, s, k := si, s, k
			r.Case("retry after a failure", func() string { return fmt.Sprintf("model %d limit %d", si, k) }, func(c *core.C) {
				prepare(nil)
				var err error
				withFileLimit(k, func() { err = nn.SaveFile(&s.h.Mod, file) })
				if err == nil {
					c.Failf("a save of %d bytes with at most %d allowed returned no error", s.size, k)
				}
				noErr(c, "SaveFile", nn.SaveFile(&s.h.Mod, file))
				c.Trace()
				c.Step(2)
				afterSuccess(c, file, s.h, s.size)
				c.State(core.Hash("retry", si, k))
			})
		}
	}
	// file names of every length and kind, in directories of every depth
	var names []string
	for n := 1; n <= 255; n++ {
		names = append(names, strings.Repeat("m", n))
	}
	for n := 1; n <= 15; n++ {
		names = append(names, strings.Repeat(strings.Repeat("d", 200)+"/", n)+"model")
	}
	names = append(names, " ", "a b", "-", "--help", ".hidden", "model.", "model.tmp", "model~", "model.nn", "m%sodel%d", "$HOME", "~", "*", "é", "模型", "\xff\xfe", "a\nb", "'", "\"", "\\", "a\\b", "a:b", "con", "x/../y", "./z", "x//w")
	for _, name := range names {
		for si := range pick(r.Thorough, []int{0, 1}, []int{0}) {
			name, s := name, subs[si]
			r.Case("file names", func() string { return fmt.Sprintf("model %d as %q (%d bytes)", si, name, len(name)) }, func(c *core.C) {
				top := filepath.Join(dir, "names")
				defer os.RemoveAll(top)
				path := top + "/" + name
				if os.MkdirAll(top+"/x", 0o777) != nil || os.MkdirAll(filepath.Dir(path), 0o777) != nil || os.WriteFile(path, []byte("earlier content"), 0o666) != nil {
					return // not a path this file system takes
				}
				for k := 0; k < 2; k++ {
					if k == 1 {
						os.Remove(path)
					}
					if err := nn.SaveFile(&s.h.Mod, path); err != nil {
						if len(name) < 200 {
							c.Failf("saving to %q failed: %v", path, err)
						}
						if b, err := os.ReadFile(path); k == 0 && (err != nil || string(b) != "earlier content") {
							c.Failf("saving to %q failed and changed the existing file", path)
						}
						continue
					}
					c.Step(1)
					afterSuccess(c, path, s.h, s.size)
				}
				c.State(core.Hash("name", si, name))
			})
		}
	}
	// paths that cannot be written
	full := filepath.Join(dir, "full")
	lay := func() {
		os.Remove(full)
		os.Symlink("/dev/full", full)
		os.MkdirAll(filepath.Join(dir, "d"), 0o777)
		os.WriteFile(filepath.Join(dir, "plain"), []byte("x"), 0o666)
		os.Remove(filepath.Join(dir, "loop"))
		os.Symlink(filepath.Join(dir, "loop"), filepath.Join(dir, "loop"))
	}
	paths := []string{"", dir, filepath.Join(dir, "d") + "/", filepath.Join(dir, "none", "model"), filepath.Join(dir, strings.Repeat("n", 300)), filepath.Join(dir, "nul\x00name"), filepath.Join(dir, "plain", "below"), filepath.Join(dir, "loop")}
	if fi, err := os.Stat("/dev/full"); err == nil && fi.Mode()&os.ModeCharDevice != 0 {
		paths = append(paths, full)
	}
	for si, s := range subs {
		for _, p := range paths {
			si, s, p := si, s, p
			r.Case("unwritable paths", func() string { return fmt.Sprintf("model %d to %q", si, p) }, func(c *core.C) {
				lay()
				err := nn.SaveFile(&s.h.Mod, p)
				c.Trace()
				c.Step(1)
				if err == nil {
					// Only right if the model is there, say because a link was replaced.
					if fi, err := os.Stat(p); err != nil || !fi.Mode().IsRegular() {
						c.Failf("saving to %q returned no error", p)
					}
					afterSuccess(c, p, s.h, s.size)
				}
				c.State(core.Hash("path", si, p))
			})
			r.Case("unreadable paths", func() string { return fmt.Sprintf("%q", p) }, func(c *core.C) {
				if p == full {
					return
				}
				lay()
				if _, err := nn.LoadFile(p); err == nil {
					c.Failf("loading %q returned no error", p)
				}
				c.Trace()
				c.Step(1)
			})
		}
	}
	// models that cannot be saved
	bad := map[string]func() *MH{}
	for _, n := range []int{128, 129, 200, 255, 256, 257, 300, 383, 384, 511, 512} {
		n := n
		bad[fmt.Sprintf("%03d layers", n)] = func() *MH {
			net := &ref.Net{Loss: ref.MSE}
			for i := 0; i < n; i++ {
				net.Layers = append(net.Layers, refLayer(ref.Linear, 1, 1, i))
			}
			return buildModel(net, opts[0], 0, 0.5)
		}
	}
	for li := 0; li < 3; li++ {
		for which := 0; which < 4; which++ {
			li, which := li, which
			bad[fmt.Sprintf("layer %d with broken parameters %d", li, which)] = func() *MH {
				net := &ref.Net{Loss: ref.MSE, Layers: []*ref.Layer{refLayer(ref.Linear, 2, 3, 1), refLayer(ref.Sigmoid, 3, 2, 2), refLayer(ref.Linear, 2, 2, 3)}}
				h := buildModel(net, opts[0], 0, 0.5)
				l := h.Layers[li]
				switch which {
				case 0:
					*l.W() = mat(genM(l.In+1, l.Out, 1))
				case 1:
					*l.W() = mat(genM(l.In, l.Out+1, 1))
				case 2:
					*l.B() = mat(genM(1, l.Out+1, 1))
				case 3:
					*l.B() = mat(genM(2, l.Out, 1))
				}
				return h
			}
		}
	}
	for _, name := range sortedKeys(bad) {
		for oi, old := range [][]byte{nil, {}, []byte("earlier content"), subs[1].b, bytes.Repeat([]byte("z"), 5000)} {
			name, oi, old := name, oi, old
			r.Case("unsaveable models", func() string { return fmt.Sprintf("%s over earlier content %d", name, oi) }, func(c *core.C) {
				prepare(old)
				h := bad[name]()
				if err := nn.SaveFile(&h.Mod, file); err == nil {
					c.Failf("a model with %s was saved without error", name)
				}
				c.Trace()
				c.Step(1)
				c.State(core.Hash("bad", name, oi))
				b, err := os.ReadFile(file)
				if old == nil {
					if err == nil && len(b) > 0 {
						if _, err := nn.LoadFile(file); err == nil {
							c.Failf("the refused save left a file behind that loads")
						}
					}
					return
				}
				if err != nil || !bytes.Equal(b, old) {
					c.Failf("the refused save changed the existing file: %d bytes, before %d (%v)", len(b), len(old), err)
				}
			})
		}
	}
	os.RemoveAll(dir)
}
