// Command mc is the model-checking harness for github.com/cubeflix/nn: it
// enumerates operation histories, inputs, faults and schedules of the real
// code and compares every one with the reference model in package ref.
package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"nnverif/core"
	"nnverif/seam/ctl"
)

var checks = map[string]func(r *core.Run){}

func main() {
	if len(os.Args) >= 2 && os.Args[1] == "race" {
		raceRun(os.Args[2:])
		return
	}
	if len(os.Args) == 5 && os.Args[1] == "cold" {
		coldRun(os.Args[2:])
		return
	}
	if len(os.Args) < 3 {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Fprintln(os.Stderr, "usage: mc ID quick|thorough|replay [FILE]; checks:", ids)
		os.Exit(64)
	}
	id, tier := os.Args[1], os.Args[2]
	f := checks[id]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		os.Exit(64)
	}
	if os.Getenv("MC_CHILD") == "" {
		os.Exit(supervise(id, tier))
	}
	r := core.New(id, tier)
	if tier == "replay" {
		if err := r.SetReplay(os.Args[3]); err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			os.Exit(64)
		}
	}
	if p := os.Getenv("MC_PART"); p != "" && tier != "replay" {
		r.Part = p
		fmt.Sscan(os.Getenv("MC_SHARD"), &r.Shard, &r.Shards)
	}
	if p := os.Getenv("MC_PROGRESS"); p != "" {
		r.Progress = progress(p)
	}
	switch id {
	case "C15", "C16", "C17", "C18":
		// allocations out of proportion fail here, not in the sandbox
		lim := &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, lim)
	}
	r.Level = "model_checking"
	r.Before = ctl.Reset
	r.Extra("overlay", os.Getenv("MC_OVERLAY"))
	r.Watch(150 * time.Second)
	func() {
		defer func() {
			// a panic outside of a case: the implementation panicked in a set-up call
			if p := recover(); p != nil {
				if u, ok := p.(core.Undecided); ok {
					r.Extra("undecided_reason", string(u))
					r.Cap()
					return
				}
				r.Violation("set-up of the check", fmt.Sprintf("panic: %v", p))
			}
		}()
		f(r)
	}()
	r.Finish()
}

func progress(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)
	if err != nil {
		return nil
	}
	defer f.Close()
	f.Truncate(4096)
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return b
}

// supervise runs the check in child processes, so that a call that kills the
// process (fatal error, out of memory) is a verdict like any other. The cases
// are shared out between as many of them as there are cores.
func supervise(id, tier string) int {
	tmp := os.Getenv("MC_TMP")
	if tmp == "" {
		d, err := os.MkdirTemp("", "nnverif")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		defer os.RemoveAll(d)
		tmp = d
	}
	if tier == "replay" {
		code, tail, _ := child(tmp, 0, 0, nil, os.Args[1:]...)
		if !decided(code) {
			fmt.Printf("the process died: %s\nVIOLATION property=%s replay=%s\n", tail, id, os.Args[3])
			return 1
		}
		return code
	}
	r := core.New(id, tier)
	n := min(runtime.NumCPU(), 8)
	fmt.Sscan(os.Getenv("MC_SHARDS"), &n)
	var stop atomic.Bool
	var procs sync.Map
	codes := make([]int, n)
	done := make(chan int)
	for k := 0; k < n; k++ {
		k := k
		go func() {
			codes[k] = supervise1(id, tier, tmp, k, n, &stop, &procs)
			done <- k
		}()
	}
	for i := 0; i < n; i++ {
		if k := <-done; codes[k] == 1 && !stop.Swap(true) {
			// one violation is enough
			procs.Range(func(_, p any) bool { p.(*os.Process).Kill(); return true })
		}
	}
	r.Level = "model_checking"
	r.Shards = n
	code := 0
	for k := 0; k < n; k++ {
		if !r.Merge(partFile(tmp, k), codes[k] == 1) {
			r.Cap()
		}
		if codes[k] == 1 || code == 0 {
			code = codes[k]
		}
	}
	r.Extra("processes", n)
	if code != 0 && code != 1 {
		return code
	}
	r.Finish()
	return 3
}

func partFile(tmp string, k int) string { return filepath.Join(tmp, fmt.Sprint("part", k)) }

func decided(code int) bool { return code == 0 || code == 1 || code == 3 || code == 64 }

// child runs one child process to its end.
func child(tmp string, k, n int, procs *sync.Map, args ...string) (code int, tail, prog string) {
	prog = filepath.Join(tmp, fmt.Sprint("progress", k))
	os.Remove(prog)
	cmd := exec.Command(os.Args[0], args...)
	dir := filepath.Join(tmp, fmt.Sprint("files", k))
	os.Mkdir(dir, 0o777)
	os.Chmod(dir, 0o777)
	cmd.Env = append(os.Environ(), "MC_CHILD=1", "MC_PROGRESS="+prog, "MC_TMP="+dir, "GOMAXPROCS=2")
	if n > 0 {
		cmd.Env = append(cmd.Env, "MC_PART="+partFile(tmp, k), fmt.Sprintf("MC_SHARD=%d %d", k, n))
	}
	var errb strings.Builder
	cmd.Stdout, cmd.Stderr = os.Stdout, &errb
	err := cmd.Start()
	if err == nil {
		if procs != nil {
			procs.Store(k, cmd.Process)
		}
		err = cmd.Wait()
		if procs != nil {
			procs.Delete(k)
		}
	}
	code = 3
	if cmd.ProcessState != nil {
		code = cmd.ProcessState.ExitCode()
	}
	if code == 3 || code == 64 {
		fmt.Fprintln(os.Stderr, err, errb.String())
	}
	tail = errb.String()
	if len(tail) > 1500 {
		tail = tail[:1500]
	}
	return
}

// supervise1 runs one share of the cases.
func supervise1(id, tier, tmp string, k, n int, stop *atomic.Bool, procs *sync.Map) int {
	code, tail, prog := child(tmp, k, n, procs, id, tier)
	if stop.Load() {
		return 0
	}
	if decided(code) {
		return code
	}
	r := core.New(id, tier)
	r.Part = partFile(tmp, k)
	read := func() (int64, string) {
		b := progress(prog)
		if b == nil {
			return -1, ""
		}
		n := binary.LittleEndian.Uint64(b[8:])
		return int64(binary.LittleEndian.Uint64(b)) - 1, string(b[16 : 16+min(n, 4000)])
	}
	died := func(idx int64, desc, msg string) int {
		r.Died(idx, desc, msg)
		r.SavePart()
		return 1
	}
	idx, _ := read()
	if idx >= 0 {
		dir, _ := os.MkdirTemp(tmp, "died")
		path := core.ReplayFile(dir, id, tier, idx)
		for j := 0; j < 5; j++ {
			if c2, t2, _ := child(tmp, k, 0, procs, id, "replay", path); stop.Load() {
				return 0
			} else if !decided(c2) {
				_, desc := read()
				return died(idx, desc, "the process died: "+t2)
			} else if c2 == 1 {
				return 1
			}
		}
	}
	c2, t2, _ := child(tmp, k, n, procs, id, tier)
	if stop.Load() {
		return 0
	}
	if decided(c2) {
		return c2
	}
	i2, desc := read()
	return died(i2, desc, "the process died in two runs: "+tail+"\n"+t2)
}
