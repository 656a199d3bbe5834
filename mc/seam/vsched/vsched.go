// Package vsched is a controlled scheduler. The overlay inserts a call of P
// before every statement of the code under test; Explore then walks every
// interleaving of a set of threads up to a number of preemptions.
package vsched

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"time"

	"nnverif/core"
)

// Kinds of points.
const (
	Func = iota // function entry
	Loop        // loop body entry
	Stmt        // any statement
)

type thread struct {
	id      int
	resume  chan struct{}
	done    bool
	blocked bool
	goid    int64
	panic   string
	seen    map[int]int // executions of each point, when PerSite is set
}

type choice struct{ n, v int }

var (
	active  atomic.Bool
	level   int
	threads []*thread
	cur     *thread
	toMain  chan int // next thread, or -1 when the current one finished
	left    int      // preemptions left
	path    []choice
	pos     int
	checkID bool
	foreign atomic.Bool // the code under test runs goroutines of its own
	points  int64
	stuck   int

	undecided core.Undecided
)

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

func choose(n int) int {
	if pos == len(path) {
		path = append(path, choice{n, 0})
	}
	if path[pos].n != n {
		panic(core.Undecided("the code under test is not deterministic under a schedule"))
	}
	v := path[pos].v
	pos++
	return v
}

func others() []*thread {
	var o []*thread
	for _, t := range threads {
		if t != cur && !t.done {
			o = append(o, t)
		}
	}
	return o
}

// PerSite, if not 0, makes scheduling points only of the first executions of
// each statement by each thread: a bound for code that runs long loops.
var PerSite int

// PS is the scheduling point of a numbered statement.
func PS(kind, site int) {
	if PerSite > 0 && active.Load() && kind <= level && !(checkID && goid() != cur.goid) {
		if cur.seen[site] >= PerSite {
			return
		}
		cur.seen[site]++
	}
	P(kind)
}

// P is a scheduling point.
func P(kind int) {
	if !active.Load() || kind > level {
		return
	}
	if checkID && goid() != cur.goid {
		foreign.Store(true)
		return
	}
	points++
	stuck = 0
	cur.blocked = false
	if left == 0 {
		return
	}
	n := 0
	for _, t := range threads {
		if t != cur && !t.done {
			n++
		}
	}
	if n == 0 {
		return
	}
	v := choose(n + 1)
	if v == 0 {
		return
	}
	left--
	switchTo(others()[v-1])
}

func switchTo(t *thread) {
	me := cur
	toMain <- t.id
	<-me.resume
}

// Mine says whether the calling goroutine is under the scheduler's control.
func Mine() bool { return active.Load() && (!checkID || goid() == cur.goid) }

// Yield is called by a thread that cannot go on (a held lock).
func Yield() {
	if !Mine() {
		runtime.Gosched()
		return
	}
	o := others()
	stuck++
	if len(o) == 0 || stuck > 3*len(threads)+3 {
		panic("deadlock: every goroutine waits for a lock")
	}
	switchTo(o[choose(len(o))])
}

// Result describes an exploration.
type Result struct {
	Schedules int64
	Points    int64
	Complete  bool
	Foreign   bool // the code under test ran goroutines of its own, which are not controlled
	Hung      bool // a thread blocked outside of the scheduler's control
	Panic     string
	Schedule  string
}

// MaxTime ends an exploration that takes longer, as incomplete.
var MaxTime = 40 * time.Second

// Beat is called before each schedule.
var Beat func()

// Explore runs the threads made by setup under every schedule with at most
// bound preemptions at points up to lvl, and calls check after each. It stops
// at maxSched schedules and when check returns false.
func Explore(setup func() []func(), lvl, bound int, maxSched int64, check func(sched string, panics []string) bool) (res Result) {
	path = nil
	level = lvl
	checkID = true // find out about goroutines of the code under test
	foreign.Store(false)
	start := time.Now()
	defer func() { active.Store(false) }()
	for {
		fns := setup()
		threads, pos, left, points, stuck = nil, 0, bound, 0, 0
		toMain = make(chan int)
		for i := range fns {
			threads = append(threads, &thread{id: i, resume: make(chan struct{}), seen: map[int]int{}})
		}
		for i, f := range fns {
			t, f := threads[i], f
			ready := make(chan struct{})
			go func() {
				t.goid = goid()
				close(ready)
				<-t.resume
				defer func() {
					if p := recover(); p != nil {
						if u, ok := p.(core.Undecided); ok {
							undecided = u
						}
						t.panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
					}
					t.done = true
					toMain <- -1
				}()
				f()
			}()
			<-ready
		}
		active.Store(true)
		cur = threads[0]
		var trace []int
		timer := time.NewTimer(20 * time.Second)
		if Beat != nil {
			Beat()
		}
		ok := func() bool {
			v := 0
			if len(threads) > 1 {
				v = choose(len(threads))
			}
			next := threads[v]
			for {
				cur = next
				trace = append(trace, cur.id)
				cur.resume <- struct{}{}
				select {
				case id := <-toMain:
					if id >= 0 {
						next = threads[id]
						continue
					}
				case <-timer.C:
					return false
				}
				o := others()
				if len(o) == 0 {
					return true
				}
				k := 0
				if len(o) > 1 {
					k = choose(len(o))
				}
				next = o[k]
			}
		}()
		active.Store(false)
		timer.Stop()
		if !ok {
			res.Hung = true
			return
		}
		if undecided != "" {
			u := undecided
			undecided = ""
			panic(u)
		}
		res.Schedules++
		res.Points += points
		var ps []string
		for _, t := range threads {
			ps = append(ps, t.panic)
		}
		if res.Schedules == 1 {
			res.Foreign = foreign.Load()
			checkID = res.Foreign
		}
		if !check(fmt.Sprintf("threads in order %v, choices %v", trace, nonzero(path[:pos])), ps) {
			return
		}
		path = path[:pos]
		for len(path) > 0 && path[len(path)-1].v == path[len(path)-1].n-1 {
			path = path[:len(path)-1]
		}
		if len(path) == 0 {
			res.Complete = true
			return
		}
		path[len(path)-1].v++
		if res.Schedules >= maxSched || time.Since(start) > MaxTime {
			return
		}
	}
}

func nonzero(p []choice) string {
	s := ""
	for i, c := range p {
		if c.v != 0 {
			s += fmt.Sprintf("%d:%d ", i, c.v)
		}
	}
	return s
}
