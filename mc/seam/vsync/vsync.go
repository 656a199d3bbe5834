// Package vsync is a drop-in for sync whose locks know the controlled scheduler.
package vsync

import (
	"sync"

	"nnverif/seam/vsched"
)

type (
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Locker    = sync.Locker
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond               { return sync.NewCond(l) }
func OnceFunc(f func()) func()             { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	vsched.P(vsched.Func)
	for !m.m.TryLock() {
		if !vsched.Mine() {
			m.m.Lock()
			return
		}
		vsched.Yield()
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); vsched.P(vsched.Func) }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	vsched.P(vsched.Func)
	for !m.m.TryLock() {
		if !vsched.Mine() {
			m.m.Lock()
			return
		}
		vsched.Yield()
	}
}
func (m *RWMutex) RLock() {
	vsched.P(vsched.Func)
	for !m.m.TryRLock() {
		if !vsched.Mine() {
			m.m.RLock()
			return
		}
		vsched.Yield()
	}
}
func (m *RWMutex) TryLock() bool   { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool  { return m.m.TryRLock() }
func (m *RWMutex) Unlock()         { m.m.Unlock(); vsched.P(vsched.Func) }
func (m *RWMutex) RUnlock()        { m.m.RUnlock(); vsched.P(vsched.Func) }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Pool hands out the object put last, as the real one may.
type Pool struct {
	New func() any
	m   sync.Mutex
	s   []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	p.m.Lock()
	p.s = append(p.s, x)
	p.m.Unlock()
}
