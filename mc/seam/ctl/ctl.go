// Package ctl owns the randomness of the code under test. The overlay lets
// the repository import the shims mrand, xrand and vtime instead of math/rand,
// golang.org/x/exp/rand and time; they end here.
//
// A random source is a stream: position k of the stream with seed s is one
// random variable. In PRNG mode a stream is the real generator with that seed.
// In tree mode every random variable is a branching point of a choice tree
// that Explore walks exhaustively; sources with equal seeds share variables, as
// they do in reality.
package ctl

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"nnverif/core"
)

var (
	mu    sync.Mutex
	tree  bool
	draws atomic.Int64 // draws made so far
	seeds atomic.Int64 // sources seeded so far
	clock atomic.Int64
	used  atomic.Bool // some shim function was called: the seam is in place

	// choice tree
	grid    = 4 // a uniform float is one of the midpoints of grid cells
	path    []choice
	pos     int
	weight  float64
	memo    map[mkey]float64
	fixed   func(pos, n int) int // outcome of a draw instead of a branching
	logp    float64              // of the uniform choices since the last restart
	coarse  atomic.Int64         // draws in tree mode whose outcomes are only represented
	single  atomic.Int64         // those that have a single outcome
	coarseF atomic.Int64         // those of them that are uniform floats

	// log of normal draws
	logging bool
	normals []float64
)

type choice struct{ n, v int }
type mkey struct {
	seed uint64
	k    int
	kind string
}

// Seed is the base of everything derived from VERIF_SEED.
var Seed = func() int64 {
	var s int64
	fmt.Sscan(os.Getenv("VERIF_SEED"), &s)
	return s
}()

// Now is the virtual clock.
func Now() time.Time {
	used.Store(true)
	return time.Unix(1700000000, 0).Add(time.Duration(Seed)*1e6 + time.Duration(clock.Add(1))*1237)
}

// Advance moves the virtual clock.
func Advance(d time.Duration) { clock.Add(int64(d / 1237)) }

// Used says whether the code under test has reached the seam.
func Used() bool { return used.Load() }

// Draws is the number of draws so far.
func Draws() int64 { return draws.Load() }

// Seeds is the number of sources seeded so far.
func Seeds() int64 { return seeds.Load() }

// Stream is a random source.
type Stream struct {
	seed   uint64
	k      int
	gen    *rand.Rand // made on first use
	locked bool
	smu    sync.Mutex
}

func (s *Stream) real() *rand.Rand {
	if s.gen == nil {
		s.gen = rand.New(rand.NewSource(int64(s.seed)))
	}
	return s.gen
}

// NewStream makes the stream of a seed.
func NewStream(seed uint64) *Stream {
	used.Store(true)
	seeds.Add(1)
	return &Stream{seed: seed}
}

// Global makes a locked stream, as package-level functions use.
func Global(name uint64) *Stream {
	return &Stream{seed: name ^ uint64(Seed)<<32, locked: true}
}

// Custom makes a stream of a foreign source.
func Custom(s rand.Source) *Stream { return &Stream{seed: 1 << 63, gen: rand.New(s)} }

// Reseed restarts the stream with a seed.
func (s *Stream) Reseed(seed uint64) {
	used.Store(true)
	seeds.Add(1)
	if s.locked {
		s.smu.Lock()
		defer s.smu.Unlock()
	}
	s.seed, s.k = seed, 0
	s.gen = nil
}

func (s *Stream) enter() func() {
	used.Store(true)
	draws.Add(1)
	if s.locked {
		s.smu.Lock()
		return s.smu.Unlock
	}
	return func() {}
}

// Choose is a uniform choice in [0,n).
func (s *Stream) Choose(n int64, real func(r *rand.Rand) int64) int64 {
	defer s.enter()()
	if !tree {
		return real(s.real())
	}
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	k := s.k
	s.k++
	mu.Lock()
	if _, ok := memo[mkey{s.seed, k, fmt.Sprint("p", n)}]; !ok {
		memo[mkey{s.seed, k, fmt.Sprint("p", n)}] = 1
		logp -= math.Log(float64(n))
	}
	mu.Unlock()
	if n > 64 {
		// too wide for the tree: a few representatives
		return int64(branch(mkey{s.seed, k, fmt.Sprint("w", n)}, 4, func(c int) float64 { return float64(n) * (float64(c) + 0.5) / 4 }))
	}
	return int64(branch(mkey{s.seed, k, fmt.Sprint("i", n)}, int(n), func(c int) float64 { return float64(c) }))
}

// Float is a uniform float in [0,1).
func (s *Stream) Float(real func(r *rand.Rand) float64) float64 {
	defer s.enter()()
	if !tree {
		return real(s.real())
	}
	coarse.Add(1)
	coarseF.Add(1)
	k := s.k
	s.k++
	if grid < 0 { // the extremes and a middle
		return branch(mkey{s.seed, k, "e"}, 3, func(c int) float64 { return []float64{0, 0.5, 1 - 1.0/(1<<53)}[c] })
	}
	return branch(mkey{s.seed, k, "f"}, grid, func(c int) float64 { return (float64(c) + 0.5) / float64(grid) })
}

// Bits is a uniform 64-bit word.
func (s *Stream) Bits(real func(r *rand.Rand) uint64) uint64 {
	defer s.enter()()
	if !tree {
		return real(s.real())
	}
	coarse.Add(2)
	k := s.k
	s.k++
	c := uint64(branch(mkey{s.seed, k, "b"}, 4, func(c int) float64 { return float64(c) }))
	return c<<62 | (c^2)<<30 | c
}

// Normal is a standard normal (or exponential) draw; it does not branch.
func (s *Stream) Normal(kind string, real func(r *rand.Rand) float64) float64 {
	defer s.enter()()
	if tree {
		coarse.Add(2)
		single.Add(1)
	}
	v := real(s.real())
	if logging && kind == "norm" {
		mu.Lock()
		normals = append(normals, v)
		mu.Unlock()
	}
	return v
}

// Raw gives exclusive use of the real generator.
func (s *Stream) Raw(f func(r *rand.Rand)) {
	defer s.enter()()
	if tree {
		coarse.Add(2)
		single.Add(1)
	}
	f(s.real())
}

// Tree says whether tree mode is on.
func Tree() bool { return tree }

func branch(key mkey, n int, val func(c int) float64) float64 {
	mu.Lock()
	defer mu.Unlock()
	if v, ok := memo[key]; ok {
		return v
	}
	if pos == len(path) {
		c := choice{n, 0}
		if fixed != nil {
			c.v = fixed(pos, n)
		}
		path = append(path, c)
	}
	if path[pos].n != n {
		panic(core.Undecided("the code under test is not deterministic given its random draws"))
	}
	c := path[pos].v
	pos++
	weight /= float64(n)
	v := val(c)
	memo[key] = v
	return v
}

// Explore runs f once for every outcome of its draws (the leaves of the choice
// tree), with the probability of that outcome; it returns the number of leaves
// and whether the tree was walked completely. f gets the probability after its
// draws by calling its argument.
func Explore(gridCells, maxLeaves int, f func(prob func() float64)) (leaves int, complete bool) {
	defer func() { tree, path, memo = false, nil, nil }()
	grid, path = gridCells, nil
	c0 := clock.Load()
	for {
		tree, pos, weight, memo = true, 0, 1, map[mkey]float64{}
		clock.Store(c0)
		resetGlobals()
		f(func() float64 { return weight })
		leaves++
		// next leaf
		path = path[:pos]
		for len(path) > 0 && path[len(path)-1].v == path[len(path)-1].n-1 {
			path = path[:len(path)-1]
		}
		if len(path) == 0 {
			return leaves, true
		}
		path[len(path)-1].v++
		if leaves >= maxLeaves {
			return leaves, false
		}
	}
}

// Fixed runs f once, draw number k (of n outcomes) having the outcome
// choose(k, n). It returns the number of draws. With a negative number of cells
// uniform floats are 0, 1/2 or the largest below 1.
func Fixed(gridCells int, choose func(k, n int) int, f func()) int {
	defer func() { tree, path, memo, fixed = false, nil, nil, nil }()
	grid, path, fixed = gridCells, nil, choose
	tree, pos, weight, memo, logp = true, 0, 1, map[mkey]float64{}, 0
	resetGlobals()
	f()
	return pos
}

// LogProb is the logarithm of the true probability of the uniform choices made
// in the last run of Fixed.
func LogProb() float64 { return logp }

// Coarse counts the draws in tree mode of which the tree has representatives
// only: probabilities computed from them are approximate.
func Coarse() int64 { return coarse.Load() }

// Single counts those that do not branch at all.
func Single() int64 { return single.Load() }

// CoarseFloats counts those that are uniform floats, represented by the middles
// of the grid's cells.
func CoarseFloats() int64 { return coarseF.Load() }

var globals []func()

// OnReset registers the restart of a global stream.
func OnReset(f func()) { globals = append(globals, f) }

func resetGlobals() {
	for _, f := range globals {
		f()
	}
}

// Reset restarts the global streams and the clock, so that a run starts alike.
func Reset() { clock.Store(0); resetGlobals() }

// Restart puts a stream back to its beginning.
func (s *Stream) Restart(seed uint64) {
	s.seed, s.k = seed, 0
	s.gen = nil
}

// LogNormals records the normal draws made by f.
func LogNormals(f func()) []float64 {
	normals, logging = nil, true
	defer func() { logging = false }()
	f()
	return normals
}
