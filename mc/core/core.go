// Package core is the exploration driver: it runs enumerated cases, counts
// what was covered, records violations as replayable artefacts and writes the
// evidence file.
package core

import (
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"time"
)

// Run is one run of one check.
type Run struct {
	ID       string
	Tier     string
	Thorough bool // the wide bounds: the thorough tier, and what is cheap enough of it in the quick one
	Max      bool // the widest bounds: the thorough tier
	Level    string
	Rule     string // how cases are made and what makes one non-trivial
	Seed     int

	start     time.Time
	deadline  time.Time
	capped    bool
	undecided bool
	idx       int64 // running number of the case
	replay    int64 // only run this case when >= 0
	history   bool  // a replay that runs the cases before it in its share too
	cases     int64
	trans     int64
	traces    int64
	states    map[uint64]struct{}
	outcomes  map[uint64]struct{}
	inputs    map[uint64]struct{}
	samples   []any
	sampleGap int64
	extra     map[string]any
	groups    map[string]int64
	assume    []string
	viol      []violation
	maxViol   int

	Before   func() // runs before every case
	Progress []byte // shared with the supervisor: number of the running case

	// the cases are shared out between Shards processes, of which this is one;
	// what it covered goes to the file Part, to be merged
	Shard, Shards int
	Part          string

	caseStart atomic.Int64
	caseDesc  atomic.Value
}

type violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Case     int64  `json:"case"`
	Desc     string `json:"desc"`
	Message  string `json:"message"`
	Repro    string `json:"reproduced"`
	// set when the case fails only after the cases before it in its share
	Share  int `json:"share,omitempty"`
	Shares int `json:"shares,omitempty"`
	path   string
}

// C is one running case.
type C struct {
	r    *Run
	desc func() string
}

type failure struct{ msg string }

func New(id, tier string) *Run {
	r := &Run{ID: id, Tier: tier, start: time.Now(), replay: -1,
		states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, inputs: map[uint64]struct{}{},
		extra: map[string]any{}, groups: map[string]int64{}, sampleGap: 1, maxViol: 1}
	r.bounds()
	fmt.Sscan(os.Getenv("VERIF_SEED"), &r.Seed)
	limit := 420 * time.Second
	if r.Max {
		limit = 3 * time.Hour
	}
	r.deadline = r.start.Add(limit)
	return r
}

func (r *Run) bounds() {
	r.Max = r.Tier == "thorough"
	switch r.ID {
	case "C11", "C20", "C23":
		r.Thorough = r.Max
	default:
		r.Thorough = true
	}
}

// SetReplay restricts the run to the case recorded in a replay file.
func (r *Run) SetReplay(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	if v.Property != r.ID {
		return fmt.Errorf("replay file is for %s", v.Property)
	}
	r.Tier, r.replay = v.Tier, v.Case
	if v.Shares > 0 {
		r.Shard, r.Shards, r.history = v.Share, v.Shares, true
	}
	r.bounds()
	return nil
}

// cpuTime is what this process has used so far.
func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// Watch starts a watchdog: a case that makes no progress for limit is reported
// as a violation (an implementation call that never returns). The time counts
// only if this process either used most of it or none of it: a loop that does
// not end, or a call blocked for good. On a machine that is merely busy the
// watchdog waits.
func (r *Run) Watch(limit time.Duration) {
	go func() {
		var beat int64
		var since time.Time
		var cpu time.Duration
		for {
			time.Sleep(5 * time.Second)
			b := r.caseStart.Load()
			if b == 0 || b != beat {
				beat, since, cpu = b, time.Now(), cpuTime()
				continue
			}
			wall, used := time.Since(since), cpuTime()-cpu
			if wall < limit || (used < limit*4/5 && used > wall/50) {
				continue
			}
			d, _ := r.caseDesc.Load().(func() string)
			desc := ""
			if d != nil {
				desc = d()
			}
			r.report(violation{Property: r.ID, Tier: r.Tier, Case: r.idx, Desc: desc, Message: fmt.Sprintf("a call did not return within %v", limit), Repro: "hang"})
			r.Finish()
		}
	}()
}

// Beat tells the watchdog that the case goes on.
func (r *Run) Beat() {
	if b := r.caseStart.Load(); b != 0 {
		r.caseStart.Store(b + 1)
	}
}

func Hash(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return h.Sum64()
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	return h ^ (h >> 32)
}

// HashF hashes float bit patterns.
func HashF(h uint64, xs ...float64) uint64 {
	for _, x := range xs {
		h = mix(h, math.Float64bits(x))
	}
	return h
}

func HashM(h uint64, m [][]float64) uint64 {
	h = mix(h, uint64(len(m)))
	for _, r := range m {
		h = mix(h, uint64(len(r)))
		h = HashF(h, r...)
	}
	return h
}

// shardBlock cases in a row run in the same process.
const shardBlock = 8

// Case runs one case. desc is only called for samples and failures.
func (r *Run) Case(group string, desc func() string, f func(c *C)) {
	if r.capped {
		return
	}
	i := r.idx
	r.idx++
	if r.replay >= 0 && (i > r.replay || i < r.replay && !r.history) {
		return
	}
	if (r.replay < 0 || r.history) && r.Shards > 1 {
		b, n := i/shardBlock, int64(r.Shards)
		if (b+b/n)%n != int64(r.Shard) {
			return
		}
	}
	if time.Now().After(r.deadline) {
		r.capped = true
		return
	}
	if r.Progress != nil {
		binary.LittleEndian.PutUint64(r.Progress, uint64(i)+1)
		if r.replay >= 0 {
			n := copy(r.Progress[16:], clip(group+": "+desc(), 3000))
			binary.LittleEndian.PutUint64(r.Progress[8:], uint64(n))
		}
	}
	r.cases++
	r.groups[group]++
	c := &C{r: r, desc: desc}
	r.caseDesc.Store(desc)
	r.caseStart.Store(i<<32 + 1)
	msg := runOne(c, f)
	r.caseStart.Store(0)
	if msg != "" {
		repro, n := 0, 5
		for k := 0; k < n; k++ {
			if runOne(c, f) != "" {
				repro++
			}
		}
		v := violation{Property: r.ID, Tier: r.Tier, Case: i, Desc: group + ": " + desc(), Message: msg, Repro: fmt.Sprintf("%d of %d re-runs", repro, n)}
		if repro < n { // what came before has a part in it
			v.Share, v.Shares = r.Shard, max(r.Shards, 1)
		}
		r.report(v)
		if len(r.viol) >= r.maxViol {
			r.Finish()
		}
	}
	if r.groups[group] == 1 || (r.cases%r.sampleGap == 0 && len(r.samples) < 12) {
		if len(r.samples) < 40 {
			r.samples = append(r.samples, group+": "+clip(desc(), 400))
		}
		r.sampleGap = r.sampleGap*4 + 3
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Undecided is what a case panics with when the code under test turns out not
// to be deterministic under the harness's control, so that nothing can be said.
type Undecided string

func runOne(c *C, f func(c *C)) (msg string) {
	if c.r.Before != nil {
		c.r.Before()
	}
	defer func() {
		if p := recover(); p != nil {
			if u, ok := p.(Undecided); ok {
				c.r.Add("undecided_cases", 1)
				c.r.extra["undecided_reason"] = string(u)
				c.r.undecided = true
				return
			}
			if fl, ok := p.(failure); ok {
				msg = fl.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", p, clip(string(debug.Stack()), 3000))
		}
	}()
	f(c)
	return ""
}

func (r *Run) report(v violation) {
	dir := os.Getenv("VERIF_REPLAYS")
	if dir == "" {
		dir = "/verif/replays"
	}
	os.MkdirAll(dir, 0o777)
	v.path = filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.ID, v.Case))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(v.path, b, 0o666)
	fmt.Printf("%s\n  case %d: %s\n  %s\n  reproduced: %s\n", "violation found", v.Case, clip(v.Desc, 2000), clip(v.Message, 3000), v.Repro)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, v.path)
	r.viol = append(r.viol, v)
}

// Died writes the replay file of a case that killed the process.
func (r *Run) Died(idx int64, desc, msg string) string {
	r.report(violation{Property: r.ID, Tier: r.Tier, Case: idx, Desc: desc, Message: msg, Repro: "the process died again when the case was re-run"})
	return r.viol[len(r.viol)-1].path
}

// Violation reports a violation found outside of a case.
func (r *Run) Violation(desc, msg string) {
	r.report(violation{Property: r.ID, Tier: r.Tier, Case: r.idx, Desc: desc, Message: msg})
	r.Finish()
}

// Failf ends the case as a violation.
func (c *C) Failf(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }

// Step counts calls into the implementation (transitions).
func (c *C) Step(n int) {
	c.r.trans += int64(n)
	c.r.Beat()
}

// Trace counts an execution of the implementation compared step by step with the reference.
func (c *C) Trace() { c.r.traces++ }

// State records a distinct state or input.
func (c *C) State(h uint64) {
	c.r.states[h] = struct{}{}
	c.r.Beat()
}

// Outcome records a distinct observed outcome.
func (c *C) Outcome(h uint64) { c.r.outcomes[h] = struct{}{} }

// Count adds to a number shown in the evidence.
func (c *C) Count(k string, n int64) { c.r.Add(k, n) }

func (r *Run) Extra(k string, v any) { r.extra[k] = v }
func (r *Run) Add(k string, n int64) {
	v, _ := r.extra[k].(int64)
	r.extra[k] = v + n
}
func (r *Run) Assume(s ...string) { r.assume = append(r.assume, s...) }
func (r *Run) Capped() bool {
	if !r.capped && time.Now().After(r.deadline) {
		r.capped = true
	}
	return r.capped
}
func (r *Run) Cap()            { r.capped = true }
func (r *Run) Replaying() bool { return r.replay >= 0 }

// Finish writes the evidence file and exits.
func (r *Run) Finish() {
	if r.Part != "" {
		if err := r.SavePart(); err != nil {
			fmt.Fprintln(os.Stderr, "part:", err)
			os.Exit(3)
		}
		if len(r.viol) > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	}
	cov := map[string]any{}
	for k, v := range r.extra {
		cov[k] = v
	}
	cov["exhaustive"] = !r.capped && !r.undecided && r.replay < 0
	cov["samples"] = r.samples
	cov["cases_per_group"] = r.groups
	if len(r.outcomes) > 0 {
		cov["distinct_outcomes"] = len(r.outcomes)
	}
	cov["rule"] = r.Rule
	if r.Level == "model_checking" {
		cov["states"] = len(r.states)
		cov["transitions"] = r.trans
		cov["traces_validated_against_impl"] = r.traces
	} else {
		cov["evaluations"] = r.cases
		cov["distinct_nontrivial"] = len(r.states)
		cov["implementation_calls"] = r.trans
	}
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "assumptions": r.assume,
		"wall_s": math.Round(time.Since(r.start).Seconds()*100) / 100, "violations": len(r.viol),
	}
	if r.replay < 0 {
		dir := os.Getenv("VERIF_EVIDENCE")
		if dir == "" {
			dir = "/verif/evidence"
		}
		os.MkdirAll(dir, 0o777)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), b, 0o666); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			os.Exit(3)
		}
	}
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v violations=%d %.1fs\n",
		r.ID, r.Tier, r.cases, len(r.states), r.trans, r.traces, len(r.outcomes), cov["exhaustive"], len(r.viol), time.Since(r.start).Seconds())
	if len(r.viol) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// part is what one of several processes covered.
type part struct {
	Capped, Undecided    bool
	Cases, Trans, Traces int64
	States, Outcomes     []uint64
	Samples              []string
	Groups               map[string]int64
	Ints                 map[string]int64
	Other                map[string]string // as JSON
	Assume               []string
	Rule                 string
}

// ReplayFile writes a replay file for a case that has not failed yet.
func ReplayFile(dir, id, tier string, idx int64) string {
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, idx))
	b, _ := json.Marshal(violation{Property: id, Tier: tier, Case: idx})
	os.WriteFile(path, b, 0o666)
	return path
}

// SavePart writes the file Part.
func (r *Run) SavePart() error {
	p := part{Capped: r.capped, Undecided: r.undecided, Cases: r.cases, Trans: r.trans, Traces: r.traces,
		Groups: r.groups, Ints: map[string]int64{}, Other: map[string]string{}, Assume: r.assume, Rule: r.Rule}
	for h := range r.states {
		p.States = append(p.States, h)
	}
	for h := range r.outcomes {
		p.Outcomes = append(p.Outcomes, h)
	}
	for _, s := range r.samples {
		p.Samples = append(p.Samples, fmt.Sprint(s))
	}
	for k, v := range r.extra {
		switch v := v.(type) {
		case int64:
			p.Ints[k] = v
		case int:
			p.Ints[k] = int64(v)
		default:
			b, err := json.Marshal(v)
			if err != nil {
				return err
			}
			p.Other[k] = string(b)
		}
	}
	f, err := os.Create(r.Part)
	if err != nil {
		return err
	}
	defer f.Close()
	return gob.NewEncoder(f).Encode(p)
}

// Merge adds what another process covered, and says whether there was anything;
// failed says that it found a violation.
func (r *Run) Merge(path string, failed bool) bool {
	if failed {
		r.viol = append(r.viol, violation{})
	}
	f, err := os.Open(path)
	if err != nil {
		return false
	}
	defer f.Close()
	var p part
	if gob.NewDecoder(f).Decode(&p) != nil {
		return false
	}
	r.capped = r.capped || p.Capped
	r.undecided = r.undecided || p.Undecided
	r.cases += p.Cases
	r.trans += p.Trans
	r.traces += p.Traces
	for _, h := range p.States {
		r.states[h] = struct{}{}
	}
	for _, h := range p.Outcomes {
		r.outcomes[h] = struct{}{}
	}
	for i, s := range p.Samples {
		if i%r.Shards == r.Shard%r.Shards || len(r.samples) < 12 && i < 6 {
			r.samples = append(r.samples, s)
		}
	}
	r.Shard++
	for k, v := range p.Groups {
		r.groups[k] += v
	}
	for k, v := range p.Ints {
		r.Add(k, v)
	}
	for k, v := range p.Other {
		r.extra[k] = json.RawMessage(v)
	}
	r.assume, r.Rule = p.Assume, p.Rule
	return true
}
