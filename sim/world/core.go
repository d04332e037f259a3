// The simulator's core: seeded randomness, run specifications, the run
// environment handed to every simulated world, and the worker's commands.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---------------------------------------------------------------- randomness

type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed*0x9e3779b97f4a7c15 + 0x1234567} }
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) In(lo, hi int) int         { return lo + r.N(hi-lo+1) }
func (r *Rng) F() float64                { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) P(p float64) bool          { return r.F() < p }
func (r *Rng) Pick(xs ...int) int        { return xs[r.N(len(xs))] }
func (r *Rng) PickS(xs ...string) string { return xs[r.N(len(xs))] }
func (r *Rng) Fork(tag string) *Rng {
	h := fnv.New64a()
	h.Write([]byte(tag))
	return NewRng(r.U64() ^ h.Sum64())
}

// -------------------------------------------------------------- run description

type Sched struct {
	Seed     uint64   `json:"seed"`
	Pick     uint32   `json:"pick"`
	Mean     uint32   `json:"mean"`
	Victims  uint64   `json:"victims"`
	Hot      uint32   `json:"hot,omitempty"`   // one in so many preemption points stalls whoever reaches it
	Stall    uint64   `json:"stall,omitempty"` // ... for so many steps
	Drag     int64    `json:"drag,omitempty"`  // nanoseconds every preemption point takes
	Wall     int64    `json:"wall"`
	MaxSteps uint64   `json:"maxsteps"`
	Zone     string   `json:"zone,omitempty"`
	Replay   bool     `json:"replay"`
	Picks    []uint16 `json:"-"`
	Pre      []uint32 `json:"-"`
	PicksL   []int    `json:"picks"`
	PreL     []int    `json:"pre"`
}

type Spec struct {
	Prop  string          `json:"prop"`
	Seed  uint64          `json:"seed"`
	Idx   int             `json:"idx"`
	Sched Sched           `json:"sched"`
	W     json.RawMessage `json:"w"`
}

type Fail struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Prop is one property's simulated world.
type Prop struct {
	ID    string
	Gen   func(r *Rng, big bool) any    // workload and faults, as explicit data
	Tune  func(r *Rng, s *Sched)        // optional schedule tuning
	TuneW func(r *Rng, w any, s *Sched) // the same, knowing the workload
	Legal func(w any)                   // optional: bring a workload the minimiser made back into what the property is about
	New   func() any                    // unmarshal target
	Prep  func(w any)                   // before the simulation starts: reference processes
	Run   func(e *Env, w any)           // drives one run (controller side)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

const refWall = int64(1700000000) * 1e9

func genSched(r *Rng) Sched {
	s := Sched{Seed: r.U64() >> 12, MaxSteps: 80_000_000}
	switch r.N(10) {
	case 0:
		s.Pick = runtime.SimFIFO
	case 1:
		s.Pick = runtime.SimLIFO
	case 2, 3:
		s.Pick = runtime.SimMixed
	case 4, 5, 6:
		s.Pick = runtime.SimStarve
		for i := 0; i < 1+r.N(4); i++ {
			s.Victims |= 1 << uint(1+r.N(14))
		}
	default:
		s.Pick = runtime.SimUniform
	}
	s.Mean = uint32(r.Pick(0, 1, 2, 3, 5, 8, 20, 60, 200, 1000))
	if r.P(0.4) {
		s.Hot = uint32(r.Pick(4, 10, 30, 100, 400))
		s.Stall = uint64(r.Pick(20, 200, 2000, 20000, 1<<40))
	}
	if r.P(0.3) {
		s.Drag = int64(r.Pick(7, 1e3, 50e3, 1e6, 15e6))
	}
	s.Wall = refWall + int64(r.N(2_000_000_000))*1e9/4 - 250_000_000*1e9
	return s
}

func genSpec(p *Prop, seed uint64, idx int, big bool) *Spec {
	r := NewRng(seed*1_000_003 + uint64(idx)*7919 + hashS(p.ID))
	r.U64()
	sp := &Spec{Prop: p.ID, Seed: seed, Idx: idx}
	sp.Sched = genSched(r)
	w := p.Gen(r, big)
	if p.Tune != nil {
		p.Tune(r, &sp.Sched)
	}
	if p.TuneW != nil {
		p.TuneW(r, w, &sp.Sched)
	}
	if sp.Sched.Hot > 0 && r.P(0.6) {
		sp.Sched.Mean = uint32(r.Pick(0, 0, 200, 5000))
	}
	b, err := json.Marshal(w)
	if err != nil {
		panic(err)
	}
	sp.W = b
	return sp
}

func hashS(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// ------------------------------------------------------------------ environment

type Env struct {
	Spec    *Spec
	fails   []Fail
	probes  map[string]int
	faults  map[string]int
	ev      uint64
	log     []string
	own     int // harness goroutines alive
	dirty   bool
	nt      bool // non-trivial by the world's own rule
	ended   bool
	stop    bool
	aborted bool
	cleanup []func()
	Clean   bool
	only    string // the one class of failures that this world is about, "": any
}

func (e *Env) Fail(class, f string, a ...any) {
	if e.stop || len(e.fails) > 0 || e.only != "" && e.only != class {
		return
	}
	d := fmt.Sprintf(f, a...)
	if len(d) > 2000 {
		d = d[:2000]
	}
	e.fails = append(e.fails, Fail{class, d})
}
func (e *Env) Failed() bool      { return len(e.fails) > 0 }
func (e *Env) Probe(name string) { e.probes[name]++ }
func (e *Env) Fault(name string) { e.faults[name]++ }
func (e *Env) Nontrivial()       { e.nt = true }

// Event appends to the recorded history.
func (e *Env) Event(f string, a ...any) {
	s := strconv.FormatUint(runtime.SimStep(), 10) + " g" + strconv.Itoa(int(runtime.SimID())) + " " + fmt.Sprintf(f, a...)
	for i := 0; i < len(s); i++ {
		e.ev = (e.ev ^ uint64(s[i])) * 1099511628211
	}
	if len(e.log) < 4000 {
		e.log = append(e.log, s)
	}
}

// Go starts a harness goroutine (a simulated caller). Panics become events.
func (e *Env) Go(name string, fn func()) {
	e.own++
	runtime.SimGo(e.wrap(name, fn))
}

// GoIn starts a harness goroutine from inside the simulation.
func (e *Env) GoIn(name string, fn func()) {
	e.own++
	go e.wrap(name, fn)()
}

func (e *Env) wrap(name string, fn func()) func() {
	return func() {
		defer func() {
			e.own--
			if p := recover(); p != nil {
				e.Fail("panic:"+name, "%s panicked: %v", name, p)
			}
		}()
		fn()
	}
}

// Idle runs the simulation until nothing can run any more.
func (e *Env) Idle() {
	runtime.SimWaitIdle()
	st := runtime.SimAborted()
	if st && !e.aborted {
		e.aborted = true
		e.dirty = true
		e.Fail("livelock", "step budget of %d exhausted without reaching quiescence", e.Spec.Sched.MaxSteps)
		e.stop = true
	}
}

// Live is the number of goroutines the code under test has left running or blocked.
func (e *Env) Live() int { return runtime.SimLive() - e.own }

// Own is the number of harness goroutines still alive.
func (e *Env) Own() int { return e.own }

func (e *Env) Defer(f func()) { e.cleanup = append(e.cleanup, f) }

// protect runs f and reports its panic as a string ("" if none).
func protect(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprint(p)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

type runResult struct {
	fails []Fail
	stats runtime.SimStats
	env   *Env
	dirty bool
}

func execute(sp *Spec) runResult {
	p := props[sp.Prop]
	if p == nil {
		die("unknown property %q", sp.Prop)
	}
	w := p.New()
	if err := json.Unmarshal(sp.W, w); err != nil {
		die("bad workload: %v", err)
	}
	for _, x := range sp.Sched.PicksL {
		if x < 0 {
			x = 0
		}
		sp.Sched.Picks = append(sp.Sched.Picks, uint16(x))
	}
	for _, x := range sp.Sched.PreL {
		sp.Sched.Pre = append(sp.Sched.Pre, uint32(x))
	}
	e := &Env{Spec: sp, probes: map[string]int{}, faults: map[string]int{}, ev: 14695981039346656037}
	if p.Legal != nil {
		p.Legal(w)
	}
	if p.Prep != nil {
		p.Prep(w)
	}
	strategies() // known before anything is simulated: every run finds the same
	setZone(sp.Sched.Zone)
	s := &sp.Sched
	runtime.SimBegin(&runtime.SimConfig{Seed: s.Seed, Pick: s.Pick, Victims: s.Victims, Mean: s.Mean, Hot: s.Hot, Stall: s.Stall, Drag: s.Drag,
		MaxSteps: s.MaxSteps, Wall: s.Wall, Replay: s.Replay, Picks: s.Picks, Pre: s.Pre})
	p.Run(e, w)
	for i := len(e.cleanup) - 1; i >= 0; i-- {
		e.cleanup[i]()
	}
	if !e.aborted {
		e.stop = true
		e.Idle()
	}
	st := runtime.SimEnd()
	if st.Live != 0 {
		e.dirty = true
	}
	return runResult{e.fails, st, e, e.dirty}
}

var zones = map[string]*time.Location{}

func setZone(z string) {
	if z == "" {
		z = "UTC"
	}
	loc := zones[z]
	if loc == nil {
		if z == "UTC" {
			loc = time.UTC
		} else if i := strings.IndexByte(z, '@'); i > 0 {
			off, _ := strconv.Atoi(z[i+1:])
			loc = time.FixedZone(z[:i], off)
		} else {
			l, err := time.LoadLocation(z)
			if err != nil {
				l = time.FixedZone(z, 3600*5+1800)
			}
			loc = l
		}
		zones[z] = loc
	}
	time.Local = loc
}

// ----------------------------------------------------------------------- worker

func die(f string, a ...any) {
	runtime.SimPause()
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	os.Exit(3)
}

type runLine struct {
	I      int            `json:"i"`
	H      string         `json:"h"`
	EV     string         `json:"ev"`
	Y      uint64         `json:"y"`
	St     uint64         `json:"st"`
	Sw     uint64         `json:"sw"`
	Pre    uint64         `json:"pre"`
	Mono   int64          `json:"mono"`
	G      uint32         `json:"g"`
	Q      uint32         `json:"q"`
	NT     bool           `json:"nt"`
	OF     bool           `json:"of,omitempty"`
	Probes map[string]int `json:"p,omitempty"`
	Faults map[string]int `json:"f,omitempty"`
	Fail   *Fail          `json:"fail,omitempty"`
	Spec   *Spec          `json:"spec,omitempty"`
	Log    []string       `json:"log,omitempty"`
	Dirty  bool           `json:"dirty,omitempty"`
	WH     string         `json:"wh,omitempty"`
}

func line(sp *Spec, r runResult, full bool) runLine {
	l := runLine{I: sp.Idx, H: fmt.Sprintf("%x", r.stats.Hash), EV: fmt.Sprintf("%x", r.env.ev), Y: r.stats.Yields, St: r.stats.Steps,
		Sw: r.stats.Switches, Pre: r.stats.Preempts, Mono: r.stats.Mono, G: r.stats.Goroutines, Q: r.stats.MaxRunnable,
		NT: r.env.nt, OF: r.stats.Overflow, Probes: r.env.probes, Faults: r.env.faults, Dirty: r.dirty,
		WH: fmt.Sprintf("%x", hashS(string(sp.W)))}
	if sp.Sched.Drag > 0 && r.stats.Yields > 0 {
		l.Faults["computing takes simulated time"]++
	}
	if n := int(r.stats.Stalls); n > 0 {
		l.Faults["goroutine stalled at a chosen site"] += n
	}
	if len(r.fails) > 0 || full {
		s := *sp
		if len(r.fails) > 0 {
			f := r.fails[0]
			l.Fail = &f
			s.Sched.PicksL = make([]int, len(r.stats.Picks))
			for i, x := range r.stats.Picks {
				s.Sched.PicksL[i] = int(x)
			}
			s.Sched.PreL = make([]int, len(r.stats.Pre))
			for i, x := range r.stats.Pre {
				s.Sched.PreL[i] = int(x)
			}
			s.Sched.Replay = true
			l.Log = tail(r.env.log, 60)
		}
		l.Spec = &s
	}
	return l
}

func tail(xs []string, n int) []string {
	if len(xs) > n {
		return xs[len(xs)-n:]
	}
	return xs
}

func main() {
	procs := runtime.GOMAXPROCS(1)
	gc, limit := debug.SetGCPercent(-1), debug.SetMemoryLimit(3<<30)
	checkImport(procs, gc, limit)
	if len(os.Args) < 2 {
		die("usage: sim batch|one|ref|props ...")
	}
	out := bufio.NewWriter(os.NewFile(1, "results"))
	enc := json.NewEncoder(out)
	switch os.Args[1] {
	case "props":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		enc.Encode(ids)
		out.Flush()
	case "batch": // prop seed start count big samples
		p := props[os.Args[2]]
		if p == nil {
			die("unknown property %q", os.Args[2])
		}
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		start, _ := strconv.Atoi(os.Args[4])
		count, _ := strconv.Atoi(os.Args[5])
		big := os.Args[6] == "big"
		samples, _ := strconv.Atoi(os.Args[7])
		t0 := runtime.SimRealNanos()
		for i := start; i < start+count; i++ {
			sp := genSpec(p, seed, i, big)
			fmt.Fprintf(out, "{\"begin\":%d}\n", i)
			out.Flush()
			r := execute(sp)
			enc.Encode(line(sp, r, i-start < samples))
			out.Flush()
			if len(r.fails) > 0 || r.dirty {
				break
			}
			maybeGC()
		}
		fmt.Fprintf(out, "{\"done\":true,\"ns\":%d}\n", runtime.SimRealNanos()-t0)
		out.Flush()
	case "gen": // prop seed idx big
		p := props[os.Args[2]]
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		idx, _ := strconv.Atoi(os.Args[4])
		enc.Encode(genSpec(p, seed, idx, os.Args[5] == "big"))
		out.Flush()
	case "one": // spec(s) on stdin, one JSON array; the last decides
		var specs []*Spec
		if err := json.NewDecoder(os.Stdin).Decode(&specs); err != nil {
			die("bad spec: %v", err)
		}
		for i, sp := range specs {
			fmt.Fprintf(out, "{\"begin\":%d}\n", sp.Idx)
			out.Flush()
			r := execute(sp)
			if i == len(specs)-1 || len(r.fails) > 0 {
				enc.Encode(line(sp, r, true))
				out.Flush()
				break
			}
			maybeGC()
		}
	case "survey":
		survey()
	case "refs":
		helperMain()
	case "ref":
		refMain(os.Args[2], os.Args[3])
	default:
		die("unknown command %q", os.Args[1])
	}
}

// maybeGC collects between runs only, at a point that depends on nothing but
// the number of runs done.
var gcRuns int

func maybeGC() {
	gcRuns++
	if gcRuns%8 == 0 {
		runtime.GC()
	}
}
