// Deterministic-simulation extensions to the Go runtime (overlaid at build
// time, see ../patchrt.py).  Everything here is inert unless SimBegin has been
// called by the simulator.

package runtime

import (
	"runtime/internal/atomic"
	"unsafe"
)

const (
	SimMaxPicks = 1 << 17
	SimMaxPre   = 1 << 15
	simMonoBase = 1 << 60
)

// Pick modes.
const (
	SimFIFO    = 0 // always the longest waiting goroutine
	SimUniform = 1
	SimLIFO    = 2 // always the most recently readied goroutine
	SimMixed   = 3 // mostly uniform with bursts of the other two
	SimStarve  = 4 // uniform, but the victim goroutines only run when nothing else can
)

type simState struct {
	on       bool
	abort    bool
	overflow bool
	replay   bool
	ctl      guintptr
	rng      uint64 // schedule stream
	rng2     uint64 // rand()/select stream
	pick     uint32
	victims  uint64 // bit set of simids (mod 64) starved in SimStarve mode
	mean     uint32 // mean yields between preemptions, 0 = none
	left     uint32 // countdown to the next preemption
	yields   uint64
	steps    uint64
	maxSteps uint64
	switches uint64
	preempts uint64
	lastid   uint32
	nextid   uint32
	live     int32
	hash     uint64
	mono     int64
	wall     int64
	jumps    uint64
	npick    uint32
	npre     uint32
	rpick    uint32 // replay lengths and cursors
	rpre     uint32
	cpick    uint32
	cpre     uint32
	maxq     uint32
	hot      uint32 // one in so many preemption points stalls who reaches it, 0 = none
	hotKey   uint64
	hits     uint32
	stall    uint64 // steps a stalled goroutine is held back while others can run
	stalls   uint64
	drag     int64 // nanoseconds that pass per preemption point: computing takes time
}

var sim simState
var simPicks [SimMaxPicks]uint16
var simPre [SimMaxPre]uint32
var simRPicks [SimMaxPicks]uint16
var simRPre [SimMaxPre]uint32

//go:nosplit
func simNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimConfig is the per-run schedule configuration.
type SimConfig struct {
	Seed     uint64
	Pick     uint32
	Victims  uint64
	Mean     uint32
	Hot      uint32
	Stall    uint64
	Drag     int64
	MaxSteps uint64
	Wall     int64 // initial wall clock, unix nanoseconds
	Replay   bool
	Picks    []uint16
	Pre      []uint32
}

// SimStats is what a run did.
type SimStats struct {
	Yields, Steps, Switches, Preempts, Jumps, Hash uint64
	Stalls                                         uint64
	Mono                                           int64
	Aborted, Overflow                              bool
	Picks                                          []uint16
	Pre                                            []uint32
	Goroutines                                     uint32
	Live                                           int32
	MaxRunnable                                    uint32
}

// SimBegin switches the runtime into simulation mode. The caller becomes the
// controller; it must be the only runnable user goroutine.
func SimBegin(c *SimConfig) {
	if gomaxprocs != 1 {
		panic("sim: GOMAXPROCS must be 1")
	}
	s := &sim
	*s = simState{}
	s.rng = c.Seed ^ 0x5bf0a8b1457695c5
	s.rng2 = c.Seed*0x9e3779b97f4a7c15 + 77
	s.pick = c.Pick
	s.victims = c.Victims
	s.mean = c.Mean
	s.hot, s.stall = c.Hot, c.Stall
	s.drag = c.Drag
	s.hotKey = c.Seed * 0xd6e8feb86659fd93
	s.maxSteps = c.MaxSteps
	s.wall = c.Wall
	s.mono = simMonoBase
	s.hash = 14695981039346656037
	s.replay = c.Replay
	if c.Replay {
		s.rpick = uint32(copy(simRPicks[:], c.Picks))
		s.rpre = uint32(copy(simRPre[:], c.Pre))
	}
	simArm()
	s.on = true
}

func simArm() {
	s := &sim
	if s.mean == 0 {
		s.left = ^uint32(0)
		return
	}
	s.left = 1 + uint32(simNext(&s.rng)%uint64(2*s.mean))
}

// SimEnd leaves simulation mode and reports what happened.
func SimEnd() SimStats {
	s := &sim
	s.on = false
	st := SimStats{Yields: s.yields, Steps: s.steps, Switches: s.switches, Preempts: s.preempts,
		Jumps: s.jumps, Stalls: s.stalls, Hash: s.hash, Mono: s.mono - simMonoBase, Aborted: s.abort, Overflow: s.overflow,
		Goroutines: s.nextid, Live: s.live, MaxRunnable: s.maxq}
	st.Picks = append([]uint16(nil), simPicks[:s.npick]...)
	st.Pre = append([]uint32(nil), simPre[:s.npre]...)
	return st
}

// SimPause suspends the simulation at quiescence, so that the controller can
// look at the process (collect garbage); SimResume goes on.
func SimPause()  { sim.on = false }
func SimResume() { sim.on = true }

// SimWaitIdle parks the controller until no simulated goroutine can run and no
// simulated timer is pending, or until the step budget is exhausted.
func SimWaitIdle() {
	gopark(simParkCtl, nil, waitReasonZero, traceBlockGeneric, 1)
}

func simParkCtl(gp *g, _ unsafe.Pointer) bool {
	sim.ctl.set(gp)
	return true
}

// SimGo starts fn as a simulated goroutine (callable from the controller).
func SimGo(fn func()) {
	simSpawn = true
	go fn()
	simSpawn = false
}

var simSpawn bool

func simNewG(newg, caller *g) {
	newg.simon = false
	newg.simid = 0
	newg.simstall = 0
	if !sim.on {
		return
	}
	if simSpawn || caller.simon || caller == caller.m.g0 {
		newg.simon = true
		sim.nextid++
		newg.simid = sim.nextid
		sim.live++
	}
}

func simDeadG(gp *g) {
	if gp.simon {
		gp.simon = false
		if sim.on {
			sim.live--
		}
	}
}

// simIdle is called by the scheduler when nothing is runnable.
func simIdle(pollUntil int64) (*g, bool) {
	s := &sim
	if !s.abort && pollUntil != 0 && pollUntil < simMonoBase+(1<<59) {
		if d := pollUntil - s.mono; d > 0 {
			s.mono += d
			s.wall += d
			s.jumps++
		}
		return nil, true
	}
	if gp := s.ctl.ptr(); gp != nil {
		s.ctl = 0
		return gp, false
	}
	return nil, false
}

// simRunqget replaces runqget in simulation mode.
func simRunqget(pp *p) (gp *g, inheritTime bool) {
	if next := pp.runnext; next != 0 {
		pp.runnext = 0
		return next.ptr(), false
	}
	s := &sim
	h := pp.runqhead
	t := pp.runqtail
	n := t - h
	if n == 0 {
		return nil, false
	}
	const sz = uint32(len(pp.runq))
	k := ^uint32(0)
	for i := uint32(0); i < n; i++ {
		if !pp.runq[(h+i)%sz].ptr().simon {
			k = i
			break
		}
	}
	if k == ^uint32(0) {
		if s.abort {
			return nil, false
		}
		s.steps++
		if s.steps > s.maxSteps {
			s.abort = true
			return nil, false
		}
		if n > s.maxq {
			s.maxq = n
		}
		k = 0
		if n > 1 {
			if s.replay {
				if s.cpick < s.rpick {
					k = uint32(simRPicks[s.cpick])
					s.cpick++
					if k >= n {
						k = n - 1
					}
				}
			} else if s.npick < SimMaxPicks {
				k = simChoose(pp, h, n)
				if s.hot != 0 {
					// whoever is stalled waits while anybody else can run
					for i := uint32(0); i < n; i++ {
						j := (k + i) % n
						if pp.runq[(h+j)%sz].ptr().simstall <= s.steps {
							k = j
							break
						}
					}
				}
			}
			// past the recording limit scheduling degrades to FIFO, which is
			// also what a replay does once its decisions are used up
			if s.npick < SimMaxPicks {
				simPicks[s.npick] = uint16(k)
				s.npick++
			} else {
				s.overflow = true
			}
		}
	}
	gp = pp.runq[(h+k)%sz].ptr()
	for i := k; i > 0; i-- {
		pp.runq[(h+i)%sz] = pp.runq[(h+i-1)%sz]
	}
	atomic.StoreRel(&pp.runqhead, h+1)
	if gp.simon {
		if gp.simid != s.lastid {
			s.switches++
			s.lastid = gp.simid
		}
		s.hash = (s.hash ^ uint64(gp.simid)) * 1099511628211
		s.hash = (s.hash ^ s.yields) * 1099511628211
	}
	return gp, false
}

func simChoose(pp *p, h, n uint32) uint32 {
	s := &sim
	switch s.pick {
	case SimFIFO:
		return 0
	case SimLIFO:
		return n - 1
	case SimMixed:
		r := simNext(&s.rng)
		switch r & 7 {
		case 0:
			return 0
		case 1:
			return n - 1
		}
		return uint32((r >> 8) % uint64(n))
	case SimStarve:
		const sz = uint32(len(pp.runq))
		r := uint32(simNext(&s.rng) % uint64(n))
		for i := uint32(0); i < n; i++ {
			k := (r + i) % n
			if s.victims&(1<<(pp.runq[(h+k)%sz].ptr().simid&63)) == 0 {
				return k
			}
		}
		return r
	}
	return uint32(simNext(&s.rng) % uint64(n))
}

// SimYield is a preemption point of the harness.
func SimYield() { SimAt(0) }

// SimAt is a preemption point inserted into instrumented code.
func SimAt(site uint32) {
	gp := getg()
	if !gp.simon || !sim.on {
		return
	}
	simYield(gp, site)
}

// simHot reports whether the goroutine is to be stalled here.
func simHot(site uint32) bool {
	s := &sim
	x := s.hotKey ^ uint64(site)
	if simNext(&x)%uint64(s.hot) != 0 {
		return false
	}
	s.hits++
	// sites in inner loops are reached very often
	return s.hits <= 48 || simNext(&s.rng)&63 == 0
}

func simYield(gp *g, site uint32) {
	s := &sim
	s.yields++
	s.steps++
	s.mono += s.drag
	s.wall += s.drag
	if s.steps > s.maxSteps {
		s.abort = true
		mcall(gosched_m)
		return
	}
	if s.replay {
		if s.cpre >= s.rpre || uint64(simRPre[s.cpre]) > s.yields {
			return
		}
		s.cpre++
	} else {
		if s.hot != 0 && site != 0 && simHot(site) {
			s.stalls++
			gp.simstall = s.steps + s.stall
		} else {
			s.left--
			if s.left != 0 {
				return
			}
			simArm()
			if s.mean == 0 {
				return
			}
		}
		if s.npre >= SimMaxPre {
			s.overflow = true
			return
		}
	}
	s.preempts++
	if s.npre < SimMaxPre {
		simPre[s.npre] = uint32(s.yields)
		s.npre++
	}
	mcall(gosched_m)
}

// SimY is a preemption point between evaluating an expression and using it.
func SimY[T any](site uint32, v T) T {
	SimAt(site)
	return v
}

// SimID is the identity of the calling simulated goroutine, 0 otherwise.
func SimID() uint32 { return getg().simid }

// SimLive is the number of simulated goroutines that have not ended.
func SimLive() int { return int(sim.live) }

// SimYields is the number of preemption points passed.
func SimYields() uint64 { return sim.yields }

// SimStep is the event sequence number (yields + scheduling steps).
func SimStep() uint64 { return sim.steps }

// SimWall is the simulated wall clock in unix nanoseconds.
func SimWall() int64 { return sim.wall }

// SimMono is the simulated monotonic clock since the start of the run.
func SimMono() int64 { return sim.mono - simMonoBase }

// SimJumpWall moves the wall clock only (an NTP step, a suspended VM, an operator).
func SimJumpWall(d int64) { sim.wall += d }

// SimAdvance moves both clocks forward (time passing while code computes).
func SimAdvance(d int64) {
	if d > 0 {
		sim.mono += d
		sim.wall += d
	}
}

// SimRealNanos is the real monotonic clock, for measuring the simulator itself.
func SimRealNanos() int64 { return nanotime1() }

//go:nosplit
func simRand() uint64 { return simNext(&sim.rng2) }

func simSelRandn(n uint32) uint32 {
	if sim.on && getg().simon {
		return uint32((uint64(uint32(simRand())) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}

// SimAborted reports whether the step budget ran out.
func SimAborted() bool { return sim.abort }

// Settings of the whole process that simulated code tried to change, and what
// it printed with print and println.
var simTouched [5]uint32

const (
	simTouchPrint = iota
	simTouchProcs
	simTouchGC
	simTouchLimits
	simTouchSignals
)

// simTouch reports whether simulated code is asking, which is then not let in.
func simTouch(what int) bool {
	if !sim.on || !getg().simon {
		return false
	}
	simTouched[what]++
	return true
}

//go:linkname syscall_simInside syscall.simInside
func syscall_simInside() bool { return sim.on && getg().simon }

// SimTouched names what simulated code tried to do to the process since the
// last call, "" if nothing.
func SimTouched() (what string) {
	for i, n := range simTouched {
		if n > 0 && what == "" {
			what = [...]string{"print or println was called", "GOMAXPROCS was set", "the garbage collector was set up", "limits of the runtime were set", "signals were taken over"}[i]
		}
		simTouched[i] = 0
	}
	return
}

// SimGs is the memory that the runtime keeps for goroutines that have ended:
// as many as were ever there at once.
func SimGs() int64 {
	return int64(allglen)*int64(roundupsize(unsafe.Sizeof(g{}), false)) + int64(cap(allgs))*8
}
