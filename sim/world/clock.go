// Simulated clocks: range checks against a clock that is stepped while they
// run, and results that must not depend on any clock or time zone.
package main

import (
	"errors"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/idoall/stockindicator/utils/commonutils"
)

type KCall struct {
	S    int64  `json:"s"`  // start, nanoseconds from the clock's reading at the call
	E    int64  `json:"e"`  // end, nanoseconds after the start
	SK   string `json:"sk"` // now: relative to the clock, mono: the same with a monotonic reading, zero, epoch
	EK   string `json:"ek"`
	Zone int    `json:"zone"`         // seconds east the caller shows its dates in
	ZE   int    `json:"ze,omitempty"` // the same for the end, on top of zone
	Us   int    `json:"us"`           // sleeps first
	Wait bool   `json:"wait"`         // if refused as too early, waits for the start and asks again
}

type KJump struct {
	At int   `json:"at"` // microseconds
	By int64 `json:"by"` // nanoseconds
	N  int   `json:"n"`  // repeated so often, once per scheduling turn
}

type KWorld struct {
	Callers [][]KCall `json:"callers"`
	Jumps   []KJump   `json:"jumps"`
}

var jumpSizes = []int64{1, -1, 1e3, -1e3, 1e9, -1e9, 3600e9, -3600e9, 86400e9 * 365, -86400e9 * 365, 86400e9 * 30}

type wallLog struct {
	at []int64 // wall readings, in order; index = version
}

func (l *wallLog) jump(by int64) {
	l.at = append(l.at, runtime.SimWall())
	runtime.SimJumpWall(by)
	l.at = append(l.at, runtime.SimWall())
}

func genJumps(r *Rng) []KJump {
	var js []KJump
	for i := r.Pick(0, 1, 2, 4); i > 0; i-- {
		js = append(js, KJump{At: r.Pick(0, 0, 0, 100, 100, 200, 1500, r.N(3000)), By: jumpSizes[r.N(len(jumpSizes))], N: r.Pick(1, 1, 5, 30)})
	}
	return js
}

func startJumps(e *Env, js []KJump, l *wallLog, busy *int) {
	for _, j := range js {
		j := j
		e.Go("clock", func() {
			time.Sleep(time.Duration(clampI(j.At, 0, 1e9)) * time.Microsecond)
			for i := 0; i < clampI(j.N, 1, 200) && (i == 0 || *busy > 0); i++ {
				if *busy > 0 {
					e.Fault("wall clock stepped during work")
				} else {
					e.Fault("wall clock stepped")
				}
				by := j.By
				if i%2 == 1 {
					by = -by
				}
				l.jump(by)
				rtYield()
			}
		})
	}
}

func init() {
	register(&Prop{ID: "C18", New: func() any { return &KWorld{} },
		Tune: func(r *Rng, s *Sched) {
			s.Mean = uint32(r.Pick(1, 1, 2, 3, 5))
			s.Zone = r.PickS("UTC", "X@19800", "Y@-36000", "Z@50400")
			if r.P(0.1) {
				s.Wall = int64(r.N(3600)) * 1e9 // a machine that booted without a clock
			}
		},
		Gen: func(r *Rng, big bool) any {
			w := &KWorld{Jumps: genJumps(r)}
			n := r.In(1, 3)
			m := r.In(1, 6)
			if big {
				n, m = r.In(1, 6), r.In(2, 14)
			}
			offs := []int64{0, 1, -1, 2, 1e9, -1e9, 3600e9, -3600e9, 86400e9, -86400e9, 366 * 86400e9, 500, -500, 999, 40e6}
			for c := 0; c < n; c++ {
				var cs []KCall
				for i := 0; i < m; i++ {
					k := KCall{SK: r.PickS("now", "now", "now", "mono"), EK: r.PickS("now", "now", "now", "mono")}
					k.S = offs[r.N(len(offs))]
					k.E = []int64{1, 1e9, 3600e9, 86400e9 * 20, 0, -1, -3600e9}[r.N(7)]
					if r.P(0.12) {
						k.SK = r.PickS("zero", "epoch", "zeroz", "old", "early", "far")
					}
					if r.P(0.12) {
						k.EK = r.PickS("zero", "epoch", "zeroz", "early", "far")
					}
					k.Zone = r.Pick(0, 3600, -18000, 20700)
					if r.P(0.4) {
						k.ZE = r.Pick(3600, -7200, 45900, 1)
					}
					k.Us = r.Pick(0, 0, 100, 1500)
					k.Wait = r.P(0.3)
					cs = append(cs, k)
				}
				w.Callers = append(w.Callers, cs)
			}
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*KWorld)
			l := &wallLog{at: []int64{runtime.SimWall()}}
			busy := 0
			for _, c := range w.Callers {
				busy += len(c)
			}
			startJumps(e, w.Jumps, l, &busy)
			left := busy
			for c := range w.Callers {
				calls := w.Callers[c]
				e.Go(fmt.Sprintf("caller%d", c), func() {
					for _, k := range calls {
						if k.Us > 0 {
							time.Sleep(time.Duration(clampI(k.Us, 0, 1e8)) * time.Microsecond)
						}
						for turn := 0; turn < 2; turn++ {
							again := rangeCheck(e, &k, l)
							if e.Failed() || !again || !k.Wait {
								break
							}
							// the start is reached: the range is fine now
							k.S = 0
							time.Sleep(time.Millisecond)
							e.Probe("asked again when the start was reached")
						}
						busy--
						left--
					}
				})
			}
			e.Idle()
			if left > 0 && !e.Failed() && !e.aborted {
				e.Fail("stuck", "%d checks never returned", left)
			}
			e.Nontrivial()
		}})
}

// rangeCheck makes one checked call; it reports whether the range was refused
// for lying in the future.
func rangeCheck(e *Env, k *KCall, l *wallLog) bool {
	zone := time.FixedZone("caller", k.Zone)
	v0 := len(l.at)
	wall0, mono0 := runtime.SimWall(), runtime.SimMono()
	date := func(kind string, ns int64) time.Time {
		switch kind {
		case "zero":
			return time.Time{}
		case "zeroz": // never set, but shown in the caller's zone
			return time.Time{}.In(zone)
		case "epoch":
			return time.Unix(0, 0).In(zone)
		case "old": // the first moment that is a date
			return time.Time{}.Add(1).In(zone)
		case "early":
			return time.Unix(0, 1+ns%1000).In(zone)
		case "far":
			return time.Unix(253402300799, ns).In(zone)
		case "mono":
			return time.Now().Add(time.Duration(ns)).In(zone)
		}
		return time.Unix(0, wall0+ns).In(zone)
	}
	start := date(k.SK, k.S)
	if k.ZE != 0 {
		zone = time.FixedZone("other", k.Zone+k.ZE)
	}
	end := date(k.EK, k.S+k.E)
	err := commonutils.StartEndTimeCheck(start, end)
	// every reading the clock had while the call ran
	walls := []int64{wall0, runtime.SimWall()}
	if len(l.at) > v0 {
		walls = append(walls, l.at[v0:]...)
		e.Probe("clock stepped inside a check")
	}
	desc := fmt.Sprintf("start %v, end %v, clock %v", start.UTC().Format(time.RFC3339Nano), end.UTC().Format(time.RFC3339Nano), time.Unix(0, wall0).UTC().Format(time.RFC3339Nano))
	unset := func(kind string, t time.Time) bool {
		return kind == "zero" || kind == "zeroz" || t.Equal(time.Unix(0, 0))
	}
	is := func(want error, word string) {
		if !errors.Is(err, want) {
			e.Fail("verdict wrong", "%s: got %v, want %q", desc, err, want)
		} else if word != "" && !strings.Contains(err.Error(), word) {
			e.Fail("verdict wrong", "%s: %q does not say that it is the %s date", desc, err, word)
		}
	}
	switch {
	case unset(k.SK, start):
		is(commonutils.ErrDateUnset, "start")
	case unset(k.EK, end):
		is(commonutils.ErrDateUnset, "end")
	case start.After(end):
		is(commonutils.ErrStartAfterEnd, "")
	case start.Equal(end):
		is(commonutils.ErrStartEqualsEnd, "")
	default:
		early, fine := false, false
		for _, at := range walls {
			if start.After(time.Unix(0, at)) {
				early = true
			} else {
				fine = true
			}
		}
		if k.SK == "mono" {
			// a date read off the clock may also be compared by elapsed time
			if k.S > runtime.SimMono()-mono0 {
				early = true
			} else {
				fine = true
			}
		}
		switch {
		case err == nil:
			if !fine {
				e.Fail("verdict wrong", "%s: accepted although the start is in the future", desc)
			}
		case errors.Is(err, commonutils.ErrStartAfterTimeNow):
			if !early {
				e.Fail("verdict wrong", "%s: refused as being in the future", desc)
			}
			return true
		default:
			e.Fail("verdict wrong", "%s: got %v", desc, err)
		}
	}
	return false
}

// ------------------------------------------------------------------------- C19

type TWorld struct {
	Jobs  [][]Job `json:"jobs"` // per caller
	Us    int     `json:"us"`   // pause between jobs
	Jumps []KJump `json:"jumps"`
}

var clockBound = map[string]bool{"Camarilla.AnalysisSide": true}

func init() {
	register(&Prop{ID: "C19", New: func() any { return &TWorld{} },
		Tune: func(r *Rng, s *Sched) {
			tuneConc(r, s)
			s.Zone = r.PickS("UTC", "America/New_York", "Asia/Kolkata", "Asia/Shanghai", "Pacific/Apia", "E@43200", "W@-43200", "Q@20700", "F@3600")
			switch r.N(6) {
			case 0:
				s.Wall = 0
			case 1:
				s.Wall = int64(r.N(1000)) * 1e9
			case 2:
				s.Wall = -86400 * 365 * 1e9
			case 3:
				s.Wall = 4_000_000_000 * 1e9
			}
		},
		Gen: func(r *Rng, big bool) any {
			w := &TWorld{Jumps: genJumps(r), Us: r.Pick(0, 100, 900)}
			ds := dataPool(r, 2)
			if r.P(0.04) {
				ds[0].N = r.Pick(520, 1100)
			}
			steps := []int64{3600, 14400, 43200, 86400, 604800}
			n, m := r.In(1, 3), r.In(1, 4)
			if big {
				n, m = r.In(1, 5), r.In(2, 7)
			}
			for c := 0; c < n; c++ {
				var js []Job
				for len(js) < m {
					if r.P(0.3) {
						d := ds[r.N(2)]
						d.Step = steps[r.N(len(steps))]
						v := viewNames[r.N(len(viewNames))]
						if r.P(0.4) {
							v = "Convert"
							d.T0 = int64(r.N(7))
						}
						js = append(js, Job{D: d, Op: "view:" + v, P: []int{r.N(20)}})
						continue
					}
					j := genJob(r, ds[r.N(2)], 0.1)
					if _, name := split(j.Op); clockBound[name+"."+j.Acc] {
						continue
					}
					js = append(js, j)
				}
				w.Jobs = append(w.Jobs, js)
			}
			return w
		},
		Prep: func(x any) {
			for _, js := range x.(*TWorld).Jobs {
				for _, j := range js {
					getRef(j)
				}
			}
		},
		Run: func(e *Env, x any) {
			w := x.(*TWorld)
			l := &wallLog{}
			busy := 0
			shared := inputs{}
			for _, js := range w.Jobs {
				busy += len(js)
				for _, j := range js {
					shared.get(j.D)
				}
			}
			if e.Spec.Sched.Zone != "UTC" && e.Spec.Sched.Zone != "" {
				e.Fault("local time zone set")
			}
			if runtime.SimWall() < baseUnix*1e9 {
				e.Fault("clock behind the data")
			}
			startJumps(e, w.Jumps, l, &busy)
			total := busy
			for c := range w.Jobs {
				js := w.Jobs[c]
				e.Go(fmt.Sprintf("caller%d", c), func() {
					for _, j := range js {
						if w.Us > 0 {
							time.Sleep(time.Duration(clampI(w.Us, 0, 1e8)) * time.Microsecond)
						}
						out, p := doJob(j, shared[j.D], false)
						busy--
						e.Event("done %s", j.Op)
						if !e.against(j, out, p, "clock dependent") {
							return
						}
					}
				})
			}
			e.Idle()
			if busy > 0 && !e.Failed() && !e.aborted {
				e.Fail("stuck", "%d of %d computations never returned", busy, total)
			}
			if len(e.faults) > 0 {
				e.Nontrivial()
			}
		}})
}
