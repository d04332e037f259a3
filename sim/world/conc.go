// Simulated callers computing on shared market data: interference, input
// immutability, isolation of results, histories on one instance, views, batches.
package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"time"

	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

// ------------------------------------------------------------------- C09 / C10

type CCaller struct {
	Jobs  []Job `json:"jobs"`
	Delay []int `json:"delay"` // microseconds before each job, cycled
	Own   bool  `json:"own"`   // holds its own copy of the data
	Abort int   `json:"abort"` // gives up (panics inside its own code, recovered) after so many jobs; 0 = never
}

type CWorld struct {
	Callers []CCaller `json:"callers"`
	Watch   int       `json:"watch"`          // looks at the shared data by the observer
	Rush    bool      `json:"rush,omitempty"` // everybody computes the same thing, each on other data
	Clear   bool      `json:"clear"`          // callers clear their instances when done with them
}

func (w *CWorld) eachJob(f func(Job)) {
	for i := range w.Callers {
		for _, j := range w.Callers[i].Jobs {
			f(j)
		}
	}
}

func genCallers(r *Rng, big bool, fnShare float64) *CWorld {
	w := &CWorld{}
	ds := dataPool(r, r.In(1, 3))
	n := r.In(2, 4)
	per := r.In(1, 3)
	if big {
		n, per = r.In(2, 7), r.In(1, 4)
	}
	all := genJobs(r, ds, n*per, fnShare)
	for i := 0; i < n; i++ {
		c := CCaller{}
		for k := 0; k < per; k++ {
			c.Jobs = append(c.Jobs, all[(i*per+k)%len(all)])
		}
		if r.P(0.3) {
			// all callers after the same thing at once
			c.Jobs[0] = all[0]
		}
		if r.P(0.4) {
			for k := 0; k < 1+r.N(3); k++ {
				c.Delay = append(c.Delay, r.Pick(0, 0, 1, 10, 1000))
			}
		}
		c.Own = r.P(0.25)
		w.Callers = append(w.Callers, c)
	}
	if r.P(0.3) {
		w.Clear = true
	}
	w.Watch = r.Pick(5, 15, 30)
	if r.P(0.5) {
		w.Rush = true
		j := genJob(r, ds[0], 0.6)
		for j.D.N > 60 {
			j.D.N = 60
		}
		w.Callers, w.Clear = nil, false
		vary := r.P(0.4) // ... and with other parameters
		for i := r.In(3, 8); i > 0; i-- {
			c := CCaller{}
			for k := r.In(1, 3); k > 0; k-- {
				jj := j
				if r.P(0.8) && jj.D.Flg == 0 {
					jj.D.Seed = int64(1 + r.N(4))
					jj.D.Kind = int(jj.D.Seed) % 4
				}
				if r.P(0.15) && jj.D.N > 14 {
					jj.D.N = 26
				}
				if kind, name := split(jj.Op); vary && kind == "fn" {
					jj.P = []int{r.Pick(1, 2, 5, 14)}
				} else if vary && r.P(0.5) {
					if jj.P = affordable(name, genParams(r, name), jj.D.N); jj.P == nil {
						jj.Src = "item"
					}
				}
				c.Jobs = append(c.Jobs, jj)
			}
			w.Callers = append(w.Callers, c)
		}
	}
	return w
}

// doJob runs one job as a caller would, returning its result or its panic.
func doJob(j Job, in *Input, clear bool) (out []any, p string) {
	p = protect(func() {
		kind, name := split(j.Op)
		if kind == "ind" && clear {
			x := makeInd(name, j.P, j.Src, in)
			out = read(x, j.Acc, in)
			if m, ok := clearOf(x); ok {
				m.Call(nil)
			}
			return
		}
		out = runJob(j, in)
	})
	return
}

func tuneConc(r *Rng, s *Sched) {
	s.MaxSteps = 800_000_000 // ten times what any of them takes
	s.Mean = uint32(r.Pick(3, 8, 20, 60, 200, 1000, 4000))
}

func runCallers(e *Env, w *CWorld, after func(j Job, out []any, p string)) inputs {
	shared := inputs{}
	active := 0
	for i := range w.Callers {
		c := &w.Callers[i]
		own := inputs{}
		for _, j := range c.Jobs {
			if c.Own {
				own.get(j.D)
			} else {
				shared.get(j.D)
			}
		}
		e.Go(fmt.Sprintf("caller%d", i), func() {
			for k, j := range c.Jobs {
				if len(c.Delay) > 0 && c.Delay[k%len(c.Delay)] > 0 {
					e.Fault("caller delayed")
					time.Sleep(time.Duration(c.Delay[k%len(c.Delay)]) * time.Microsecond)
				}
				in := shared[j.D]
				if c.Own {
					in = own[j.D]
				}
				active++
				if active > 1 {
					e.Nontrivial()
					e.Probe("overlapping computations")
				}
				out, p := doJob(j, in, w.Clear)
				active--
				e.Event("done %s", j.Op)
				after(j, out, p)
			}
		})
	}
	return shared
}

func newCW() any { return &CWorld{} }

func init() {
	register(&Prop{ID: "C09", New: newCW, Tune: tuneConc, TuneW: func(r *Rng, x any, s *Sched) {
		if x.(*CWorld).Rush && r.P(0.7) {
			s.Hot = uint32(r.Pick(4, 8, 16, 40))
			s.Stall = uint64(r.Pick(2000, 20000, 1<<40))
		}
	},
		Gen:  func(r *Rng, big bool) any { return genCallers(r, big, 0.25) },
		Prep: func(x any) { x.(*CWorld).eachJob(func(j Job) { getRef(j) }) },
		Run: func(e *Env, x any) {
			w := x.(*CWorld)
			left := 0
			w.eachJob(func(Job) { left++ })
			runCallers(e, w, func(j Job, out []any, p string) {
				left--
				e.Probe("result compared")
				e.against(j, out, p, "interference")
			})
			e.Idle()
			if left > 0 && !e.aborted {
				e.Fail("stuck", "%d computations never returned", left)
			}
			if n := e.Live(); n > 0 && !e.aborted {
				e.dirty = true
				e.Fail("leak", "%d goroutines left behind by the computations", n)
			}
		}})

	register(&Prop{ID: "C10", New: newCW, Tune: func(r *Rng, s *Sched) {
		tuneConc(r, s)
		s.Mean = uint32(r.Pick(2, 5, 15, 40, 100, 300))
	},
		Gen: func(r *Rng, big bool) any {
			w := genCallers(r, big, 0.35)
			for i := range w.Callers {
				w.Callers[i].Own = false
				if r.P(0.3) {
					k := r.N(len(w.Callers[i].Jobs))
					w.Callers[i].Jobs[k] = Job{D: w.Callers[i].Jobs[k].D, Op: "view:" + viewNames[r.N(len(viewNames))], P: []int{r.N(20)}}
				}
			}
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*CWorld)
			busy := 0
			w.eachJob(func(Job) { busy++ })
			shared := runCallers(e, w, func(j Job, out []any, p string) { busy-- })
			var ds []Data
			seen := map[Data]bool{}
			w.eachJob(func(j Job) {
				if !seen[j.D] {
					seen[j.D] = true
					ds = append(ds, j.D)
				}
			})
			before := map[Data][]byte{}
			for _, d := range ds {
				before[d] = shared[d].bits()
			}
			look := func(when string) {
				for _, d := range ds {
					if b := shared[d].bits(); !bytes.Equal(b, before[d]) {
						in := shared[d]
						e.Fail("input changed", "the shared market data changed %s: %s", when, diffPath(in.all(), before[d]))
					}
				}
			}
			e.Go("observer", func() {
				for i := 0; i < w.Watch && busy > 0 && !e.Failed(); i++ {
					if i > 0 && busy > 0 {
						e.Probe("observed during computations")
					}
					look("while computations were running")
					rtYield()
				}
			})
			e.Idle()
			look("after all computations")
			if runtime.SimStep() > 0 && len(w.Callers) > 1 {
				e.Nontrivial()
			}
		}})
}

// ------------------------------------------------------------------------- C11

type IStep struct {
	Do  string `json:"do"` // make: run the job and keep its result; own: overwrite result K; grow: append to result K; again: read accessor Job.Acc of the instance of result K; renew: the data of the instance of result K changes and it calculates again
	Job Job    `json:"job"`
	K   int    `json:"k"`
	Own bool   `json:"own,omitempty"` // make: on data of the caller's own
}

type IWorld struct {
	Callers [][]IStep `json:"callers"`
}

func (w *IWorld) eachJob(f func(Job)) {
	for _, c := range w.Callers {
		for _, s := range c {
			if s.Do == "make" {
				f(s.Job)
			}
		}
	}
}

type kept struct {
	job   Job
	inst  any
	val   []any
	snap  []byte
	gone  bool
	owner int
	in    *Input // the caller's own data
	moved bool   // which has changed since
}

func init() {
	register(&Prop{ID: "C11", New: func() any { return &IWorld{} }, Tune: tuneConc,
		Gen: func(r *Rng, big bool) any {
			w := &IWorld{}
			ds := dataPool(r, r.In(1, 2))
			n := r.In(1, 2)
			steps := r.In(4, 8)
			if big {
				n, steps = r.In(1, 3), r.In(4, 14)
			}
			all := genJobs(r, ds, 6, 0.3)
			for i := range all {
				if r.P(0.15) {
					all[i] = Job{D: all[i].D, Op: "view:" + viewNames[r.N(len(viewNames))], P: []int{r.N(20)}}
				}
			}
			for c := 0; c < n; c++ {
				var st []IStep
				own, renew := r.P(0.5), "again"
				if own {
					renew = "renew"
				}
				for i := 0; i < steps; i++ {
					if i == 0 || r.P(0.6) {
						st = append(st, IStep{Do: "make", Job: all[r.N(len(all))], Own: own})
					} else {
						st = append(st, IStep{Do: r.PickS("own", "own", "grow", "again", renew, renew), K: r.N(64), Job: Job{Acc: fmt.Sprint(r.N(60))}})
					}
				}
				w.Callers = append(w.Callers, st)
			}
			return w
		},
		Prep: func(x any) {
			w := x.(*IWorld)
			for _, c := range w.Callers {
				var made []Job
				for _, s := range c {
					switch s.Do {
					case "make":
						made = append(made, s.Job)
						getRef(s.Job)
					case "again":
						// whichever of the results is picked when the time comes
						for _, j := range made {
							if k, ok := j.sibling(s.Job.Acc); ok {
								getRef(k)
							}
						}
					}
				}
			}
		},
		Run: func(e *Env, x any) {
			w := x.(*IWorld)
			shared := inputs{}
			w.eachJob(func(j Job) { shared.get(j.D) })
			before := map[Data][]byte{}
			for d, in := range shared {
				before[d] = in.bits()
			}
			var held []*kept
			check := func(when string) {
				for _, k := range held {
					if !k.gone && !bytes.Equal(flatten(k.val), k.snap) {
						e.Fail("result changed", "a result handed out earlier (%s) changed %s: %s", k.job.short(), when, diffPath(k.val, k.snap))
						return
					}
				}
			}
			made, owned := 0, 0
			for c := range w.Callers {
				c := c
				e.Go(fmt.Sprintf("caller%d", c), func() {
					for _, s := range w.Callers[c] {
						if e.Failed() {
							return
						}
						switch s.Do {
						case "make":
							var inst any
							var out []any
							in := shared[s.Job.D]
							if s.Own {
								in = s.Job.D.input()
							}
							p := protect(func() {
								if kind, name := split(s.Job.Op); kind == "ind" {
									inst = makeInd(name, s.Job.P, s.Job.Src, in)
									out = read(inst, s.Job.Acc, in)
								} else {
									out = runJob(s.Job, in)
								}
							})
							if !e.against(s.Job, out, p, "result of an earlier caller shows") {
								return
							}
							if p == "" {
								k := &kept{job: s.Job, inst: inst, val: out, snap: flatten(out), owner: c}
								if s.Own {
									k.in = in
								}
								held = append(held, k)
								made++
							}
							check("when " + s.Job.Op + " was computed")
						case "renew":
							var mine []*kept
							for _, k := range held {
								if k.owner == c && k.inst != nil && k.in != nil {
									mine = append(mine, k)
								}
							}
							if len(mine) == 0 {
								continue
							}
							k := mine[mod(s.K, len(mine))]
							cs := k.in.Item.Candles
							how := "a correction"
							switch n := len(cs); {
							case n == 0 || s.K%4 == 0:
								how = "growth"
								next := k.job.D
								next.N += 3
								cs = append(cs, next.candles()[n:]...)
							case s.K%4 != 3:
								tweak(cs[mod(s.K/4, n)])
							default:
								how = "removal of candles"
								cs = cs[:n-n/4]
							}
							k.in.Item.Candles = cs
							e.Fault("data changed and calculated again")
							for _, o := range held {
								if o.in == k.in {
									o.moved = true
								}
							}
							protect(func() { calc(k.inst) })
							check("when its instance (" + k.job.short() + ") calculated again after " + how)
						case "again", "grow":
							var mine []*kept
							for _, k := range held {
								if k.owner == c && (s.Do == "again" && k.inst != nil && !k.moved || s.Do == "grow" && !k.gone) {
									mine = append(mine, k)
								}
							}
							if len(mine) == 0 {
								continue
							}
							k := mine[mod(s.K, len(mine))]
							if s.Do == "grow" {
								e.Fault("caller appends to its result")
								if growAll(k.val, s.K/8) {
									owned++
								}
								check("when the owner of a result (" + k.job.short() + ") appended to it")
								continue
							}
							j, ok := k.job.sibling(s.Job.Acc)
							if !ok {
								continue
							}
							in := shared[j.D]
							if k.in != nil {
								in = k.in
							}
							var out []any
							p := protect(func() { out = read(k.inst, j.Acc, in) })
							e.Probe("second result of one instance")
							if !e.against(j, out, p, "result of an earlier caller shows") {
								return
							}
							if p == "" {
								held = append(held, &kept{job: j, inst: k.inst, val: out, snap: flatten(out), owner: c, in: k.in})
								made++
							}
							check("when " + j.Op + " was read again")
						case "own":
							var mine []*kept
							for _, k := range held {
								if k.owner == c && !k.gone {
									mine = append(mine, k)
								}
							}
							if len(mine) == 0 {
								continue
							}
							k := mine[mod(s.K, len(mine))]
							k.gone = true
							e.Fault("caller overwrites its result")
							owned++
							scribbleAll(k.val)
							check("when the owner of another result (" + k.job.short() + ") wrote to it")
						}
						rtYield()
					}
				})
			}
			e.Idle()
			check("by the end")
			for _, s := range w.Callers {
				for _, st := range s {
					if in := shared[st.Job.D]; st.Do == "make" && in != nil && !bytes.Equal(in.bits(), before[st.Job.D]) {
						e.Fail("input changed", "a caller writing to its result changed the shared market data: %s", diffPath(in.all(), before[st.Job.D]))
					}
				}
			}
			if made > 1 && owned > 0 {
				e.Nontrivial()
			}
		}})
}

// ------------------------------------------------------------------------- C12

type HStep struct {
	Do  string `json:"do"` // read, calc, clear; grow or fix: the history is given N more candles, or candle N is corrected
	Acc string `json:"acc"`
	N   int    `json:"n,omitempty"`
}

type HWorld struct {
	D       Data      `json:"d"`
	Ind     string    `json:"ind"`
	P       []int     `json:"p"`
	Src     string    `json:"src"`
	Steps   []HStep   `json:"steps"`
	Readers [][]HStep `json:"readers"` // afterwards, concurrently
}

func (w *HWorld) job(d Data, acc string) Job {
	return Job{D: d, Op: "ind:" + w.Ind, P: w.P, Src: w.Src, Acc: acc}
}

// walk goes through the steps with the market data as it is at each step, the
// data the instance answers for, and whether it has been calculated since the
// data changed.
func (w *HWorld) walk(f func(i int, s HStep, now, for_ Data, known bool) bool) (now, for_ Data, known bool) {
	tab := w.Ind + "." + w.Src
	now, for_, known = w.D, w.D, true
	for i, s := range w.Steps {
		switch s.Do {
		case "grow", "fix":
			if !follows[tab] && !keeps[tab] {
				continue
			}
			if s.Do == "grow" {
				now.N += s.N
			} else if now.N > 0 {
				if now.Twk > 0 {
					continue
				}
				now.Twk = 1 + mod(s.N, now.N)
			}
			if follows[tab] {
				known = false
			}
		case "calc":
			known = true
			if follows[tab] {
				for_ = now
			}
		case "clear":
			if follows[tab] && now != for_ {
				known = false
			}
		}
		if !f(i, s, now, for_, known) {
			break
		}
	}
	return now, for_, known
}

// clearable: instances that can be used again after Clear.
func clearable(name string) bool { return name == "SmartMoneyConcepts" }

func init() {
	register(&Prop{ID: "C12", New: func() any { return &HWorld{} }, Tune: tuneConc,
		Legal: func(x any) {
			w := x.(*HWorld)
			if w.D.Flg&flgDisorder != 0 || w.D.Twk != 0 {
				var st []HStep
				for _, s := range w.Steps {
					if s.Do != "grow" && s.Do != "fix" {
						st = append(st, s)
					}
				}
				w.Steps = st
			}
		},
		Gen: func(r *Rng, big bool) any {
			d := dataPool(r, 1)[0]
			if r.P(0.25) {
				d.N = r.Pick(0, 1, 2, 3, 5, 14)
			}
			w := &HWorld{D: d, Ind: genInd(r), Src: "item"}
			if w.Ind == "StochasticHeat" && d.N > 60 {
				w.D.N = 60
			}
			if r.P(0.04) { // the one that carries most from candle to candle
				w.Ind = "SmartMoneyConcepts"
				if r.P(0.6) {
					w.D.N = r.Pick(230, 230, 520)
				}
			}
			w.P = affordable(w.Ind, genParams(r, w.Ind), w.D.N)
			if w.P != nil && inds[indIdx[w.Ind]].mko != nil && r.P(0.4) {
				w.Src = "ohlc"
			}
			acc := accOf(w.Ind)
			if w.Ind == "SmartMoneyConcepts" { // order blocks, strong and weak levels
				acc = append([]string{"$fields"}, acc...)
			}
			moving := r.P(0.35) && d.Flg&flgDisorder == 0 && d.Twk == 0
			n := r.In(2, 7)
			if big {
				n = r.In(2, 16)
			}
			for i := 0; i < n; i++ {
				switch {
				case moving && r.P(0.25):
					st := HStep{Do: "grow", N: 1}
					if w.D.N < 15 {
						st.N = 60 - w.D.N
						if r.P(0.3) {
							st.N = 1
						}
					}
					if r.P(0.5) && w.D.N > 0 {
						st = HStep{Do: "fix", N: r.Pick(w.D.N-1, w.D.N-1, w.D.N-1, 0, w.D.N/2)}
					}
					w.Steps = append(w.Steps, st, HStep{Do: "calc"})
				case r.P(0.28):
					w.Steps = append(w.Steps, HStep{Do: "calc"})
				case clearable(w.Ind) && r.P(0.2):
					w.Steps = append(w.Steps, HStep{Do: "clear"})
				default:
					w.Steps = append(w.Steps, HStep{Do: "read", Acc: acc[r.N(len(acc))]})
				}
			}
			if r.P(0.6) {
				for k := r.In(2, 4); k > 0; k-- {
					var st []HStep
					for i := r.In(1, 3); i > 0; i-- {
						st = append(st, HStep{Do: "read", Acc: acc[r.N(len(acc))]})
					}
					w.Readers = append(w.Readers, st)
				}
			}
			return w
		},
		Prep: func(x any) {
			w := x.(*HWorld)
			_, d, _ := w.walk(func(i int, s HStep, now, for_ Data, known bool) bool {
				if s.Do == "read" && known {
					getRef(w.job(for_, s.Acc))
				}
				return true
			})
			for _, rd := range w.Readers {
				for _, s := range rd {
					getRef(w.job(d, s.Acc))
				}
			}
		},
		Run: func(e *Env, x any) {
			w := x.(*HWorld)
			in := w.D.input()
			var inst any
			calcs, reads := 0, 0
			e.Go("caller", func() {
				if p := protect(func() { inst = makeInd(w.Ind, w.P, w.Src, in) }); p != "" {
					e.Fail("panic:make", "%s", p)
					return
				}
				w.walk(func(i int, s HStep, now, for_ Data, known bool) bool {
					switch s.Do {
					case "grow", "fix":
						if now != in.D {
							if s.Do == "grow" {
								e.Fault("history grew under the instance")
							} else {
								e.Fault("candle corrected under the instance")
							}
							in.become(now)
						}
					case "calc":
						calcs++
						if calcs > 1 || reads > 0 {
							e.Fault("recalculated")
						}
						if p := protect(func() { calc(inst) }); p != "" {
							e.Fail("panic:calc", "step %d of %v on %s: calculation panicked: %s", i, w.Steps, w.Ind, p)
							return false
						}
						e.Probe("calculated")
						if now != w.D {
							e.Probe("calculated on changed data")
						}
					case "clear":
						e.Fault("cleared")
						if m, ok := clearOf(inst); ok {
							m.Call(nil)
						}
					case "read":
						reads++
						var out []any
						p := protect(func() { out = read(inst, s.Acc, in) })
						if !known {
							break // neither the old data nor the new
						}
						if reads+calcs > 1 {
							e.Nontrivial()
						}
						if !e.against(w.job(for_, s.Acc), out, p, "history dependent") {
							e.fails[0].Detail = fmt.Sprintf("step %d of %v: %s", i, w.Steps, e.fails[0].Detail)
							return false
						}
					}
					return true
				})
			})
			e.Idle()
			if len(w.Readers) == 0 || e.Failed() || inst == nil {
				return
			}
			_, d, known := w.walk(func(int, HStep, Data, Data, bool) bool { return true })
			if !known {
				return
			}
			ready := reads > 0 || calcs > 0
			e.Go("first", func() {
				if !ready {
					calc(inst)
				}
			})
			e.Idle()
			for i, rd := range w.Readers {
				rd := rd
				e.Go(fmt.Sprintf("reader%d", i), func() {
					for _, s := range rd {
						var out []any
						p := protect(func() { out = read(inst, s.Acc, in) })
						e.Probe("concurrent read")
						if d.N > 0 && !clearable(w.Ind) {
							e.against(w.job(d, s.Acc), out, p, "concurrent readers disagree")
						}
					}
				})
			}
			e.Idle()
		}})
}

// ------------------------------------------------------------------------- C13

type VStep struct {
	Do string `json:"do"` // make, wreck, fix, again
	V  string `json:"v"`
	P  int    `json:"p"`
	K  int    `json:"k"`
}

type VWorld struct {
	D       Data      `json:"d"`
	Callers [][]VStep `json:"callers"`
}

type keptView struct {
	val  []any
	snap []byte
	what string
	gone bool
	by   int
}

// viewModel is what a view must contain, computed by the harness itself.
func viewModel(name string, p []int, cs []klines.Candle, d Data) (want []any, ok bool) {
	switch name {
	case "GetOHLC":
		o := &klines.OHLC{}
		for _, c := range cs {
			o.Open = append(o.Open, c.Open)
			o.High = append(o.High, c.High)
			o.Low = append(o.Low, c.Low)
			o.Close = append(o.Close, c.Close)
			o.Volume = append(o.Volume, c.Volume)
			o.BullMarket = append(o.BullMarket, c.IsBullMarket)
			o.TimeUnix = append(o.TimeUnix, c.TimeUnix)
		}
		return []any{o}, true
	case "HL2", "HLC3", "OHLC4":
		out := make([]float64, len(cs))
		for i, c := range cs {
			switch name {
			case "HL2":
				out[i] = (c.High + c.Low) / 2
			case "HLC3":
				out[i] = (c.High + c.Low + c.Close) / 3
			default:
				out[i] = (c.Open + c.High + c.Low + c.Close) / 4
			}
		}
		return []any{out}, true
	case "Copy":
		lo, hi := copyRange(p, d)
		var out []klines.Candle
		for _, c := range cs {
			if c.TimeUnix == lo || c.TimeUnix > lo && c.TimeUnix < hi {
				out = append(out, c)
			}
		}
		return []any{out}, true
	}
	return nil, false
}

func closeTo(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b))
}

func viewMatches(name string, got, want []any) string {
	switch name {
	case "GetOHLC":
		if !bytes.Equal(flatten(got), flatten(want)) {
			return diffPath(got, flatten(want))
		}
	case "Copy":
		it := got[0].(*klines.Item)
		cs := want[0].([]klines.Candle)
		if len(it.Candles) != len(cs) {
			return fmt.Sprintf("%d candles, want %d", len(it.Candles), len(cs))
		}
		for i, c := range it.Candles {
			if c == nil || *c != cs[i] {
				return fmt.Sprintf("candle %d is %+v, want %+v", i, c, cs[i])
			}
		}
	default:
		g, w := got[0].([]float64), want[0].([]float64)
		if len(g) != len(w) {
			return fmt.Sprintf("%d values, want %d", len(g), len(w))
		}
		for i := range g {
			if !closeTo(g[i], w[i]) {
				return fmt.Sprintf("value %d is %v, want %v", i, g[i], w[i])
			}
		}
	}
	return ""
}

func copyCandles(cs []*klines.Candle) []klines.Candle {
	out := make([]klines.Candle, len(cs))
	for i, c := range cs {
		out[i] = *c
	}
	return out
}

func wreckView(v any, k int) {
	switch x := v.(type) {
	case *klines.Item:
		if x == nil {
			return
		}
		switch mod(k, 6) {
		case 0:
			x.SortCandlesByTimestamp(true)
		case 1:
			x.Clear()
		case 2:
			if len(x.Candles) > 2 {
				x.Candles[2].TimeUnix = x.Candles[0].TimeUnix
			}
			x.RemoveDuplicates()
		case 3:
			if n := len(x.Candles); n > 2 {
				x.RemoveOutsideRange(time.Unix(x.Candles[n/3].TimeUnix, 0), time.Unix(x.Candles[n-1].TimeUnix, 0))
			}
		case 4:
			x.Candles = append(x.Candles[:len(x.Candles)/2], &klines.Candle{Open: 1})
		default:
			scribbleAll(x)
		}
	case *klines.OHLC:
		if x != nil && mod(k, 3) == 0 && len(x.Close) > 1 {
			x.Close = append(x.Close[:len(x.Close)/2], -5)
			return
		}
		scribbleAll(x)
	default:
		scribbleAll(v)
	}
}

func init() {
	register(&Prop{ID: "C13", New: func() any { return &VWorld{} }, Tune: tuneConc,
		Gen: func(r *Rng, big bool) any {
			w := &VWorld{D: Data{Seed: int64(1 + r.N(1000)), N: r.Pick(0, 1, 2, 7, 12, 24, 50), Kind: r.N(4), Step: int64(r.Pick(60, 3600, 86400))}}
			n, m := r.In(1, 3), r.In(3, 9)
			if big {
				n, m = r.In(1, 5), r.In(3, 18)
			}
			for c := 0; c < n; c++ {
				var st []VStep
				for i := 0; i < m; i++ {
					switch {
					case i == 0 || r.P(0.55):
						st = append(st, VStep{Do: "make", V: viewNames[r.N(len(viewNames))], P: r.N(20)})
					case r.P(0.3):
						st = append(st, VStep{Do: "grow", K: r.N(100)})
					case r.P(0.65):
						st = append(st, VStep{Do: "wreck", K: r.N(100)})
					default:
						st = append(st, VStep{Do: "fix", K: r.N(100)})
					}
				}
				w.Callers = append(w.Callers, st)
			}
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*VWorld)
			in := w.D.input()
			var held []*keptView
			src := func() []byte {
				f := &flat{want: -1}
				f.val(reflect.ValueOf(in.Item), 0)
				for _, c := range in.Item.Candles {
					f.put('p', uint64(reflect.ValueOf(c).Pointer()))
				}
				return f.b
			}
			now := src()
			version, making := 0, 0
			check := func(when string) {
				if b := src(); !bytes.Equal(b, now) {
					e.Fail("source changed", "the candles a view was taken from changed %s", when)
					return
				}
				for _, k := range held {
					if !k.gone && !bytes.Equal(flatten(k.val), k.snap) {
						e.Fail("view changed", "view %s changed %s: %s", k.what, when, diffPath(k.val, k.snap))
						return
					}
				}
			}
			wrecked := 0
			for c := range w.Callers {
				c := c
				e.Go(fmt.Sprintf("caller%d", c), func() {
					for _, s := range w.Callers[c] {
						if e.Failed() {
							return
						}
						switch s.Do {
						case "make":
							v0 := version
							cs := copyCandles(in.Item.Candles)
							var out []any
							making++
							p := protect(func() { out = runView(s.V, []int{s.P}, in) })
							making--
							if p != "" {
								e.Fail("panic:view", "view %s of %d candles panicked: %s", s.V, w.D.N, p)
								return
							}
							e.Event("view %s", s.V)
							if want, ok := viewModel(s.V, []int{s.P}, cs, w.D); ok && v0 == version {
								e.Probe("view compared with model")
								if d := viewMatches(s.V, out, want); d != "" {
									e.Fail("view wrong", "view %s of %d candles: %s", s.V, w.D.N, d)
									return
								}
							}
							held = append(held, &keptView{val: out, snap: flatten(out), what: s.V, by: c})
							check("when view " + s.V + " was made")
						case "grow":
							var mine []*keptView
							for _, k := range held {
								if k.by == c && !k.gone {
									mine = append(mine, k)
								}
							}
							if len(mine) == 0 {
								continue
							}
							k := mine[mod(s.K, len(mine))]
							if growAll(k.val, s.K/7) {
								e.Fault("view appended to")
							}
							check("when its owner appended to view " + k.what)
						case "wreck":
							var mine []*keptView
							for _, k := range held {
								if k.by == c && !k.gone {
									mine = append(mine, k)
								}
							}
							if len(mine) == 0 {
								continue
							}
							k := mine[mod(s.K, len(mine))]
							k.gone = true
							wrecked++
							e.Fault("view overwritten, sorted, cut or cleared")
							wreckView(k.val[0], s.K/7)
							check("when view " + k.what + " was modified")
						case "fix":
							// the feed corrects a candle in place; views taken earlier stand
							if n := len(in.Item.Candles); n > 0 && making == 0 {
								e.Fault("source candle corrected in place")
								tweak(in.Item.Candles[mod(s.K, n)])
								version++
								now = src()
								check("when a source candle was corrected")
							}
						}
						rtYield()
					}
				})
			}
			e.Idle()
			check("by the end")
			if wrecked > 0 && len(held) > 1 {
				e.Nontrivial()
			}
		}})
}

// ------------------------------------------------------------------------- C23

type BStrat struct {
	Ind  string `json:"ind"` // "" = a caller's own strategy
	P    []int  `json:"p"`
	D    Data   `json:"d"`
	Us   int    `json:"us"`   // time the caller's strategy takes
	Same int    `json:"same"` // >0: reuse the instance of strategy Same-1
}

type BBatch struct {
	S  []BStrat `json:"s"`
	At int      `json:"at"` // microseconds before it is started
}

type BWorld struct {
	Batches []BBatch `json:"batches"`
}

func (s *BStrat) job() Job {
	return Job{D: s.D, Op: "ind:" + s.Ind, P: s.P, Src: "item", Acc: "AnalysisSide"}
}

type stubStrategy struct {
	id    int
	us    int
	calls int
	busy  bool
}

func (s *stubStrategy) AnalysisSide() utils.SideData {
	s.calls++
	if s.us > 0 {
		time.Sleep(time.Duration(s.us) * time.Microsecond)
	}
	settle()
	return s.result()
}

func (s *stubStrategy) result() utils.SideData {
	d := utils.SideData{Name: fmt.Sprintf("strategy-%d", s.id)}
	for i := 0; i < s.id%7; i++ {
		d.Data = append(d.Data, []utils.Side{utils.Buy, utils.Sell, utils.Hold}[(s.id+i)%3])
	}
	return d
}

var stratNames []string

func strategies() []string {
	if stratNames == nil {
		var names []string
		for _, d := range inds {
			if d.name == "Camarilla" {
				continue
			}
			for _, a := range accOf(d.name) {
				if a == "AnalysisSide" {
					names = append(names, d.name)
				}
			}
		}
		stratNames = names
	}
	return stratNames
}

func init() {
	register(&Prop{ID: "C23", New: func() any { return &BWorld{} }, Tune: tuneConc,
		Gen: func(r *Rng, big bool) any {
			w := &BWorld{}
			names := strategies()
			ds := dataPool(r, 2)
			for b := r.Pick(1, 1, 2, 3); b > 0; b-- {
				var bb BBatch
				n := r.Pick(0, 1, 2, 3, 5, 8)
				if big {
					n = r.Pick(0, 1, 2, 5, 9, 14, 24)
				}
				lib := 0.45
				if r.P(0.12) {
					n, lib = r.Pick(17, 33, 34, 50, 65, 70, 130), 0.03
				}
				for i := 0; i < n; i++ {
					s := BStrat{}
					if r.P(lib) {
						s.Ind = names[r.N(len(names))]
						s.P = genParams(r, s.Ind)
						s.D = ds[r.N(2)]
					} else {
						s.Us = r.Pick(0, 0, 1, 50, 5000)
					}
					if i > 0 && r.P(0.1) {
						s.Same = 1 + r.N(i)
					}
					bb.S = append(bb.S, s)
				}
				bb.At = r.Pick(0, 0, 1, 40)
				w.Batches = append(w.Batches, bb)
			}
			return w
		},
		Prep: func(x any) {
			for _, b := range x.(*BWorld).Batches {
				for i := range b.S {
					if b.S[i].Ind != "" {
						getRef(b.S[i].job())
					}
				}
			}
		},
		Run: func(e *Env, x any) {
			w := x.(*BWorld)
			shared := inputs{}
			total := 0
			done := 0
			type keep struct {
				got  []utils.SideData
				snap []byte
			}
			var all []keep
			for bi := range w.Batches {
				bi, b := bi, &w.Batches[bi]
				list := make([]utils.IStrategy, len(b.S))
				stubs := make([]*stubStrategy, len(b.S))
				jobs := make([]*BStrat, len(b.S))
				want := map[*stubStrategy]int{}
				bad := false
				for i := range b.S {
					s := &b.S[i]
					if k := s.Same - 1; k >= 0 && k < i {
						list[i], stubs[i], jobs[i] = list[k], stubs[k], jobs[k]
					} else if s.Ind != "" {
						x := makeInd(s.Ind, s.P, "item", shared.get(s.D))
						st, ok := x.(utils.IStrategy)
						if !ok {
							bad = true
							continue
						}
						list[i], jobs[i] = st, s
					} else {
						total++
						st := &stubStrategy{id: 100*bi + i + 1, us: s.Us}
						list[i], stubs[i] = st, st
						if s.Us > 0 {
							e.Fault("slow strategy")
						}
					}
					if stubs[i] != nil {
						want[stubs[i]]++
					}
				}
				if bad {
					continue
				}
				e.Go(fmt.Sprintf("batch%d", bi), func() {
					if b.At > 0 {
						time.Sleep(time.Duration(b.At) * time.Microsecond)
					}
					// a second instance of every library strategy, run alone
					got := utils.RunStrategies(list...)
					done++
					if len(got) != len(list) {
						e.Fail("batch wrong", "%d strategies gave %d results", len(list), len(got))
						return
					}
					if len(list) > 2 {
						e.Nontrivial()
					}
					for i := range list {
						if st := stubs[i]; st != nil {
							if st.calls != want[st] {
								e.Fail("batch wrong", "strategy %d was evaluated %d times when the batch returned, want %d", i, st.calls, want[st])
								return
							}
							if !bytes.Equal(flatten(got[i]), flatten(st.result())) {
								e.Fail("batch wrong", "result %d is %+v, want %+v", i, got[i], st.result())
								return
							}
						} else {
							e.against(jobs[i].job(), []any{got[i]}, "", "batch wrong")
						}
					}
					all = append(all, keep{got, flatten(got)})
				})
			}
			e.Idle()
			if !e.Failed() && !e.aborted {
				if done != len(w.Batches) {
					e.Fail("stuck", "%d of %d batches never returned", len(w.Batches)-done, len(w.Batches))
				}
				for i, k := range all {
					if !bytes.Equal(flatten(k.got), k.snap) {
						e.Fail("batch wrong", "the results of batch %d changed after it had returned", i)
					}
				}
				if n := e.Live(); n > 0 {
					e.dirty = true
					e.Fail("leak", "%d goroutines of a batch still alive", n)
				}
			}
		}})
}
