// Damaged candles: a feed delivers values that are no prices, and corrects
// them later.
package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/idoall/stockindicator/utils/klines"
)

type Hit struct {
	At     int `json:"at"`
	Len    int `json:"len"`
	What   int `json:"what"`
	Fields int `json:"fields"` // bits: open, high, low, close, volume
}

type XSvc struct {
	Job  Job  `json:"job"`
	Live bool `json:"live"` // one instance sees the damage and the repair
	Hits int  `json:"hits"` // how many of the hits this service has seen
	Pre  bool `json:"pre"`  // the sound history is looked at first
}

type XWorld struct {
	D    Data   `json:"d"`
	Hits []Hit  `json:"hits"`
	S    []XSvc `json:"s"`
}

var damages = []struct {
	name string
	f    func(x float64) float64
}{
	{"not a number", func(float64) float64 { return math.NaN() }},
	{"infinite", func(float64) float64 { return math.Inf(1) }},
	{"minus infinite", func(float64) float64 { return math.Inf(-1) }},
	{"zero", func(float64) float64 { return 0 }},
	{"minus zero", func(float64) float64 { return math.Copysign(0, -1) }},
	{"negative", func(x float64) float64 { return -x }},
	{"largest", func(float64) float64 { return math.MaxFloat64 }},
	{"smallest", func(float64) float64 { return math.SmallestNonzeroFloat64 }},
	{"largest below zero", func(float64) float64 { return -math.MaxFloat64 }},
	{"scaled up", func(x float64) float64 { return x * 1e9 }},
	{"scaled down", func(x float64) float64 { return x * 1e-9 }},
}

// damage changes the input in place as the hits say; it returns the first
// candle that was hit.
func damage(e *Env, in *Input, hits []Hit) int {
	n := len(in.Item.Candles)
	first := n
	for _, h := range hits {
		if n == 0 {
			break
		}
		at := mod(h.At, n)
		k := damages[mod(h.What, len(damages))]
		for i := at; i < n && i < at+clampI(h.Len, 1, 400); i++ {
			c := in.Item.Candles[i]
			for b, p := range []*float64{&c.Open, &c.High, &c.Low, &c.Close, &c.Volume} {
				if h.Fields>>b&1 == 1 {
					*p = k.f(*p)
				}
			}
			in.copyColumns(i, c)
		}
		if i := at * len(in.Day.Candles) / n; i < len(in.Day.Candles) {
			c := in.Day.Candles[i]
			for b, p := range []*float64{&c.Open, &c.High, &c.Low, &c.Close, &c.Volume} {
				if h.Fields>>b&1 == 1 {
					*p = k.f(*p)
				}
			}
		}
		if at < first {
			first = at
		}
		e.Fault("candle damaged: " + k.name)
	}
	return first
}

func (in *Input) copyColumns(i int, c *klines.Candle) {
	in.Ohlc.Open[i], in.Ohlc.High[i], in.Ohlc.Low[i], in.Ohlc.Close[i], in.Ohlc.Volume[i] = c.Open, c.High, c.Low, c.Close, c.Volume
	in.Hl2[i] = (c.High + c.Low) / 2
	if i%5 != 3 {
		in.Gap[i] = c.Close
	}
}

func init() {
	register(&Prop{ID: "C26", New: func() any { return &XWorld{} }, Tune: tuneConc,
		Gen: func(r *Rng, big bool) any {
			w := &XWorld{D: dataPool(r, 1)[0]}
			for i := r.Pick(1, 1, 1, 2, 3); i > 0; i-- {
				h := Hit{At: r.N(max(w.D.N, 1)), Len: r.Pick(1, 1, 1, 2, 5, 20, 300), What: r.N(len(damages)), Fields: r.Pick(31, 15, 8, 16, 1<<r.N(5), 1+r.N(31))}
				if r.P(0.2) {
					h.At = r.Pick(0, w.D.N-1, w.D.N/2)
				}
				w.Hits = append(w.Hits, h)
			}
			k := r.In(1, 3)
			if big {
				k = r.In(2, 6)
			}
			for ; k > 0; k-- {
				s := XSvc{Job: genJob(r, w.D, 0.25), Live: r.P(0.35), Hits: r.In(1, len(w.Hits)), Pre: r.P(0.3)}
				if r.P(0.08) {
					s.Job = Job{D: w.D, Op: "view:" + viewNames[r.N(len(viewNames))], P: []int{r.N(20)}}
				}
				w.S = append(w.S, s)
			}
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*XWorld)
			type res struct {
				j    Job
				out  []any
				p    string
				what string
			}
			done := make([][]res, len(w.S))
			for s := range w.S {
				s, st := s, w.S[s]
				keep := func(j Job, out []any, p, what string) { done[s] = append(done[s], res{j, out, p, what}) }
				e.Go(fmt.Sprintf("service%d", s), func() {
					j := st.Job
					kind, name := split(j.Op)
					stable := kind == "fn" && causal[name] || kind == "ind" && !repaints[name+"."+j.Acc]
					sound := w.D.input()
					var want []any
					var p string
					if st.Pre {
						want, p = doJob(j, sound, false)
						keep(j, want, p, "before the damage")
					}
					in := w.D.input()
					n := len(in.Item.Candles)
					first := damage(e, in, w.Hits[:clampI(st.Hits, 0, len(w.Hits))])
					var out []any
					var inst any
					if kind == "ind" && st.Live && follows[name+"."+src(j)] {
						p = protect(func() { inst = makeInd(name, j.P, j.Src, in); calc(inst); out = read(inst, j.Acc, in) })
					} else {
						out, p = doJob(j, in, false)
					}
					if p != "" {
						if _, q := doJob(j, sound, false); q != "" {
							return // nor on sound candles
						}
						e.Fail("crash on a damaged candle", "%s with %d candles, damaged from candle %d on, panicked: %s", j.short(), n, first, p)
						return
					}
					e.Nontrivial()
					got, lens := series(out, n, first)
					if kind != "view" && perCandle(j) {
						for k, l := range lens {
							if l != n {
								e.Fail("length", "%s with %d candles, damaged from candle %d on: part %d of the result has %d entries", j.short(), n, first, k, l)
								return
							}
						}
					}
					if !st.Pre {
						want, p = doJob(j, sound, false)
						keep(j, want, p, "damage stays")
					}
					if stable && first > 0 {
						old, wl := series(want, n, first)
						aligned := len(wl) > 0
						for _, l := range wl {
							aligned = aligned && l == n
						}
						for f := range old {
							if aligned && (f >= len(got) || !bytes.Equal(got[f], old[f])) {
								e.Fail("damage spreads back", "%s with %d candles: damage from candle %d on changes the result before it (value %d of part %d)", j.short(), n, first, firstDiff(old[f], got[f]), f)
								return
							}
						}
						if aligned {
							e.Probe("results before the damage compared")
						}
					}
					if inst != nil {
						e.Fault("damaged candle corrected")
						in.become(w.D)
						p = protect(func() { calc(inst); out = read(inst, j.Acc, in) })
						keep(j, out, p, "not repaired")
						e.Probe("calculated again after the correction")
					}
					e.Event("%s %d", j.Op, first)
				})
			}
			e.Idle()
			for _, rs := range done {
				for _, r := range rs {
					if !e.Failed() && !e.aborted {
						e.against(r.j, r.out, r.p, r.what)
					}
				}
			}
		}})
}

func src(j Job) string {
	if j.P == nil || j.Src == "" {
		return "item"
	}
	return j.Src
}
