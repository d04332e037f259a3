// Simulated services on a growing history: cold starts, restarts, a forming
// last candle, corrections; results for closed candles must stand.
package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/idoall/stockindicator/utils/klines"
)

// ------------------------------------------------------------------------- C17

type GStep struct {
	N    int  `json:"n"`    // closed candles at this point
	Form int  `json:"form"` // >0: a forming candle after them, version Form
	New  bool `json:"new"`  // the service restarted: all its objects are new
	Twin int  `json:"twin"` // >0: another service computes indicator Twin-1 first
}

type GWorld struct {
	D     Data      `json:"d"`
	Jobs  []Job     `json:"jobs"`
	Steps [][]GStep `json:"steps"` // one list per service
}

// repaints: results that look ahead by their nature (they draw back to pivots
// found later) or that are one number about the whole history.
var repaints = map[string]bool{"SmartMoneyConcepts.GetData": true, "Camarilla.AnalysisSide": true}

// series finds the parts of a result that have one entry per candle and cuts
// them to the first m.
func series(v any, n, m int) (out [][]byte, lens []int) {
	var walk func(x reflect.Value, depth int)
	walk = func(x reflect.Value, depth int) {
		switch x.Kind() {
		case reflect.Interface, reflect.Ptr:
			if !x.IsNil() && depth < 5 {
				walk(x.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				if x.Type().Field(i).IsExported() {
					walk(x.Field(i), depth+1)
				}
			}
		case reflect.Slice:
			lens = append(lens, x.Len())
			k := m
			if k > x.Len() {
				k = x.Len()
			}
			f := &flat{want: -1}
			for i := 0; i < k; i++ {
				f.val(x.Index(i), 1)
			}
			out = append(out, f.b)
		}
	}
	for _, x := range v.([]any) {
		walk(reflect.ValueOf(x), 0)
	}
	return
}

// causal lists the plain functions whose i-th value is about the first i+1
// inputs only.
var causal = map[string]bool{}

func init() {
	for _, n := range []string{"TRange", "Sma", "Rma", "Dema", "Ema", "Wma", "MA", "CCI", "AiCoinCCI", "Atr", "Natr", "Cum",
		"MultiplyBy", "Multiply", "DivideBy", "Divide", "Add", "AddBy", "Subtract", "Diff", "PercentDiff", "ShiftRightAndFillBy",
		"ShiftRight", "RoundDigitsAll", "Pow", "ExtractSign", "KeepPositives", "KeepNegatives", "Max", "Min",
		"Sum", "Sqrt", "Abs", "TrueRange", "Variance", "Dev", "StdDev", "ComputeCCI", "Nzs", "Stochastic", "LinearReg", "LinearRegAngle", "LinearRegIntercept", "LinearRegSlope",
		"MovingLeastSquare", "MovingLinearRegressionUsingLeastSquare", "MeanDeviation", "PivotHigh", "PivotLow"} {
		causal[n] = true
	}
}

func genStable(r *Rng, d Data) Job {
	for {
		j := genJob(r, d, 0.25)
		kind, name := split(j.Op)
		if kind == "ind" && repaints[name+"."+j.Acc] || kind == "fn" && !causal[name] || name == "StochasticHeat" && r.P(0.7) {
			continue
		}
		return j
	}
}

func init() {
	register(&Prop{ID: "C17", New: func() any { return &GWorld{} }, Tune: tuneConc,
		Legal: func(x any) {
			w := x.(*GWorld)
			w.D.Flg &^= flgDisorder
			for i := range w.Jobs {
				w.Jobs[i].D.Flg &^= flgDisorder
			}
		},
		Gen: func(r *Rng, big bool) any {
			w := &GWorld{D: Data{Seed: int64(r.N(100000)), Kind: r.N(4), Step: int64(r.Pick(60, 3600, 14400))}}
			w.D.N = r.Pick(30, 60, 60, 120)
			if big {
				w.D.N = r.Pick(60, 120, 240, 320)
			}
			if r.P(0.35) {
				w.D.Flg = r.Pick(flgNoVol, flgHugeVol, flgHuge, flgStill, flgZero, flgTiny, flgBare, flgTicks, flgBelow, flgTicks|flgBelow, flgNoVol|flgStill|flgHugeVol, flgNoVol, flgCrossed)
			}
			if r.P(0.015) {
				w.D.N = r.Pick(520, 1100)
			}
			long := r.P(0.008)
			if long {
				w.D.N = r.Pick(2300, 4700)
				if r.P(0.08) {
					w.D.N = r.Pick(8300, 10100)
				}
			}
			jobs, services := r.In(1, 3), r.Pick(1, 1, 2)
			if long {
				jobs, services = 1, 1
			}
			for i := jobs; i > 0; i-- {
				w.Jobs = append(w.Jobs, genStable(r, w.D))
			}
			for s := services; s > 0; s-- {
				var st []GStep
				n := r.In(1, w.D.N*3/4)
				for i := r.In(3, 6); i > 0 && n <= w.D.N; i-- {
					g := GStep{N: n}
					if r.P(0.5) {
						g.Form = r.In(1, 4)
						if r.P(0.25) {
							g.Form = r.In(5, 9)
						}
					}
					g.New = r.P(0.3)
					if r.P(0.2) {
						g.Twin = r.In(1, 3)
					}
					st = append(st, g)
					if g.Form == 0 || r.P(0.6) {
						n += r.Pick(1, 1, 1, 2, 3, r.In(1, 1+w.D.N/3))
					}
				}
				w.Steps = append(w.Steps, st)
			}
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*GWorld)
			full := w.D.input()
			for s := range w.Steps {
				steps := w.Steps[s]
				e.Go(fmt.Sprintf("service%d", s), func() {
					// the history lives in one object that grows in place
					var in *Input
					type past struct {
						n    int
						data [][]byte
					}
					seen := make([][]past, len(w.Jobs))
					for si, st := range steps {
						if e.Failed() {
							return
						}
						n := clampI(st.N, 0, len(full.Item.Candles))
						if in == nil || st.New || len(in.Item.Candles) > n+1 {
							if in != nil {
								e.Fault("service restarted")
							}
							in = &Input{D: w.D, Item: &klines.Item{Exchange: "simex", Interval: full.Item.Interval}, Day: full.Day, Ohlc: &klines.OHLC{}}
						}
						grow(in, full, n, st.Form)
						if st.Form > 0 {
							e.Fault("candle still forming")
						}
						total := len(in.Item.Candles)
						if st.Twin > 0 && len(w.Jobs) > 0 {
							doJob(w.Jobs[mod(st.Twin-1, len(w.Jobs))], in, false)
						}
						for k, j := range w.Jobs {
							out, p := doJob(j, in, false)
							if p != "" {
								e.Fail("panic:compute", "%s on the first %d candles panicked: %s", j.short(), total, p)
								return
							}
							now, lens := series(out, total, n)
							aligned := true
							for _, l := range lens {
								if l != total {
									aligned = false
								}
							}
							if !aligned || len(lens) == 0 {
								e.Probe("not a series")
								continue
							}
							for _, old := range seen[k] {
								if old.n > n {
									continue
								}
								cut, _ := series(out, total, old.n)
								for f := range old.data {
									if f >= len(cut) || !bytes.Equal(cut[f], old.data[f]) {
										at := firstDiff(old.data[f], cut[f])
										e.Fail("repainted", "%s: with %d candles, the result for the first %d closed candles differs from what it was with %d (value %d of part %d)", j.short(), total, old.n, old.n, at, f)
										return
									}
								}
								e.Probe("closed results compared")
								e.Nontrivial()
							}
							seen[k] = append(seen[k], past{n, now})
						}
						e.Event("step %d n=%d", si, n)
						rtYield()
					}
				})
			}
			e.Idle()
		}})
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i / 9
		}
	}
	return len(a) / 9
}

// grow brings the history to n closed candles plus, perhaps, a forming one.
func grow(in, full *Input, n, form int) {
	it := in.Item
	cut := func(m int) {
		it.Candles = it.Candles[:m]
		in.Ohlc.Open, in.Ohlc.High, in.Ohlc.Low = in.Ohlc.Open[:m], in.Ohlc.High[:m], in.Ohlc.Low[:m]
		in.Ohlc.Close, in.Ohlc.Volume = in.Ohlc.Close[:m], in.Ohlc.Volume[:m]
		in.Ohlc.BullMarket, in.Ohlc.TimeUnix = in.Ohlc.BullMarket[:m], in.Ohlc.TimeUnix[:m]
		in.Hl2, in.Gap = in.Hl2[:m], in.Gap[:m]
	}
	add := func(c klines.Candle) {
		it.Candles = append(it.Candles, &c)
		o := in.Ohlc
		o.Open = append(o.Open, c.Open)
		o.High = append(o.High, c.High)
		o.Low = append(o.Low, c.Low)
		o.Close = append(o.Close, c.Close)
		o.Volume = append(o.Volume, c.Volume)
		o.BullMarket = append(o.BullMarket, c.IsBullMarket)
		o.TimeUnix = append(o.TimeUnix, c.TimeUnix)
		in.Hl2 = append(in.Hl2, (c.High+c.Low)/2)
		in.Gap = append(in.Gap, c.Close)
	}
	// a forming candle from before is replaced by what it became
	for len(it.Candles) > 0 {
		last := len(it.Candles) - 1
		if last < n && *it.Candles[last] == *full.Item.Candles[last] {
			break
		}
		cut(last)
	}
	for i := len(it.Candles); i < n; i++ {
		add(*full.Item.Candles[i])
	}
	if form > 0 && n < len(full.Item.Candles) {
		c := *full.Item.Candles[n]
		for k := 0; k < form && k < 4; k++ {
			tweak(&c)
		}
		switch form {
		case 5: // a spike
			c.High, c.Close = c.High*4000, c.Close*3000
			c.Volume *= 1e7
		case 6: // nothing traded yet
			c.Open, c.High, c.Low, c.Volume = c.Close, c.Close, c.Close, 0
		case 7: // a crash
			c.Low, c.Close = c.Low/1e5, c.Close/1e5
		case 8: // a bad tick
			c.Low, c.Close = 0, 0
		case 9:
			c.Volume = 1e13
		}
		add(c)
	}
}

// ------------------------------------------------------------------------- C24

type SStart struct {
	Job Job   `json:"job"`
	N   []int `json:"n"` // history lengths the service finds at its starts
}

type SWorld2 struct {
	D Data     `json:"d"`
	S []SStart `json:"s"`
}

// perCandle: accessors whose result has one entry per candle.
func perCandle(j Job) bool {
	kind, name := split(j.Op)
	if kind == "fn" {
		return causal[name]
	}
	return !notPerCandle[name+"."+j.Acc]
}

var notPerCandle = map[string]bool{}

func init() {
	register(&Prop{ID: "C24", New: func() any { return &SWorld2{} }, Tune: tuneConc,
		Gen: func(r *Rng, big bool) any {
			w := &SWorld2{D: Data{Seed: int64(r.N(100000)), Kind: r.N(4), Step: 3600}}
			if r.P(0.45) {
				w.D.Flg = r.Pick(flgNoVol, flgHugeVol, flgHuge, flgStill, flgZero, flgZero, flgZero, flgTiny, flgDisorder, flgBare, flgTicks, flgBelow, flgTicks|flgBelow, flgNoVol|flgStill, flgCrossed)
			}
			for s := r.Pick(1, 2, 3); s > 0; s-- {
				d := w.D
				st := SStart{Job: genJob(r, d, 0.3)}
				for !perCandle(st.Job) {
					st.Job = genJob(r, d, 0.3)
				}
				max := 40
				if big {
					max = 260
				}
				// every length up to a small one, or some lengths on the way
				if r.P(0.5) {
					hi := r.In(3, 24)
					for n := 0; n <= hi; n++ {
						st.N = append(st.N, n)
					}
				} else {
					n := r.N(4)
					for i := r.In(3, 10); i > 0; i-- {
						st.N = append(st.N, n)
						n += r.In(1, 1+max/5)
					}
				}
				_, name := split(st.Job.Op)
				st.Job.P = affordable(name, st.Job.P, st.N[len(st.N)-1])
				w.S = append(w.S, st)
			}
			w.D.N = 300
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*SWorld2)
			for s := range w.S {
				st := w.S[s]
				e.Go(fmt.Sprintf("service%d", s), func() {
					for _, n := range st.N {
						if e.Failed() {
							return
						}
						d := w.D
						d.N = clampI(n, 0, 600)
						e.Fault("cold start")
						if d.N < 30 {
							e.Fault("cold start on a short history")
						}
						in := d.input()
						out, p := doJob(st.Job, in, false)
						if p != "" {
							e.Fail("crash on a short history", "%s with %d candles panicked: %s", st.Job.short(), d.N, p)
							return
						}
						e.Nontrivial()
						_, lens := series(out, d.N, d.N)
						if perCandle(st.Job) {
							for k, l := range lens {
								if l != d.N {
									e.Fail("length", "%s with %d candles: part %d of the result has %d entries", st.Job.short(), d.N, k, l)
									return
								}
							}
						}
						e.Event("n=%d %s", d.N, st.Job.Op)
					}
				})
			}
			e.Idle()
		}})
}
