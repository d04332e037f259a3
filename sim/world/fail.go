// Computations that cannot succeed, among others that can: no history, a candle
// that is not there, columns of different lengths, impossible parameters,
// strategies that fail or never answer. Whoever asked bears it, nobody else.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"time"

	"github.com/idoall/stockindicator/container/bst"
	"github.com/idoall/stockindicator/container/queue"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
)

type IllStep struct {
	Job Job `json:"job"`
	Ill int `json:"ill"` // 0: sound
	At  int `json:"at"`
}

type IllCaller struct {
	Own   bool      `json:"own"`
	Steps []IllStep `json:"steps"`
}

type IllWorld struct {
	Callers []IllCaller `json:"callers"`
}

const (
	sound = iota
	illNone
	illHole
	illRagged
	illParams
	illBatch
	illStall
	illLive
	illOther
	illKinds
)

var illNames = []string{"", "no history given", "a candle is missing", "columns of different lengths", "impossible parameters", "a strategy fails in a batch", "a strategy never answers", "an instance fails and is calculated again", "a container or document refuses"}

// spoil makes an input that computations cannot work on.
func (in *Input) spoil(ill, at int) {
	n := len(in.Item.Candles)
	switch ill {
	case illNone:
		in.Item, in.Day, in.Ohlc, in.Hl2, in.Gap = nil, nil, &klines.OHLC{}, nil, nil
		if at%2 == 0 {
			in.Item, in.Ohlc = &klines.Item{}, nil
		}
	case illHole:
		if n > 0 {
			in.Item.Candles[mod(at, n)] = nil
		}
		if m := len(in.Day.Candles); m > 0 {
			in.Day.Candles[mod(at, m)] = nil
		}
	case illRagged:
		o := in.Ohlc
		cols := []*[]float64{&o.Open, &o.High, &o.Low, &o.Close, &o.Volume, &in.Hl2}
		c := cols[mod(at, len(cols))]
		if n := len(*c) / (1 + mod(at/7, 3)*2) / 2; mod(at/42, 4) == 0 {
			o.TimeUnix = o.TimeUnix[:n]
		} else {
			*c = (*c)[:n]
		}
		if m := len(in.Day.Candles); m > 0 {
			in.Day.Candles = in.Day.Candles[:m/2]
		}
	}
}

// askIll asks for a computation that cannot be done; what comes of it is only
// the caller's.
func askIll(e *Env, s *IllStep, never chan struct{}) {
	j := s.Job
	kind, name := split(j.Op)
	in := j.D.input()
	if s.Ill != illParams && s.Ill != illOther {
		in.spoil(s.Ill, s.At)
	}
	look := func() []byte {
		if s.Ill == illNone {
			return flatten(in.all())
		}
		return in.bits()
	}
	before := look()
	switch s.Ill {
	case illNone, illHole, illRagged:
		if _, p := doJob(j, in, false); p != "" {
			e.Probe("computation failed")
		}
	case illParams:
		ps := make([]int, 8)
		for i := range ps {
			ps[i] = []int{0, -1, 0, -3, -1 << 40}[mod(s.At, 5)]
			if i != mod(s.At/5, 3) && s.At%2 == 0 {
				ps[i] = 3
			}
		}
		p := protect(func() {
			switch kind {
			case "ind":
				d := &inds[indIdx[name]]
				if j.Src == "ohlc" && d.mko != nil {
					read(d.mko(in, ps), j.Acc, in)
				} else {
					read(d.mk(in, ps), j.Acc, in)
				}
			case "fn":
				fns[fnIdx[name]].call(in.Ohlc, ps[0])
			}
		})
		if p != "" {
			e.Probe("computation failed")
		}
	case illBatch, illStall:
		list := batchOf(in, s.At, 1+mod(s.At/3, 5))
		k := mod(s.At/11, len(list)+1)
		bad := strategyFunc(func() utils.SideData {
			if s.Ill == illStall {
				<-never
			}
			panic("no decision")
		})
		list = append(list[:k:k], append([]utils.IStrategy{bad}, list[k:]...)...)
		if p := protect(func() { utils.RunStrategies(list...) }); p != "" {
			e.Probe("computation failed")
		}
		for _, n := range []int{len(list), 1 + mod(s.At/7, 12)} {
			soundBatch(e, in, s.At+1, n)
		}
	case illOther:
		it := in.Item
		plan := func() (out []byte) {
			protect(func() {
				h, err := klines.CalculateCandleDateRanges(time.Unix(1.6e9, 0), time.Unix(1.6e9+3600*50, 0), klines.OneHour, 7)
				out = flatten([]any{h, err == nil})
			})
			return
		}
		planned := plan()
		for _, iv := range []klines.Interval{-5, 0, it.Interval / 2, it.Interval, it.Interval * 3 / 2, it.Interval * 1e5} {
			protect(func() { it.ConvertToNewInterval(iv) })
		}
		if n := len(it.Candles); n > 3 {
			gap := *it
			k := 1 + mod(s.At, n-2)
			gap.Candles = append(append([]*klines.Candle{}, it.Candles[:k]...), it.Candles[k+1:]...)
			protect(func() { gap.ConvertToNewInterval(it.Interval * 2) })
			gap.Candles = append([]*klines.Candle{}, it.Candles...)
			gap.Candles[k] = nil
			protect(func() { gap.ConvertToNewInterval(it.Interval * 2) })
			protect(func() { gap.SortCandlesByTimestamp(true) })
			protect(func() { gap.RemoveDuplicates() })
			protect(func() { gap.RemoveOutsideRange(time.Unix(0, 0), time.Unix(1e10, 0)) })
			protect(func() { gap.RemoveOutsideRangeCopy(time.Unix(0, 0), time.Unix(1e10, 0)) })
		}
		protect(func() { klines.CalculateCandleDateRanges(time.Unix(1.6e9, 0), time.Unix(1.5e9, 0), klines.OneHour, 7) })
		protect(func() { klines.CalculateCandleDateRanges(time.Unix(1.6e9, 0), time.Unix(1.7e9, 0), 0, 7) })
		protect(func() {
			klines.CalculateCandleDateRanges(time.Unix(1.6e9, 0), time.Unix(1.6e9+36e3, 0), klines.OneHour, 0)
		})
		protect(func() { klines.CalculateCandleDateRanges(time.Time{}, time.Unix(1.6e9, 0), klines.OneHour, 7) })
		protect(func() { (*klines.IntervalRangeHolder)(nil).HasDataAtDate(time.Unix(1.6e9, 0)) })
		protect(func() { (*klines.Item)(nil).ToHeikinAshi() })
		protect(func() { utils.RunStrategies(nil) })
		protect(func() { utils.MovingLeastSquare(3, in.Hl2, nil) })
		if got := plan(); !bytes.Equal(got, planned) {
			e.Fail("other harmed", "after refused plans and conversions a plan came out different")
		}
		protect(func() { queue.New().Dequeue() })
		protect(func() {
			t := bst.New()
			t.Insert(1.5)
			t.Insert("pair")
			t.Remove(int8(3))
		})
		b, err := json.Marshal(in.Item)
		if err != nil {
			break // numbers that JSON has no words for
		}
		protect(func() {
			var to klines.Item
			commonutils.JSONDecode(b[:len(b)/2], &to)
			commonutils.JSONDecode(b, to)
			var n *klines.Item
			n.ConvertToNewInterval(5)
			commonutils.FloatFromString(3)
		})
		protect(func() { (*klines.Item)(nil).GetOHLC() })
		var to klines.Item
		if err = commonutils.JSONDecode(b, &to); err != nil || !bytes.Equal(flatten(&to), flatten(in.Item)) {
			e.Fail("other harmed", "after refused documents a sound one came out different or not at all: %v", err)
		}
		for _, doc := range [][]byte{b, []byte(`{"Open":1.5,"High":[2,"x",null,true],"Low":-1e-7}`)} {
			var got, want any
			if err = commonutils.JSONDecode(doc, &got); err != nil || json.Unmarshal(doc, &want) != nil || !reflect.DeepEqual(got, want) {
				e.Fail("other harmed", "after refused documents one without a schema came out different: %v", err)
			}
		}
		q, t := queue.New(), bst.New()
		for i := 0; i < 5; i++ {
			q.Enqueue(i)
			t.Insert(int64(i))
		}
		for i := 0; i < 5; i++ {
			if got := q.Dequeue(); got != i {
				e.Fail("other harmed", "after a failed take from another queue, value %d is %v", i, got)
			}
			if got := t.Min(); got != int64(i) || !t.Remove(int64(i)) {
				e.Fail("other harmed", "after a failed insertion into another tree, the smallest is %v, want %d", got, i)
			}
		}
	}
	if !bytes.Equal(before, look()) {
		e.Fail("input changed", "%s (%s): the failing computation changed the data it was given: %s", j.short(), illNames[s.Ill], diffPath(in.all(), before))
	}
}

// soundBatch evaluates n strategies together and compares with each by itself.
func soundBatch(e *Env, in *Input, at, n int) {
	var want []utils.SideData
	for _, s := range batchOf(in, at, n) {
		if protect(func() { want = append(want, s.AnalysisSide()) }) != "" {
			return
		}
	}
	var got []utils.SideData
	if p := protect(func() { got = utils.RunStrategies(batchOf(in, at, n)...) }); p != "" || !bytes.Equal(flatten(got), flatten(want)) {
		e.Fail("other harmed", "a sound batch of %d after one with a failing strategy decides otherwise than its strategies do by themselves %s%s", n, p, diffPath(got, flatten(want)))
	}
}

func batchOf(in *Input, at, n int) []utils.IStrategy {
	var list []utils.IStrategy
	names := strategies()
	for i := 0; i < n; i++ {
		name := names[mod(at+i*5, len(names))]
		if clockBound[name+".AnalysisSide"] {
			name = "Rsi"
		}
		if s, ok := makeInd(name, nil, "item", in).(utils.IStrategy); ok {
			list = append(list, s)
		}
	}
	return list
}

func init() {
	register(&Prop{ID: "C28", New: func() any { return &IllWorld{} }, Tune: tuneConc,
		Gen: func(r *Rng, big bool) any {
			w := &IllWorld{}
			ds := dataPool(r, r.In(1, 2))
			n, m := r.In(1, 4), r.In(2, 5)
			if big {
				n, m = r.In(2, 7), r.In(3, 10)
			}
			share := 0.2 + 0.5*r.F()
			for c := 0; c < n; c++ {
				cl := IllCaller{Own: r.P(0.4)}
				js := genJobs(r, ds, m, 0.3)
				for i, j := range js {
					if r.P(0.08) {
						j = Job{D: j.D, Op: "view:" + viewNames[r.N(len(viewNames))], P: []int{r.N(20)}}
					}
					if r.P(share) {
						cl.Steps = append(cl.Steps, IllStep{Job: j, Ill: r.In(1, illKinds-1), At: r.N(1000)})
						if r.P(0.3) && i+1 < len(js) { // something else after it
							continue
						}
					}
					cl.Steps = append(cl.Steps, IllStep{Job: j})
				}
				w.Callers = append(w.Callers, cl)
			}
			return w
		},
		Prep: func(x any) {
			for _, c := range x.(*IllWorld).Callers {
				for _, s := range c.Steps {
					if s.Ill == sound || s.Ill == illLive {
						getRef(s.Job)
					}
				}
			}
		},
		Run: func(e *Env, x any) {
			w := x.(*IllWorld)
			shared := inputs{}
			never := make(chan struct{})
			left, ill := 0, 0
			type res struct {
				j   Job
				out []any
				p   string
			}
			var done []res
			for i := range w.Callers {
				c := &w.Callers[i]
				own := inputs{}
				for _, s := range c.Steps {
					if s.Ill == sound || s.Ill == illLive {
						left++
					}
					if c.Own {
						own.get(s.Job.D)
					} else {
						shared.get(s.Job.D)
					}
				}
				e.Go(fmt.Sprintf("caller%d", i), func() {
					for k := range c.Steps {
						s := &c.Steps[k]
						j := s.Job
						in := shared[j.D]
						if c.Own {
							in = own[j.D]
						}
						if s.Ill != sound {
							ill++
							e.Fault(illNames[clampI(s.Ill, 0, illKinds-1)])
						}
						switch {
						case s.Ill == sound:
							out, p := doJob(j, in, false)
							done = append(done, res{j, out, p})
							left--
							e.Event("done %s", j.Op)
						case s.Ill == illLive:
							if out, p, ok := failThenWork(e, j, s.At); ok {
								done = append(done, res{j, out, p})
							}
							left--
						case s.Ill == illStall: // it never comes back to its caller
							e.GoIn("waiting", func() { askIll(e, s, never) })
							settle()
						default:
							askIll(e, s, never)
						}
					}
				})
			}
			before := map[Data][]byte{}
			for d, in := range shared {
				before[d] = in.bits()
			}
			e.Idle()
			if left > 0 && !e.aborted {
				e.dirty = true
				e.Fail("stuck", "%d computations never returned after others had failed", left)
			}
			close(never)
			e.Idle()
			if e.aborted || e.Failed() {
				return
			}
			if n := e.Live(); n > 0 {
				e.dirty = true
				e.Fail("leak", "%d goroutines left behind by computations that failed", n)
			}
			for _, r := range done {
				if !e.against(r.j, r.out, r.p, "other harmed") {
					return
				}
			}
			for d, b := range before {
				if in := shared[d]; !bytes.Equal(in.bits(), b) {
					e.Fail("input changed", "the shared market data changed: %s", diffPath(in.all(), b))
					return
				}
			}
			if ill > 0 && len(done) > 0 {
				e.Nontrivial()
			}
		}})
}

// failThenWork has one instance fail on data with a hole in it and calculates
// it again when the hole is filled.
func failThenWork(e *Env, j Job, at int) (out []any, p string, ok bool) {
	kind, name := split(j.Op)
	if kind != "ind" || !follows[name+"."+src(j)] {
		return nil, "", false
	}
	in := j.D.input()
	var x any
	if protect(func() { x = makeInd(name, j.P, j.Src, in) }) != "" || x == nil {
		return nil, "", false
	}
	if at%3 == 0 {
		protect(func() { calc(x) })
	}
	n := len(in.Item.Candles)
	if n == 0 {
		return nil, "", false
	}
	k := mod(at, n)
	strat, isStrat := x.(utils.IStrategy)
	batch := isStrat && at%2 == 0 && !clockBound[name+".AnalysisSide"]
	work := func() {
		if batch {
			utils.RunStrategies(strat)
		}
		calc(x)
		read(x, j.Acc, in)
	}
	if j.Src == "ohlc" {
		keep := *in.Ohlc
		o := in.Ohlc
		if c := mod(at, 6); c == 5 {
			o.TimeUnix = o.TimeUnix[:k:k]
		} else {
			col := []*[]float64{&o.Open, &o.High, &o.Low, &o.Close, &o.Volume}[c]
			*col = (*col)[:k:k]
		}
		p = protect(work)
		*in.Ohlc = keep
	} else {
		c := in.Item.Candles[k]
		in.Item.Candles[k] = nil
		p = protect(work)
		in.Item.Candles[k] = c
	}
	again := at%7 > 2 || p == ""
	if p != "" {
		e.Probe("instance failed")
	}
	p = protect(func() {
		if again {
			calc(x)
		}
		out = read(x, j.Acc, in)
	})
	if batch && p == "" {
		var got []utils.SideData
		var want utils.SideData
		if q := protect(func() { got, want = utils.RunStrategies(strat), strat.AnalysisSide() }); q != "" || len(got) != 1 || !bytes.Equal(flatten(got[0]), flatten(want)) {
			e.Fail("other harmed", "%s: a strategy that once failed decides otherwise in a batch than by itself, or not at all %s", j.short(), q)
		}
	}
	return out, p, true
}
