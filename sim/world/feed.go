// Simulated market-data feeds: relays that lose, repeat, delay and reorder,
// collectors that crash, and the library's normalising, resampling and
// planning of what arrives.
package main

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"time"

	"github.com/idoall/stockindicator/utils/klines"
)

// ------------------------------------------------------------------------- C14

// FMsg is one message a relay carries: candles From..From+Len-1 of the history.
type FMsg struct {
	At    int  `json:"at"` // when the venue sends it, milliseconds
	From  int  `json:"from"`
	Len   int  `json:"len"`
	Rev   int  `json:"rev"`   // >0: a provisional version of its last candle
	Delay int  `json:"delay"` // milliseconds on the way
	Lost  bool `json:"lost"`
	Dup   int  `json:"dup"`  // extra deliveries ...
	Gap   int  `json:"gap"`  // ... so many milliseconds apart
	Back  bool `json:"back"` // newest first inside the message
	To    int  `json:"to"`   // receiving collector
}

type FCrash struct {
	To   int `json:"to"`
	At   int `json:"at"`
	Down int `json:"down"`
}

type FCut struct {
	To   int `json:"to"`
	From int `json:"from"`
	Till int `json:"till"`
}

type FCollector struct {
	Desc   bool `json:"desc"`   // keeps newest first
	Dedup  bool `json:"dedup"`  // removes duplicates before sorting, not after
	Newest bool `json:"newest"` // puts arrivals in front of what it has
	Save   int  `json:"save"`   // writes its history down after so many messages
	Lo     int  `json:"lo"`     // range queries it makes, in candles
	Hi     int  `json:"hi"`
	Far    int  `json:"far,omitempty"` // >0: its range queries have bounds far away
}

// farBounds are range bounds at the ends of what callers use for "always",
// "never" and "from then on".
var farBounds = [][2]int64{
	{-62135596800, 253402300799},   // the first and the last date there are
	{-62135596800, -62135596800},   // zero times
	{0, 1 << 40},                   // since the epoch, open end
	{baseUnix, 9_300_000_000},      // until after 2262
	{9_300_000_000, 9_900_000_000}, // after 2262
	{-9_300_000_000, 9_300_000_000},
	{-9_400_000_000, -9_300_000_000},
	{253402300799, -62135596800}, // the wrong way round
	{baseUnix - 1, baseUnix + 1},
	{math.MinInt32, math.MaxInt32},
	{0, math.MaxUint32},
}

type FWorld struct {
	D     Data         `json:"d"`
	C     []FCollector `json:"c"`
	M     []FMsg       `json:"m"`
	Crash []FCrash     `json:"crash"`
	Cut   []FCut       `json:"cut"`
}

type delivery struct {
	at   int
	seq  int
	cs   []*klines.Candle
	heal bool
}

func times(cs []*klines.Candle) []int64 {
	out := make([]int64, len(cs))
	for i, c := range cs {
		if c == nil {
			out[i] = math.MinInt64
		} else {
			out[i] = c.TimeUnix
		}
	}
	return out
}

func samePtrs(a, b []*klines.Candle) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// permuted reports whether b holds exactly the candles of a, in any order.
func permuted(a, b []*klines.Candle) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[*klines.Candle]int{}
	for _, c := range a {
		n[c]++
	}
	for _, c := range b {
		n[c]--
		if n[c] < 0 {
			return false
		}
	}
	return true
}

func checkedSort(e *Env, it *klines.Item, desc bool, who string) {
	before := append([]*klines.Candle(nil), it.Candles...)
	it.SortCandlesByTimestamp(desc)
	if !permuted(before, it.Candles) {
		e.Fail("sort lost candles", "%s: sorting %v gave %v", who, times(before), times(it.Candles))
		return
	}
	for i := 1; i < len(it.Candles); i++ {
		a, b := it.Candles[i-1].TimeUnix, it.Candles[i].TimeUnix
		if !desc && a > b || desc && a < b {
			e.Fail("not sorted", "%s: sorted (newest first: %v) history is %v", who, desc, times(it.Candles))
			return
		}
	}
}

func checkedDedup(e *Env, it *klines.Item, who string) {
	before := append([]*klines.Candle(nil), it.Candles...)
	vals := copyCandles(before)
	seen := map[int64]bool{}
	var want []*klines.Candle
	for _, c := range before {
		if !seen[c.TimeUnix] {
			seen[c.TimeUnix] = true
			want = append(want, c)
		}
	}
	it.RemoveDuplicates()
	if !samePtrs(it.Candles, want) {
		e.Fail("dedup wrong", "%s: removing duplicates from %v gave %v; the first candle of each time should stay, in order", who, times(before), times(it.Candles))
		return
	}
	for i, c := range before {
		if *c != vals[i] {
			e.Fail("candle altered", "%s: removing duplicates changed a candle", who)
			return
		}
	}
	if len(want) < len(before) {
		e.Probe("duplicates removed")
	}
}

func checkedRange(e *Env, it *klines.Item, lo, hi int64, who string) {
	var want []*klines.Candle
	for _, c := range it.Candles {
		if c.TimeUnix == lo || c.TimeUnix > lo && c.TimeUnix < hi {
			want = append(want, c)
		}
	}
	before := times(it.Candles)
	a, b := time.Unix(lo, 0), time.Unix(hi, 0)
	if lo%2 != 0 {
		a, b = a.In(someZone), b.UTC()
	}
	other := it.RemoveOutsideRangeCopy(a, b)
	cut := &klines.Item{Interval: it.Interval, Candles: append([]*klines.Candle(nil), it.Candles...)}
	cut.RemoveOutsideRange(a, b)
	same := len(other.Candles) == len(want)
	for i := 0; same && i < len(want); i++ {
		same = *other.Candles[i] == *want[i]
	}
	if !same {
		e.Fail("range wrong", "%s: copying [%d,%d) of %v gave %v", who, lo, hi, before, times(other.Candles))
		return
	}
	if !samePtrs(cut.Candles, want) {
		e.Fail("range wrong", "%s: keeping [%d,%d) of %v gave %v", who, lo, hi, before, times(cut.Candles))
	}
}

var someZone = time.FixedZone("UTC+9:30", 34200)

// chaos walks the simulated wall clock while a run goes on.
func init() {
	register(&Prop{ID: "C14", New: func() any { return &FWorld{} },
		Gen: func(r *Rng, big bool) any {
			w := &FWorld{D: Data{Seed: int64(r.N(100000)), N: r.Pick(1, 2, 5, 12, 20, 40), Kind: r.N(4), Step: int64(r.Pick(1, 60, 3600, 86400))}}
			nc, nm := r.In(1, 3), r.In(1, 14)
			if big {
				nc, nm = r.In(1, 5), r.In(5, 45)
				w.D.N = r.Pick(5, 20, 60, 150)
			}
			switch {
			case r.P(0.04):
				// months of candles
				w.D.N, nc, nm = r.Pick(300, 700, 1500, 3000), 1, r.In(1, 4)
				if r.P(0.04) {
					w.D.N = r.Pick(6000, 12000, 20000)
				}
			case r.P(0.03):
				// candles generations apart
				w.D.Step = int64(r.Pick(1<<29, 1<<31, 1<<32, 1<<32))
			case r.P(0.1):
				w.D.T0 = int64(r.Pick(7_700_000_000, -2_500_000_000, -1_672_531_200)) / w.D.Step
			}
			for i := 0; i < nc; i++ {
				w.C = append(w.C, FCollector{Desc: r.P(0.3), Dedup: r.P(0.5), Newest: r.P(0.4), Save: r.N(4), Lo: r.In(-2, w.D.N), Hi: r.In(-2, w.D.N+3)})
				if r.P(0.3) {
					w.C[i].Far = 1 + r.N(len(farBounds))
				}
			}
			lossy, dup, late := r.F()*0.4, r.F()*0.5, r.Pick(0, 0, 30, 400)
			for i := 0; i < nm; i++ {
				m := FMsg{At: i * 20, From: r.N(w.D.N), Len: r.In(1, 1+w.D.N/2), Delay: 1 + r.N(late+1), To: r.N(nc)}
				if r.P(0.6) {
					m.From = i * w.D.N / nm // mostly advancing
				}
				m.Lost = r.P(lossy)
				if r.P(dup) {
					m.Dup, m.Gap = r.In(1, 3), r.N(60)
				}
				m.Back = r.P(0.3)
				if r.P(0.3) {
					m.Rev = r.In(1, 3)
				}
				w.M = append(w.M, m)
			}
			for i := r.Pick(0, 0, 1, 2); i > 0; i-- {
				w.Crash = append(w.Crash, FCrash{To: r.N(nc), At: r.N(nm*20 + 50), Down: r.In(1, 150)})
			}
			for i := r.Pick(0, 0, 1, 2); i > 0; i-- {
				a := r.N(nm*20 + 10)
				w.Cut = append(w.Cut, FCut{To: r.N(nc), From: a, Till: a + r.In(10, 200)})
			}
			return w
		},
		Run: runFeed})
}

func runFeed(e *Env, x any) {
	w := x.(*FWorld)
	truth := w.D.candles()
	if len(w.C) == 0 || len(truth) == 0 {
		return
	}
	n := len(truth)
	base := truth[0].TimeUnix
	end := 100
	queues := make([][]delivery, len(w.C))
	seq := 0
	send := func(to, at int, m FMsg) {
		lo := mod(m.From, n)
		hi := lo + clampI(m.Len, 1, n)
		if hi > n {
			hi = n
		}
		var cs []*klines.Candle
		for i := lo; i < hi; i++ {
			c := *truth[i]
			if m.Rev > 0 && i == hi-1 {
				c.Close *= 1 + 0.001*float64(m.Rev)
				c.Volume -= float64(m.Rev)
				if m.Rev == 1 && m.From%3 == 0 { // just opened, no trade yet
					c.Volume, c.High, c.Low, c.Close = 0, c.Open, c.Open, c.Open
				}
			}
			cs = append(cs, &c)
		}
		if m.Back {
			for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
				cs[i], cs[j] = cs[j], cs[i]
			}
			e.Fault("message newest first")
		}
		for _, cut := range w.Cut {
			if mod(cut.To, len(w.C)) == to && at >= cut.From && at < cut.Till {
				e.Fault("message lost in a partition")
				return
			}
		}
		seq++
		queues[to] = append(queues[to], delivery{at: at, seq: seq, cs: cs})
		if at > end {
			end = at
		}
	}
	for _, m := range w.M {
		to := mod(m.To, len(w.C))
		m.At, m.Delay, m.Gap, m.Dup = clampI(m.At, 0, 100000), clampI(m.Delay, 0, 10000), clampI(m.Gap, 0, 10000), clampI(m.Dup, 0, 5)
		if m.Rev > 0 {
			e.Fault("provisional candle")
		}
		if m.Lost {
			e.Fault("message lost")
			continue
		}
		if m.Delay > 40 {
			e.Fault("message delayed past later ones")
		}
		for k := 0; k <= m.Dup; k++ {
			if k > 0 {
				e.Fault("message repeated")
			}
			send(to, m.At+m.Delay+k*m.Gap, m)
		}
	}
	for _, c := range w.Crash {
		if t := clampI(c.At, 0, 100000) + clampI(c.Down, 0, 10000); t > end {
			end = t
		}
	}
	// faults over: the venue sends the whole history again in pages
	healAt := end + 50
	page := 7
	if n > 200 {
		page = n/12 + 1
	}
	for to := range w.C {
		for i := 0; i < n; i += page {
			seq++
			var cs []*klines.Candle
			for j := i; j < n && j < i+page; j++ {
				c := *truth[j]
				cs = append(cs, &c)
			}
			queues[to] = append(queues[to], delivery{at: healAt + i, seq: seq, cs: cs, heal: true})
		}
		q := queues[to]
		sort.Slice(q, func(a, b int) bool {
			if q[a].at != q[b].at {
				return q[a].at < q[b].at
			}
			return q[a].seq < q[b].seq
		})
	}
	finished := 0
	for to := range w.C {
		to, cf := to, w.C[to]
		who := fmt.Sprintf("collector %d", to)
		var down [][2]int
		for _, c := range w.Crash {
			if mod(c.To, len(w.C)) == to {
				a := clampI(c.At, 0, 100000)
				down = append(down, [2]int{a, a + clampI(c.Down, 0, 10000)})
			}
		}
		inbox := make(chan delivery, 4)
		e.Go("relay", func() {
			t0 := runtime.SimMono()
			for _, d := range queues[to] {
				if wait := int64(d.at)*1e6 - (runtime.SimMono() - t0); wait > 0 {
					time.Sleep(time.Duration(wait))
				}
				inbox <- d
			}
			close(inbox)
		})
		e.Go("collector", func() {
			it := &klines.Item{Exchange: "simex", Interval: klines.Interval(w.D.step() * 1e9)}
			var saved []klines.Candle // durable
			versions := map[int64]map[klines.Candle]bool{}
			got := 0
			wasDown := false
			healing := false
			for d := range inbox {
				if e.Failed() {
					continue
				}
				isDown := false
				for _, x := range down {
					if d.at >= x[0] && d.at < x[1] && !d.heal {
						isDown = true
					}
				}
				if isDown {
					if !wasDown {
						e.Fault("collector crashed")
					}
					wasDown = true
					continue // nobody is listening
				}
				if wasDown {
					wasDown = false
					// restarts with what it had written down
					it = &klines.Item{Exchange: "simex", Interval: klines.Interval(w.D.step() * 1e9)}
					versions = map[int64]map[klines.Candle]bool{}
					for i := range saved {
						c := saved[i]
						it.Candles = append(it.Candles, &c)
						if versions[c.TimeUnix] == nil {
							versions[c.TimeUnix] = map[klines.Candle]bool{}
						}
						versions[c.TimeUnix][c] = true
					}
				}
				for _, c := range d.cs {
					if versions[c.TimeUnix] == nil {
						versions[c.TimeUnix] = map[klines.Candle]bool{}
					}
					versions[c.TimeUnix][*c] = true
				}
				if cf.Newest || d.heal {
					it.Candles = append(append([]*klines.Candle(nil), d.cs...), it.Candles...)
				} else {
					it.Candles = append(it.Candles, d.cs...)
				}
				if d.heal {
					healing = true
				}
				if (cf.Lo+cf.Hi)%3 == 0 && len(it.Candles) > len(versions) {
					// cut as it came, repeated and in no order
					checkedRange(e, it, base+int64(cf.Lo)*w.D.step(), base+int64(cf.Hi)*w.D.step(), who)
					e.Probe("raw history cut")
				}
				if cf.Dedup || d.heal {
					checkedDedup(e, it, who)
					rtYield()
					checkedSort(e, it, cf.Desc, who)
				} else {
					checkedSort(e, it, cf.Desc, who)
					rtYield()
					checkedDedup(e, it, who)
				}
				if e.Failed() {
					continue
				}
				// the normalised history: one candle per time seen, strictly
				// ordered, each one of the versions that arrived
				if len(it.Candles) != len(versions) {
					e.Fail("history wrong", "%s has %d candles for %d different times", who, len(it.Candles), len(versions))
					continue
				}
				for i, c := range it.Candles {
					if !versions[c.TimeUnix][*c] {
						e.Fail("history wrong", "%s holds a candle for %d that never arrived", who, c.TimeUnix)
						break
					}
					if i > 0 && (cf.Desc && it.Candles[i-1].TimeUnix <= c.TimeUnix || !cf.Desc && it.Candles[i-1].TimeUnix >= c.TimeUnix) {
						e.Fail("history wrong", "%s is not in strict order: %v", who, times(it.Candles))
						break
					}
				}
				checkedRange(e, it, base+int64(cf.Lo)*w.D.step(), base+int64(cf.Hi)*w.D.step(), who)
				if cf.Far > 0 {
					f := farBounds[(cf.Far-1)%len(farBounds)]
					checkedRange(e, it, f[0], f[1], who)
					// one bound far away, the other inside the history
					checkedRange(e, it, base+int64(cf.Lo)*w.D.step(), f[1], who)
					checkedRange(e, it, f[0], base+int64(cf.Hi)*w.D.step(), who)
					e.Probe("far range")
				}
				got++
				if cf.Save > 0 && got%cf.Save == 0 {
					saved = copyCandles(it.Candles)
				}
				e.Event("%s %d", who, len(it.Candles))
			}
			if e.Failed() {
				return
			}
			finished++
			if !healing {
				return
			}
			// converged on the true history
			want := append([]*klines.Candle(nil), truth...)
			if cf.Desc {
				for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
					want[i], want[j] = want[j], want[i]
				}
			}
			if len(it.Candles) != len(want) {
				e.Fail("not converged", "%s ends with %d of %d candles although everything was sent again", who, len(it.Candles), len(want))
				return
			}
			for i := range want {
				if *want[i] != *it.Candles[i] {
					e.Fail("not converged", "%s ends with candle %d = %+v, the venue has %+v", who, i, *it.Candles[i], *want[i])
					return
				}
			}
		})
	}
	e.Idle()
	if !e.Failed() && !e.aborted && finished != len(w.C) {
		e.Fail("stuck", "%d of %d collectors never finished", len(w.C)-finished, len(w.C))
	}
	if len(e.faults) > 0 {
		e.Nontrivial()
	}
}

// ------------------------------------------------------------------------- C15

type RStep struct {
	N    int   `json:"n"`    // candles there are at this point
	K    int   `json:"k"`    // resample to K times the interval
	Drop int   `json:"drop"` // >0: candle Drop-1 is missing
	Bad  int   `json:"bad"`  // >0: an impossible interval
	Jump int64 `json:"jump"` // the wall clock steps by so many seconds first
}

type RWorld struct {
	D     Data      `json:"d"`
	Align int       `json:"align"` // the first candle opens a window of so many base intervals
	Off   int       `json:"off"`   // ... plus so many candles (0 in every generated run)
	C     [][]RStep `json:"c"`
}

// onGrid finds a first candle index whose time is on the grid of k intervals.
func onGrid(d Data, k int) Data {
	if k < 1 {
		k = 1
	}
	base := baseUnix - baseUnix%d.step()
	for i := int64(0); i < int64(k); i++ {
		t := time.Unix(base+(d.T0+i)*d.step(), 0)
		if t.Truncate(time.Duration(int64(k) * d.step() * 1e9)).Equal(t) {
			d.T0 += i
			return d
		}
	}
	return d
}

func resampleModel(cs []*klines.Candle, k int) []klines.Candle {
	var out []klines.Candle
	for i := 0; i+k <= len(cs); i += k {
		w := cs[i : i+k]
		c := klines.Candle{TimeUnix: w[0].TimeUnix, Open: w[0].Open, Close: w[k-1].Close, High: w[0].High, Low: w[0].Low}
		for _, x := range w {
			c.High = math.Max(c.High, x.High)
			c.Low = math.Min(c.Low, x.Low)
			c.Volume += x.Volume
		}
		c.ChangePercent = (c.Close - c.Open) / c.Open
		c.IsBullMarket = c.Close > c.Open
		out = append(out, c)
	}
	return out
}

func candleDiff(g, w klines.Candle) string {
	switch {
	case g.TimeUnix != w.TimeUnix:
		return fmt.Sprintf("opens at %d, want %d", g.TimeUnix, w.TimeUnix)
	case g.Open != w.Open:
		return fmt.Sprintf("Open %v, want %v", g.Open, w.Open)
	case g.High != w.High:
		return fmt.Sprintf("High %v, want %v", g.High, w.High)
	case g.Low != w.Low:
		return fmt.Sprintf("Low %v, want %v", g.Low, w.Low)
	case g.Close != w.Close:
		return fmt.Sprintf("Close %v, want %v", g.Close, w.Close)
	case !closeTo(g.Volume, w.Volume):
		return fmt.Sprintf("Volume %v, want %v", g.Volume, w.Volume)
	case w.Open != 0 && !closeTo(g.ChangePercent, w.ChangePercent):
		return fmt.Sprintf("ChangePercent %v, want %v", g.ChangePercent, w.ChangePercent)
	case g.IsBullMarket != w.IsBullMarket:
		return fmt.Sprintf("IsBullMarket %v, want %v", g.IsBullMarket, w.IsBullMarket)
	}
	return ""
}

func init() {
	register(&Prop{ID: "C15", New: func() any { return &RWorld{} },
		Tune: func(r *Rng, s *Sched) { s.MaxSteps = 200_000_000 },
		Gen: func(r *Rng, big bool) any {
			w := &RWorld{D: Data{Seed: int64(r.N(100000)), Kind: r.N(4), Step: int64(r.Pick(1, 15, 60, 300, 900, 3600, 14400, 86400)), T0: int64(r.N(3000))}}
			w.Align = r.Pick(2, 3, 4, 6, 7, 12, 24)
			max := 40
			if big {
				max = 150
			}
			if r.P(0.35) {
				w.D.Flg = r.Pick(flgNoVol, flgNoVol, flgHugeVol, flgHuge, flgStill, flgTiny, flgBare, flgNoVol|flgStill, flgZero, flgTicks, flgBelow, flgTicks|flgBelow)
			}
			long := r.P(0.01)
			if long {
				max = r.Pick(700, 2300, 4900)
				w.Align = r.Pick(2, 3, 4)
				if r.P(0.06) { // a year of hours, weeks of minutes
					max = r.Pick(9000, 20000, 34000)
				}
			}
			w.D.N = max
			for c := r.Pick(1, 1, 2, 3); c > 0; c-- {
				var st []RStep
				n := r.In(0, 10)
				for i := r.In(2, 7); i > 0; i-- {
					s := RStep{N: n, K: w.Align}
					if w.Align%2 == 0 && r.P(0.3) {
						s.K = w.Align / 2
					}
					switch r.N(12) {
					case 0:
						s.Drop = 1 + r.N(n+1)
					case 1:
						s.Bad = r.In(1, 9)
					}
					if r.P(0.2) {
						s.Jump = int64(r.N(2_000_000_000)) - 1_200_000_000
					}
					st = append(st, s)
					n += r.Pick(0, 1, 1, 2, w.Align, r.N(max/2))
					if long && len(st) > 1 {
						n += max / 2
					}
					if n > max {
						n = max
					}
				}
				w.C = append(w.C, st)
			}
			return w
		},
		Legal: func(x any) {
			w := x.(*RWorld)
			w.D.Flg &^= flgDisorder
			w.Align = clampI(w.Align, 1, 100)
			for c := range w.C {
				for i := range w.C[c] {
					if s := &w.C[c][i]; s.Bad == 0 && (s.K < 1 || w.Align%s.K != 0) {
						s.K = w.Align
					}
				}
			}
		},
		Run: func(e *Env, x any) {
			w := x.(*RWorld)
			d := onGrid(w.D, clampI(w.Align, 1, 100))
			d.T0 += int64(w.Off)
			truth := d.candles()
			step := klines.Interval(d.step() * 1e9)
			for c := range w.C {
				steps := w.C[c]
				e.Go(fmt.Sprintf("service%d", c), func() {
					closed := map[int]map[int64]klines.Candle{}
					for _, s := range steps {
						if e.Failed() {
							return
						}
						if s.Jump != 0 {
							e.Fault("wall clock stepped")
							runtime.SimJumpWall(s.Jump * 1e9)
						}
						n := clampI(s.N, 0, len(truth))
						it := &klines.Item{Exchange: "simex", Interval: step}
						for i := 0; i < n; i++ {
							if s.Drop > 0 && i == s.Drop-1 {
								continue
							}
							cc := *truth[i]
							it.Candles = append(it.Candles, &cc)
						}
						k := clampI(s.K, 1, 200)
						if m := len(it.Candles); s.Bad >= 7 && m > 3 {
							i := 1 + (s.N*7+s.K)%(m-2)
							switch cc := *it.Candles[i]; s.Bad {
							case 7: // delivered twice
								it.Candles = append(it.Candles[:i], append([]*klines.Candle{&cc}, it.Candles[i:]...)...)
							case 8: // and another one not at all
								it.Candles = append(append(append([]*klines.Candle{}, it.Candles[:i]...), &cc, &cc), it.Candles[i+2:]...)
							case 9: // overtaken by the next one
								if i+1 < m-1 {
									it.Candles[i], it.Candles[i+1] = it.Candles[i+1], it.Candles[i]
								} else {
									it.Candles[i], it.Candles[i-1] = it.Candles[i-1], it.Candles[i]
								}
							}
							e.Fault("repeated or misplaced candle")
						}
						before := copyCandles(it.Candles)
						to := klines.Interval(int64(k)) * step
						wantErr := ""
						switch {
						case s.Bad == 1:
							to, wantErr = 0, "no new interval"
						case s.Bad == 2:
							to, wantErr = -to, "negative new interval"
						case s.Bad == 3:
							to, wantErr = step, "the same interval"
						case s.Bad >= 7 && n > 3 && len(before) > 3:
							wantErr = "a repeated or misplaced candle"
						case s.Bad == 4:
							to, wantErr = step/2, "a shorter interval"
						case s.Bad == 5:
							to, wantErr = to+step/3, "not a multiple"
						case s.Bad == 6:
							it.Interval, wantErr = 0, "no interval of its own"
						case k == 1:
							wantErr = "the same interval"
						case n == 0 || len(it.Candles) == 0:
							wantErr = "no candles"
						case s.Drop > 1 && s.Drop < n:
							wantErr = "a missing candle"
							e.Fault("missing candle")
						case s.Drop == 1 && n > 0, s.Drop == n && n > 0:
							// the first or last one missing is only a shorter history,
							// for the first one: off the grid
							if s.Drop == 1 {
								continue
							}
							fallthrough
						default:
							if len(it.Candles) < k {
								wantErr = "not one complete window"
							}
						}
						if s.Bad > 0 && s.Bad < 7 {
							e.Fault("impossible interval asked for")
						}
						got, err := it.ConvertToNewInterval(to)
						for i, cc := range it.Candles {
							if *cc != before[i] {
								e.Fail("input changed", "resampling changed candle %d of its input", i)
								return
							}
						}
						if wantErr != "" {
							if err == nil {
								e.Fail("accepted", "resampling %d candles of %v to %v was accepted although there is %s; got %d candles", len(it.Candles), step, to, wantErr, len(got.Candles))
							}
							e.Probe("refusal checked")
							continue
						}
						if err != nil {
							e.Fail("refused", "resampling %d candles of %v to %v: %v", len(it.Candles), step, to, err)
							return
						}
						if t := time.Unix(it.Candles[0].TimeUnix, 0); !t.Truncate(to.Duration()).Equal(t) {
							// off the grid: whatever the windows, prices are positive
							if w.D.Flg&(flgZero|flgTicks|flgBelow) != 0 {
								continue
							}
							for i, cc := range got.Candles {
								if cc == nil || cc.Open <= 0 || cc.High <= 0 || cc.Low <= 0 || cc.Close <= 0 {
									e.Fail("off the grid", "%d candles of %v from %v to %v, all with positive prices: candle %d of %d is %+v", len(it.Candles), step, t.UTC(), to, i, len(got.Candles), cc)
									return
								}
							}
							continue
						}
						want := resampleModel(it.Candles, k)
						if got.Interval != to {
							e.Fail("resample wrong", "the result says interval %v, want %v", got.Interval, to)
							return
						}
						if len(got.Candles) != len(want) {
							e.Fail("resample wrong", "%d candles of %v gave %d of %v, want %d", len(it.Candles), step, len(got.Candles), to, len(want))
							return
						}
						if closed[k] == nil {
							closed[k] = map[int64]klines.Candle{}
						}
						for i := range want {
							if got.Candles[i] == nil {
								e.Fail("resample wrong", "candle %d of %d is nil", i, len(want))
								return
							}
							if df := candleDiff(*got.Candles[i], want[i]); df != "" {
								e.Fail("resample wrong", "%d candles of %v to %v: candle %d of %d: %s", len(it.Candles), step, to, i, len(want), df)
								return
							}
							old, ok := closed[k][want[i].TimeUnix]
							if ok && old != *got.Candles[i] && !sameBytes(flatten([]any{old}), flatten([]any{*got.Candles[i]})) {
								e.Fail("closed candle changed", "candle %d, already complete, changed from %+v to %+v", i, old, *got.Candles[i])
								return
							}
							if ok {
								e.Probe("closed window seen again")
							}
							closed[k][want[i].TimeUnix] = *got.Candles[i]
						}
						if len(it.Candles)%k != 0 {
							e.Probe("incomplete last window")
						}
						e.Nontrivial()
						e.Event("resampled %d to %d", len(it.Candles), len(want))
						rtYield()
					}
				})
			}
			e.Idle()
		}})
}

// ------------------------------------------------------------------------- C16

type PWorld struct {
	Step  int64 `json:"step"`  // milliseconds per candle
	Start int64 `json:"start"` // milliseconds after the base
	Len   int64 `json:"len"`   // milliseconds asked for
	Limit int   `json:"limit"` // candles per request, 0 = no limit
	Zero  int   `json:"zero"`  // 1: no start date 2: no end date 3: no interval
	Work  int   `json:"work"`  // fetching workers
	Fails []int `json:"fails"` // outcome of successive requests: 0 ok 1 error 2 short page 3 twice 4 worker dies after half
	Holes []int `json:"holes"` // slots the venue has nothing for
	Probe []int `json:"probe"` // instants asked about, in thousandths of the range
	Jump  int64 `json:"jump"`
	Crash int   `json:"crash"` // whole client restarts after so many requests
	Giant bool  `json:"giant,omitempty"`
	Era   int   `json:"era,omitempty"`  // which time the range lies in
	Zone  int   `json:"zone,omitempty"` // seconds east the caller shows its dates in; the end in another zone
}

// eras are times of a market's history, in seconds: today, around and before
// the epoch, long ago and far ahead.
var eras = []int64{baseUnix, -40000, -3600, -86400 * 20, -2208988800, -6_000_000_000, 7_258_118_400, 1 << 32, 1 << 31, -1 << 31}

func init() {
	register(&Prop{ID: "C16", New: func() any { return &PWorld{} },
		Tune: func(r *Rng, s *Sched) { s.MaxSteps = 1_500_000_000 },
		Gen: func(r *Rng, big bool) any {
			if r.P(0.0002) {
				// half a year and more of one-second candles: planned, not fetched
				w := &PWorld{Step: 1000, Start: int64(r.N(100000)) * 1000, Giant: true, Work: 1}
				w.Limit = r.Pick(1000, 500, 100000)
				w.Len = int64(w.Limit)*int64(16_777_216/w.Limit+r.N(3))*1000 + int64(r.Pick(0, 1, -1))*1000
				return w
			}
			if r.P(0.008) {
				// large pages, one candle either side of full
				w := &PWorld{Step: 60000, Start: int64(r.N(100000)) * 60000, Giant: true, Work: 1}
				w.Limit = r.Pick(r.In(100, 1000), r.In(1000, 5000))
				w.Len = (int64(w.Limit)*int64(r.In(1, 3)) + int64(r.Pick(0, 1, 1, 2, -1))) * w.Step
				return w
			}
			st := int64(r.Pick(1000, 15000, 60000, 300000, 3600000, 4*3600000, 86400000, 7*86400000))
			if r.P(0.12) {
				st = int64(r.Pick(1500, 2500, 1001, 90500, 7333))
			}
			max := int64(60)
			if big {
				max = 700
			}
			w := &PWorld{Step: st, Work: r.In(1, 4)}
			w.Start = int64(r.N(4000)) * st
			w.Len = (1 + int64(r.N(int(max)))) * st
			if r.P(0.4) {
				w.Start += int64(r.N(int(st)))
			}
			if r.P(0.4) {
				w.Len += int64(r.N(int(st))) - st/2
			}
			if r.P(0.25) {
				w.Era = r.N(len(eras))
				if r.P(0.5) { // across the change of era
					w.Start %= 30 * st
				}
				if w.Era == 2 && r.P(0.3) {
					w.Start = 3_600_000 - w.Len*int64(r.N(2))
				}
			}
			if r.P(0.3) {
				w.Zone = r.Pick(19800, -36000, 50400, -12600, 3600)
			}
			if r.P(0.05) {
				w.Len = -w.Len
			}
			if r.P(0.04) {
				w.Len = 0
			}
			w.Limit = r.Pick(0, 1, 2, 3, 7, 10, 50, 100, 1000)
			if r.P(0.3) {
				// a whole number of full pages, or one candle either side of it
				w.Limit = int(w.Len/st) / r.Pick(1, 2, 3)
				w.Limit += r.Pick(-1, 0, 1)
				if w.Limit < 0 {
					w.Limit = 0
				}
			}
			if r.P(0.06) {
				w.Zero = r.In(1, 3)
			}
			for i := r.N(12); i > 0; i-- {
				w.Fails = append(w.Fails, r.Pick(0, 0, 1, 2, 3, 4))
			}
			for i := r.Pick(0, 0, 1, 3); i > 0; i-- {
				w.Holes = append(w.Holes, r.N(int(max)))
			}
			for i := r.In(3, 10); i > 0; i-- {
				w.Probe = append(w.Probe, r.In(-100, 1100))
			}
			if r.P(0.3) {
				w.Jump = int64(r.N(2_000_000_000)) - 1_200_000_000
			}
			if r.P(0.3) {
				w.Crash = r.In(1, 6)
			}
			return w
		},
		Run: runBackfill})
}

func checkPlan(e *Env, h *klines.IntervalRangeHolder, start, end time.Time, iv time.Duration, limit int) int {
	s, t := start.Round(iv), end.Round(iv)
	count := int(t.Sub(s) / iv)
	desc := fmt.Sprintf("plan of [%d ms,+%d ms] by %v, %d per request", start.UnixMilli(), end.Sub(start).Milliseconds(), iv, limit)
	if !h.Start.Time.Equal(s) || h.Start.Ticks != s.Unix() {
		e.Fail("plan wrong", "%s starts at %v, want %v", desc, h.Start.Time.UTC(), s.UTC())
		return count
	}
	if !h.End.Time.Equal(t) || h.End.Ticks != t.Unix() {
		e.Fail("plan wrong", "%s ends at %v, want %v", desc, h.End.Time.UTC(), t.UTC())
		return count
	}
	at, n := s, 0
	for i, rg := range h.Ranges {
		if !rg.Start.Time.Equal(at) || rg.Start.Ticks != at.Unix() {
			e.Fail("plan wrong", "%s: request %d starts at %v, the one before ended at %v", desc, i, rg.Start.Time.UTC(), at.UTC())
			return count
		}
		if limit > 0 && len(rg.Intervals) > limit {
			e.Fail("plan wrong", "%s: request %d is for %d candles", desc, i, len(rg.Intervals))
			return count
		}
		if len(rg.Intervals) == 0 && count > 0 {
			e.Fail("plan wrong", "%s: request %d of %d is for nothing", desc, i, len(h.Ranges))
			return count
		}
		for j, x := range rg.Intervals {
			if x.HasData {
				e.Fail("plan wrong", "%s: slot %d of request %d already has data", desc, j, i)
				return count
			}
			if !x.Start.Time.Equal(at) || x.Start.Ticks != at.Unix() {
				e.Fail("plan wrong", "%s: slot %d of request %d starts at %v, want %v", desc, j, i, x.Start.Time.UTC(), at.UTC())
				return count
			}
			if !x.Start.Equal(at) || x.Start.Equal(at.Add(iv)) && iv >= time.Second {
				e.Fail("plan wrong", "%s: slot %d of request %d starts at %v, yet comparing its start with %v or %v says otherwise", desc, j, i, at.UTC(), at.UTC(), at.Add(iv).UTC())
				return count
			}
			if sec := time.Unix(at.Unix(), int64(at.Nanosecond()+617e6)%1e9); !x.Start.Equal(sec) || !x.Start.Equal(sec.In(someZone)) {
				e.Fail("plan wrong", "%s: slot %d of request %d starts at %v, which is said not to be in the second of %v", desc, j, i, at.UTC(), sec.UTC())
				return count
			}
			at = at.Add(iv)
			n++
			if !x.End.Time.Equal(at) || x.End.Ticks != at.Unix() {
				e.Fail("plan wrong", "%s: slot %d of request %d ends at %v, want %v", desc, j, i, x.End.Time.UTC(), at.UTC())
				return count
			}
		}
		if !rg.End.Time.Equal(at) || rg.End.Ticks != at.Unix() {
			e.Fail("plan wrong", "%s: request %d ends at %v, its last slot at %v", desc, i, rg.End.Time.UTC(), at.UTC())
			return count
		}
	}
	if n != count {
		e.Fail("plan wrong", "%s has %d slots, want %d", desc, n, count)
	}
	want := 1
	if limit > 0 && count > limit {
		want = (count + limit - 1) / limit
	}
	if len(h.Ranges) != want {
		e.Fail("plan wrong", "%s takes %d requests, want %d", desc, len(h.Ranges), want)
	}
	return count
}

func runBackfill(e *Env, x any) {
	w := x.(*PWorld)
	st := w.Step
	if st < 1 {
		st = 1
	}
	if st < 1000 {
		st = 1000
	}
	iv := time.Duration(st) * time.Millisecond
	lim := clampI(w.Limit, 0, 100000)
	length := w.Len
	if most := int64(1000); length > most*st {
		if w.Giant {
			most = 18_000_000
		}
		if length > most*st {
			length = most * st
		}
	}
	start := time.UnixMilli(eras[mod(w.Era, len(eras))]*1000 + w.Start)
	end := start.Add(time.Duration(length) * time.Millisecond)
	if w.Zone != 0 {
		start = start.In(time.FixedZone("caller", w.Zone))
		end = end.In(time.FixedZone("other", -w.Zone))
	}
	argS, argE, argI := start, end, klines.Interval(iv)
	bad := ""
	switch w.Zero {
	case 1:
		argS, bad = time.Time{}, "no start date"
	case 2:
		argE, bad = time.Unix(0, 0), "no end date"
	case 3:
		argI, bad = 0, "no interval"
	}
	if unset := time.Unix(0, 0); bad == "" && (start.Equal(unset) || end.Equal(unset)) {
		bad = "no date but the epoch"
	}
	if length <= 0 && bad == "" {
		bad = "an empty or reversed range"
	}
	// facts that survive a crash of the client: candles it has stored
	stored := map[int64]bool{}
	holes := map[int64]bool{}
	s0 := start.Round(iv)
	for _, h := range w.Holes {
		holes[s0.Add(time.Duration(clampI(h, 0, 100000))*iv).Unix()] = true
	}
	reqs := 0
	outcome := func() int {
		k := 0
		if reqs < len(w.Fails) {
			k = w.Fails[reqs]
		}
		reqs++
		return k
	}
	restarts := 0
	var plan func()
	finished := false
	plan = func() {
		if w.Jump != 0 {
			e.Fault("wall clock stepped")
			runtime.SimJumpWall(w.Jump * 1e9)
		}
		h, err := klines.CalculateCandleDateRanges(argS, argE, argI, uint32(lim))
		if bad != "" {
			if err == nil {
				e.Fail("accepted", "a plan was made although there is %s", bad)
			}
			e.Probe("refusal checked")
			finished = true
			return
		}
		if err != nil {
			e.Fail("refused", "planning [%v,%v] by %v: %v", start.UTC(), end.UTC(), iv, err)
			return
		}
		count := checkPlan(e, h, start, end, iv, lim)
		if e.Failed() {
			return
		}
		for _, none := range []klines.Interval{0, -argI} {
			if got := klines.TotalCandlesPerInterval(start, end, none); got != 0 {
				e.Fail("count wrong", "%d candles of %v between %v and %v", got, none, start.UTC(), end.UTC())
			}
		}
		if got := klines.TotalCandlesPerInterval(h.Start.Time, h.End.Time, argI); got != int64(count) {
			e.Fail("count wrong", "%d candle slots counted between %v and %v by %v, want %d", got, h.Start.Time.UTC(), h.End.Time.UTC(), iv, count)
			return
		}
		if got, want := klines.TotalCandlesPerInterval(start, end, argI), int64(end.Sub(start)/iv); got != want {
			e.Fail("count wrong", "%d candle slots counted between %v and %v by %v, want %d", got, start.UTC(), end.UTC(), iv, want)
			return
		}
		e.Nontrivial()
		if count > 100_000 {
			e.Probe("giant plan")
			finished = true
			return
		}
		// what was stored before the restart is marked first
		for i := range h.Ranges {
			for j := range h.Ranges[i].Intervals {
				if stored[h.Ranges[i].Intervals[j].Start.Ticks] {
					h.Ranges[i].Intervals[j].HasData = true
					e.Probe("slot known from before the restart")
				}
			}
		}
		work := clampI(w.Work, 1, 6)
		jobs := make(chan int, len(h.Ranges)+8)
		left := 0
		for i := range h.Ranges {
			jobs <- i
			left++
		}
		crashed := false
		running := work
		done := make(chan struct{}, work)
		ask := func(when string) {
			for _, p := range w.Probe {
				t := h.Start.Time.Add(time.Duration(int64(p)) * h.End.Time.Sub(h.Start.Time) / 1000)
				if st%1000 != 0 {
					// times are compared by the second: only the slots' own openings are certain
					t = h.Start.Time.Add(t.Sub(h.Start.Time) / iv * iv)
				}
				want := false
				slot := h.Start.Time.Add(t.Sub(h.Start.Time) / iv * iv)
				if tu := t.Unix(); tu >= h.Start.Ticks && tu < h.End.Ticks {
					want = stored[slot.Unix()]
				}
				got := h.HasDataAtDate(t)
				if after := t.Unix() >= h.Start.Ticks && t.Unix() < h.End.Ticks && stored[slot.Unix()]; after != want {
					continue // fetched while the question was being answered
				}
				if got != want {
					e.Fail("coverage wrong", "%s: data at %v reported %v, want %v (range %v to %v by %v)", when, t.UTC(), got, want, h.Start.Time.UTC(), h.End.Time.UTC(), iv)
					return
				}
			}
		}
		for k := 0; k < work; k++ {
			e.GoIn("fetcher", func() {
				defer func() { running--; done <- struct{}{} }()
				for left > 0 && !crashed && !e.Failed() {
					var i int
					select {
					case i = <-jobs:
					default:
						time.Sleep(5 * time.Millisecond)
						continue
					}
					rg := &h.Ranges[i]
					time.Sleep(time.Duration(1+i%5) * time.Millisecond)
					upto := len(rg.Intervals)
					kind := outcome()
					switch kind {
					case 1:
						e.Fault("request failed")
						jobs <- i
						continue
					case 2:
						e.Fault("short page")
						upto /= 2
					case 3:
						e.Fault("page delivered twice")
					case 4:
						e.Fault("fetcher died half way")
						upto /= 2
					}
					for rep := 0; rep < 1+b2i(kind == 3); rep++ {
						for j := 0; j < upto; j++ {
							x := &rg.Intervals[j]
							if !holes[x.Start.Ticks] {
								stored[x.Start.Ticks] = true
								x.HasData = true
							}
						}
						settle()
					}
					if kind == 2 || kind == 4 {
						jobs <- i
						ask("while a page is half fetched")
					} else {
						left--
					}
					if w.Crash > 0 && reqs >= w.Crash && restarts == 0 {
						crashed = true
					}
				}
			})
		}
		for k := 0; k < work; k++ {
			<-done
		}
		if e.Failed() {
			return
		}
		ask("after fetching")
		if crashed {
			e.Fault("client restarted")
			restarts++
			plan()
			return
		}
		// every slot of the range was fetched: nothing missing but the holes
		for at := h.Start.Time; at.Before(h.End.Time); at = at.Add(iv) {
			if stored[at.Unix()] == holes[at.Unix()] {
				e.Fail("backfill incomplete", "slot %v fetched: %v, the venue has it: %v", at.UTC(), stored[at.Unix()], !holes[at.Unix()])
				return
			}
		}
		for k := range stored {
			if k < h.Start.Ticks || k >= h.End.Ticks {
				e.Fail("backfill incomplete", "slot %d outside the range was fetched", k)
				return
			}
		}
		finished = true
	}
	e.Go("client", plan)
	e.Idle()
	if !finished && !e.Failed() && !e.aborted {
		e.Fail("stuck", "the backfill never finished")
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
