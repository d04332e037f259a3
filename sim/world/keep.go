// A service that works for a long time: memory and goroutines stay bounded by
// what its callers still hold.
package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"syscall"
	"time"

	"github.com/idoall/stockindicator/container/bst"
	"github.com/idoall/stockindicator/container/queue"
	"github.com/idoall/stockindicator/helpertools"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/ta"
)

type LJob struct {
	Do  string `json:"do"`
	Job Job    `json:"job"`
	N   int    `json:"n"`
	P   int    `json:"p"`

	Hits []Hit `json:"hits,omitempty"` // candles of a job that are damaged
}

type LWorld struct {
	Callers [][]LJob `json:"callers"`
	Rounds  int      `json:"rounds"`         // per phase
	Wait    int      `json:"wait,omitempty"` // between rounds, in seconds
}

// standing is what one caller keeps from round to round.
type standing struct {
	q    *queue.Queue
	t    map[int]*bst.Tree
	inst map[int]any
	in   map[int]*Input
	it   map[int]*klines.Item
	at   map[int]int
	base map[int]int
}

type liveDoc struct {
	Candles []klines.Candle `json:"candles"`
	Item    *klines.Item    `json:"item"`
	Name    string          `json:"name"`
	Extra   map[string]any  `json:"extra"`
}

// work does one job of one round; nothing of it is kept but what stands.
func (st *standing) work(e *Env, k int, j *LJob, round int) {
	n := clampI(j.N, 1, 200)
	d := j.Job.D
	d.Seed = d.Seed*100_003 + int64(round)
	d.T0 += int64(round)
	switch j.Do {
	case "job":
		job := j.Job
		job.D = d
		if len(job.P) > 0 && j.P%2 == 1 {
			job.P = append([]int(nil), job.P...)
			job.P[0] += round % 7
		}
		in := d.input()
		if in.Item != nil { // new names, as in a service that many come to
			in.Item.Exchange, in.Item.Symbol, in.Item.Code = fmt.Sprint("venue", round), fmt.Sprint("pair", round), fmt.Sprint(round)
		}
		damage(e, in, j.Hits)
		doJob(job, in, false)
	case "stand": // one instance on a window that moves on
		kind, name := split(j.Job.Op)
		if kind != "ind" {
			return
		}
		in := st.in[k]
		if in == nil {
			in = j.Job.D.input()
			st.in[k] = in
		}
		x := st.inst[k]
		if x == nil {
			protect(func() { x = makeInd(name, j.Job.P, "item", in) })
			st.inst[k] = x
		}
		if x == nil {
			return
		}
		if m := len(in.Item.Candles); m > 1 {
			c := *in.Item.Candles[round%m]
			c.TimeUnix = in.Item.Candles[m-1].TimeUnix + d.step()
			copy(in.Item.Candles, in.Item.Candles[1:])
			in.Item.Candles[m-1] = &c
		}
		protect(func() { calc(x); read(x, j.Job.Acc, in) })
	case "pipe":
		vals := make([]float64, n)
		for i := range vals {
			vals[i] = float64((i*7 + round) % 101)
		}
		src := helpertools.Slice2Chan(vals)
		k := 1 + j.P%11
		switch j.P % 9 {
		case 3: // more is skipped than there is
			helpertools.Chan2Slice(helpertools.Skip(src, n/2*(1+j.P/9%4)))
		case 4: // the shorter side is first to end, or second
			a, b := src, helpertools.Slice2Chan(vals[:n/k])
			if j.P%2 == 0 {
				a, b = b, a
			}
			helpertools.Drain(helpertools.Operate(a, b, func(a, b float64) string { return fmt.Sprint(a, b) }))
		case 5:
			e.join(helpertools.Duplicate(src, k))
		case 6: // a window longer than the stream
			helpertools.Chan2Slice(ta.SmaT(n+k, src))
		case 7:
			out := make(chan float64, k)
			e.Go("pipe", func() { helpertools.Pipe(helpertools.Shift(src, k, -1), out) })
			for range out {
			}
		case 8:
			ds := helpertools.Duplicate(src, 4)
			if err := helpertools.CheckEquals(ds[0], ds[1], ds[2], ds[3]); err != nil {
				e.Fail("panic:compare", "equal streams differ: %v", err)
			}
			longer := append(append([]float64{}, vals...), 7)
			if j.P/9%2 == 0 {
				longer[n/2]++
			}
			if err := helpertools.CheckEquals(closed(vals), closed(longer)); err == nil {
				e.Fail("panic:compare", "different streams are equal")
			}
		case 0:
			helpertools.Chan2Slice(helpertools.RoundDigits(ta.SmaT(1+n%9, src), 2))
		case 1:
			out := helpertools.Duplicate(src, 2)
			sum := helpertools.Operate(out[0], helpertools.Shift(out[1], 2, 0), func(a, b float64) float64 { return a - b })
			helpertools.Chan2Slice(helpertools.Skip(sum, 1))
		case 2:
			helpertools.Drain(helpertools.Apply(src, func(x float64) float64 { return x * 2 }))
		default:
			if err := helpertools.CheckEquals(src, helpertools.Slice2Chan(vals)); err != nil {
				e.Fail("panic:compare", "equal streams differ: %v", err)
			}
		}
	case "feed":
		d.Flg |= flgDisorder
		it := d.item()
		it.Exchange, it.Symbol, it.Code = fmt.Sprint("venue", round), fmt.Sprint("pair", round), fmt.Sprint(round)
		it.SortCandlesByTimestamp(j.P%2 == 1)
		it.RemoveDuplicates()
		it.GetOHLC()
		if it.ToHeikinAshi().Candles == nil {
			it.Clear()
		}
		if m := len(it.Candles); m > 4 {
			a, b := it.Candles[1].TimeUnix, it.Candles[m-2].TimeUnix
			if a > b {
				a, b = b, a
			}
			it.RemoveOutsideRangeCopy(time.Unix(a, 0), time.Unix(b, 0))
			it.RemoveOutsideRange(time.Unix(a, 0), time.Unix(b, 0))
		}
		it.Clear()
	case "plan":
		at := time.Unix(baseUnix+int64(round)*3600, 0)
		switch j.P % 3 {
		case 1:
			at = at.In(time.FixedZone("exchange", 1800*(j.P%25-12)))
		case 2:
			at = at.UTC()
		}
		h, err := klines.CalculateCandleDateRanges(at, at.Add(time.Duration(n)*time.Hour), klines.Interval(time.Hour), uint32(1+j.P%7))
		if err == nil {
			for i := 0; i < 1+n%8; i++ {
				h.HasDataAtDate(at.Add(time.Duration(i*37) * time.Minute))
			}
			h.HasDataAtDate(at.Add(time.Duration(-1-j.P) * time.Hour))
			h.HasDataAtDate(at.Add(time.Duration(n+1+j.P%7) * time.Hour))
			h.Start.Equal(at)
		}
		commonutils.StartEndTimeCheck(at, at.Add(time.Hour))
		commonutils.StartEndTimeCheck(at, at.Add(time.Duration(j.P%3-1)*time.Hour))
		commonutils.StartEndTimeCheck(at, time.Time{})
		commonutils.StartEndTimeCheck(time.Now().Add(time.Hour), time.Now().Add(2*time.Hour))
		_ = commonutils.If(j.P%2 == 0, at, n)
	case "queue": // some always wait, if the caller is a slow one
		put := func() {
			b := make([]byte, 64)
			st.q.Enqueue(&b)
		}
		for left := j.P % 8; round == 0 && left > 0; left-- {
			put()
		}
		burst := 1 + j.P%5
		for i := 0; i < n; i += burst {
			for k := 0; k < burst; k++ {
				put()
			}
			for k := 0; k < burst; k++ {
				st.q.Dequeue()
			}
		}
	case "tree": // a window of keys that moves on
		key := func(i int) any { return float64(i*37%997) + float64(i%13)/16 }
		switch j.P % 4 {
		case 0: // the same key many times
			key = func(i int) any { return float64(i / 4 % 50) }
		case 1:
			key = func(i int) any { return int64(i * 17 % 301) }
		case 2: // keys that never come again
			base, ok := st.base[k]
			if !ok {
				base = round * 1000
				st.base[k] = base
			}
			key = func(i int) any { return float64(base + i ^ 5) }
		}
		t := st.t[k]
		if t == nil {
			t = bst.New()
			st.t[k] = t
		}
		w := 1 + j.P%20
		lo, ok := st.at[k] // round 0, 3, ...: goes on from where the window is
		if !ok {
			for i := 0; i < w; i++ {
				t.Insert(key(i))
			}
		}
		for i := lo; i < lo+n; i++ {
			t.Insert(key(i + w))
			t.Remove(key(i))
		}
		st.at[k] = lo + n
		for i := lo + n; i < lo+n+w; i++ { // and empty, but for every third round
			if round%3 != 0 {
				t.Remove(key(i))
			}
		}
		t.Remove(key(lo + n + w)) // not there
		if round%3 != 0 {
			delete(st.at, k)
			delete(st.base, k)
		}
		t.Min()
		t.Max()
	case "window": // one candle history that candles are added to and cut from
		it := st.it[k]
		if it == nil {
			it = d.item()
			it.Clear()
			st.it[k] = it
		}
		step, at := d.step(), baseUnix+int64(round)*int64(n)*d.step()
		for i, c := range d.candles() {
			if i >= n {
				break
			}
			c.TimeUnix = at + int64(i)*step
			it.Candles = append(it.Candles, c)
		}
		it.SortCandlesByTimestamp(j.P%3 == 0)
		it.RemoveDuplicates()
		from, to := time.Unix(at-int64(n)*step, 0), time.Unix(at+int64(n)*step, 0)
		if j.P%2 == 0 {
			it.RemoveOutsideRange(from, to)
		} else {
			it = it.RemoveOutsideRangeCopy(from, to)
			st.it[k] = it
		}
		if j.P%4 == 0 {
			it.Clear()
		}
	case "batch":
		in := d.input()
		var list []utils.IStrategy
		names := strategies()
		for i := 0; i < 1+n%4; i++ {
			x := makeInd(names[mod(j.P+i, len(names))], nil, "item", in)
			if s, ok := x.(utils.IStrategy); ok {
				list = append(list, s)
			}
		}
		if j.P%4 == 0 { // one that cannot be evaluated
			list = append(list, strategyFunc(func() utils.SideData { panic("no decision") }))
			e.Fault("strategy fails")
		}
		protect(func() { utils.RunStrategies(list...) })
	case "text":
		for i := 0; i < n; i++ {
			commonutils.FloatFromString(fmt.Sprintf("%d.%d", round*100+i, i))
			commonutils.FloatFromString(fmt.Sprint("no number ", round, i))
			exp := int32(-j.P % 5)
			if i%7 == 3 { // many digits, or none before the point
				exp *= int32(7 - j.P%2*13)
			}
			commonutils.FormatDecimalFloat64(float64(round)+float64(i)/7, exp)
			if i%10 == 0 {
				_ = (&klines.Candle{TimeUnix: baseUnix + int64(round*100+i), Close: float64(round)}).String()
				_ = klines.Interval(int64(round*100 + i)).String()
			}
		}
		var sides utils.Sides = []utils.Side{utils.Buy, utils.Hold, utils.Sell}
		sides.Strings()
	case "file":
		st.disk(e, d, j, round)
	case "json":
		d.Flg = 0
		it := d.item()
		it.Symbol = fmt.Sprint("pair", round)
		doc := liveDoc{Item: it, Name: fmt.Sprint("doc", round), Extra: map[string]any{fmt.Sprint("k", round): round}}
		for _, c := range d.candles() {
			doc.Candles = append(doc.Candles, *c)
		}
		b, _ := json.Marshal(doc)
		if j.P%3 == 0 {
			b = b[:len(b)*2/3] // a file that was cut short
			e.Fault("document cut short")
		}
		var to liveDoc
		commonutils.JSONDecode(b, &to)
	}
}

// closed is a stream that nobody has to be waited for on.
func closed(vals []float64) <-chan float64 {
	c := make(chan float64, len(vals))
	for _, v := range vals {
		c <- v
	}
	close(c)
	return c
}

type strategyFunc func() utils.SideData

func (f strategyFunc) AnalysisSide() utils.SideData { return f() }

// join reads several outputs at once, each to its end.
func (e *Env) join(outs []<-chan float64) {
	for _, c := range outs[1:] {
		c := c
		e.Go("reader", func() { helpertools.Drain(c) })
	}
	helpertools.Drain(outs[0])
}

// disk writes a new file, has it read and decoded, and removes it.
func (st *standing) disk(e *Env, d Data, j *LJob, round int) {
	disk, ok := syscall.SimDisk.(*simDisk)
	if !ok {
		return
	}
	d.Flg = 0
	file := &DFile{D: d}
	if j.P%11 == 4 {
		file.Raw = 3000 * (1 + j.P)
	}
	f := file.build(round)
	if j.P%7 == 3 {
		f.versions[0] = nil
	}
	for k := round; disk.files[f.name] != nil; k++ {
		// another caller is reading that one
		f.name = fmt.Sprintf("/sim/market-%d.json", k)
	}
	disk.files[f.name] = f
	l := &simLoad{e: e, count: map[string]int{}}
	switch (j.P + round) % 5 {
	case 0:
		l.faults = []DFault{{Op: "read", Kind: "EIO"}}
	case 1:
		l.faults = []DFault{{Op: "open", Kind: "EMFILE"}}
	case 2:
		l.faults = []DFault{{Op: "read", Kind: "short", N: 7}}
	}
	me := simID()
	disk.cur[me] = l
	data, err := commonutils.ReadFile(f.name)
	delete(disk.cur, me)
	delete(disk.files, f.name)
	if err == nil {
		var it klines.Item
		commonutils.JSONDecode(data, &it)
	}
}

func genLJob(r *Rng, ds []Data, budget int) LJob {
	j := LJob{Do: r.PickS("job", "job", "job", "job", "stand", "stand", "pipe", "feed", "window", "plan", "queue", "tree", "batch", "json", "pipe", "text", "file"), N: r.In(1, 60), P: r.N(60)}
	j.Job = genJob(r, ds[r.N(2)], 0.35)
	if j.Do == "stand" {
		j.Job = genJob(r, ds[r.N(2)], 0)
	}
	if j.Do == "job" && r.P(0.12) {
		j.Job = Job{D: j.Job.D, Op: "view:" + viewNames[r.N(len(viewNames))], P: []int{r.N(20)}}
	}
	if kind, name := split(j.Job.Op); kind == "ind" {
		j.Job.P = affordable(name, j.Job.P, budget)
		if name == "StochasticHeat" {
			j.Job.D.N = min(j.Job.D.N, 26)
		}
	}
	return j
}

// inUse is the memory that can still be reached, after two collections.
func inUse() int64 {
	runtime.SimPause()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	runtime.SimResume()
	return int64(m.HeapAlloc) - runtime.SimGs()
}

func init() {
	register(&Prop{ID: "C25", New: func() any { return &LWorld{} },
		Tune: func(r *Rng, s *Sched) {
			tuneConc(r, s)
			s.MaxSteps *= 10
		},
		Gen: func(r *Rng, big bool) any {
			w := &LWorld{Rounds: r.Pick(3, 4, 5)}
			if r.P(0.3) {
				w.Wait = r.Pick(1, 60, 3600, 86400)
			}
			ds := dataPool(r, 2)
			for i := range ds {
				for ds[i].N > 60 {
					ds[i].N = 60
				}
			}
			n, m := r.In(1, 2), r.In(1, 3)
			if big {
				n, m = r.In(1, 3), r.In(1, 6)
				w.Rounds = r.Pick(4, 11)
			}
			for c := 0; c < n; c++ {
				var js []LJob
				for i := 0; i < m; i++ {
					js = append(js, genLJob(r, ds, 100))
				}
				w.Callers = append(w.Callers, js)
			}
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*LWorld)
			rounds := clampI(w.Rounds, 3, 30)
			sts := make([]*standing, len(w.Callers))
			for i := range sts {
				sts[i] = newStanding()
			}
			disk := &simDisk{e: e, files: map[string]*simFile{}, fds: map[int]*simFD{}, cur: map[uint32]*simLoad{}}
			syscall.SimDisk = disk
			e.Defer(func() { syscall.SimDisk = nil })
			jobs := 0
			for _, js := range w.Callers {
				jobs += len(js)
			}
			at := 0
			phase := func(n int) {
				for c := range w.Callers {
					c := c
					e.Go(fmt.Sprintf("caller%d", c), func() {
						for r := at; r < at+n && !e.Failed(); r++ {
							if w.Wait > 0 {
								time.Sleep(time.Duration(clampI(w.Wait, 0, 90000)) * time.Second)
							}
							for k := range w.Callers[c] {
								sts[c].work(e, k, &w.Callers[c][k], r)
							}
						}
					})
				}
				e.Idle()
				at += n
				if !e.Failed() && !e.aborted {
					if own := e.Own(); own > 0 {
						e.dirty = true
						e.Fail("stuck", "%d callers never finished their rounds", own)
					} else if live := e.Live(); live > 0 {
						e.dirty = true
						e.Fail("goroutines kept", "%d goroutines are still there after %d rounds of work", live, at)
					} else if n := len(disk.fds); n > 0 {
						e.Fail("files kept", "%d files are still open after %d rounds of work", n, at)
					}
				}
			}
			phase(rounds) // first use may set things up
			last := inUse()
			grows := func(n int) bool {
				phase(n)
				if e.Failed() || e.aborted {
					return false
				}
				was := last
				last = inUse()
				return last-was > int64(64+6*n)
			}
			// Whether it grows once says little (a cache fills, a map is enlarged).
			// If it grew twice, much longer stretches decide. Every stretch is twice as
			// long as all before together: a list that doubles its room shows.
			kept := grows(2*rounds) && grows(6*rounds)
			if kept {
				e.Probe("memory grew, long run")
			}
			for kept && at < 2500 && runtime.SimStep() < 400_000_000 {
				kept = grows(2 * at)
			}
			kept = kept && at > 300
			if e.Failed() || e.aborted || jobs == 0 {
				return
			}
			e.Nontrivial()
			e.Probe("memory compared")
			if kept {
				e.dirty = true
				e.Fail("memory kept", "memory in use grows with every stretch of work, over %d rounds, though nothing of a finished round is kept", at)
			}
		}})
}
