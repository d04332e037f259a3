// The whole system: services that collect a history through a faulty network,
// lose their memory and restore what they saved, clean up, resample, compute
// and decide. Each must decide as one that had the history from the start.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"syscall"
	"time"

	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
)

type WStep struct {
	N     int      `json:"n"`     // candles closed by then
	Crash int      `json:"crash"` // the service restarts before: 1 with its snapshot, 2 with one that is torn, 3 with none
	Clean int      `json:"clean"` // in which order and way it cleans up
	Jobs  []Job    `json:"jobs"`
	Batch []string `json:"batch,omitempty"`
	Scale int      `json:"scale,omitempty"`
}

type WSvc struct {
	Limit int     `json:"limit"`
	Net   []int   `json:"net"` // what happens to its requests, one after the other
	Disk  []int   `json:"disk,omitempty"`
	Steps []WStep `json:"steps"`
}

type WWorld struct {
	D Data   `json:"d"`
	S []WSvc `json:"s"`
}

type wDone struct {
	j    Job
	out  []any
	p    string
	what string
}

func (w *WWorld) service(e *Env, disk *simDisk, all []*klines.Candle, id int) (done []wDone) {
	sv := &w.S[id]
	iv := time.Duration(w.D.step()) * time.Second
	empty := func() *klines.Item {
		it := w.D.item()
		it.Candles = nil
		return it
	}
	it := empty()
	file := &simFile{name: fmt.Sprintf("/sim/service-%d.json", id)}
	disk.files[file.name] = file
	asked, loaded := 0, 0
	for si := range sv.Steps {
		st := &sv.Steps[si]
		n := clampI(st.N, 1, len(all))
		if st.Crash > 0 {
			e.Fault("service restarted")
			it = empty()
			if len(file.versions) > 0 && st.Crash < 3 {
				whole := file.versions[0]
				if st.Crash == 2 {
					e.Fault("snapshot torn")
					file.versions[0] = whole[:len(whole)/2]
				}
				l := &simLoad{e: e, count: map[string]int{}}
				if loaded < len(sv.Disk) {
					l.faults = [][]DFault{nil, {{Op: "read", Kind: "short", N: 100}}, {{Op: "read", Kind: "EINTR"}}, {{Op: "read", Kind: "EIO"}}}[mod(sv.Disk[loaded], 4)]
				}
				loaded++
				me := simID()
				disk.cur[me] = l
				data, err := commonutils.ReadFile(file.name)
				delete(disk.cur, me)
				file.versions[0] = whole
				if err == nil {
					back := empty()
					if err = commonutils.JSONDecode(data, back); err == nil {
						it = back
						e.Probe("snapshot restored")
					}
				}
			}
		}
		start, end := time.Unix(all[0].TimeUnix, 0), time.Unix(all[n-1].TimeUnix, 0).Add(iv)
		covered := false
		for try := 0; try < 60 && !covered; try++ {
			h, err := klines.CalculateCandleDateRanges(start, end, klines.Interval(iv), uint32(clampI(sv.Limit, 0, 5000)))
			if err != nil {
				e.Fail("history wrong", "no plan for %d candles from %v: %v", n, start.UTC(), err)
				return
			}
			have := map[int64]bool{}
			for _, c := range it.Candles {
				have[c.TimeUnix] = true
			}
			for i := range h.Ranges {
				for k := range h.Ranges[i].Intervals {
					x := &h.Ranges[i].Intervals[k]
					x.HasData = have[x.Start.Ticks]
				}
			}
			covered = true
			for _, rg := range h.Ranges {
				missing := false
				for _, x := range rg.Intervals {
					missing = missing || !h.HasDataAtDate(x.Start.Time)
				}
				if !missing {
					continue
				}
				covered = false
				what := 0
				if asked < len(sv.Net) {
					what = sv.Net[asked]
				}
				asked++
				w.request(e, it, all[:n], rg.Start.Ticks, rg.End.Ticks, what)
			}
		}
		if !covered {
			e.Fail("history wrong", "after 60 rounds of requests there are still slots of %d without data", n)
			return
		}
		sorted := func() { it.SortCandlesByTimestamp(false) }
		cut := func() {
			if st.Clean%2 == 0 {
				it.RemoveOutsideRange(start, end)
				return
			}
			c := it.RemoveOutsideRangeCopy(start, end)
			c.Symbol, c.Code = it.Symbol, it.Code
			it = c
		}
		switch st.Clean / 2 % 3 {
		case 0:
			sorted()
			it.RemoveDuplicates()
			cut()
		case 1:
			it.RemoveDuplicates()
			cut()
			sorted()
		default:
			cut()
			sorted()
			it.RemoveDuplicates()
		}
		ok := len(it.Candles) == n
		for i := 0; ok && i < n; i++ {
			ok = *it.Candles[i] == *all[i]
		}
		if !ok {
			e.Fail("history wrong", "the collected, restored and cleaned up history (%d candles) is not that of the venue (%d)", len(it.Candles), n)
			return
		}
		d := w.D
		d.N = n
		in := d.input() // (the daily history comes from elsewhere)
		in.Item, in.Ohlc, in.Hl2 = it, it.GetOHLC(), it.HL2()
		for _, j := range st.Jobs {
			j.D = d
			out, p := doJob(j, in, false)
			done = append(done, wDone{j, out, p, "decided differently"})
		}
		if len(st.Batch) > 0 {
			var list []utils.IStrategy
			var js []Job
			for _, name := range st.Batch {
				if s, ok := makeInd(name, nil, "item", in).(utils.IStrategy); ok {
					list = append(list, s)
					js = append(js, Job{D: d, Op: "ind:" + name, Src: "item", Acc: "AnalysisSide"})
				}
			}
			var sides []utils.SideData
			p := protect(func() { sides = utils.RunStrategies(list...) })
			for i, j := range js {
				if p != "" || i >= len(sides) {
					done = append(done, wDone{j, nil, p, "batch decided differently"})
					break
				}
				done = append(done, wDone{j, []any{sides[i]}, "", "batch decided differently"})
			}
		}
		if st.Scale > 1 && len(st.Jobs) > 0 {
			w.resampled(e, it, d, st)
			if e.Failed() {
				return
			}
		}
		e.Event("service %d step %d n=%d asked=%d", id, si, n, asked)
		b, err := json.Marshal(it)
		if err != nil {
			e.Fail("history wrong", "the history cannot be saved: %v", err)
			return
		}
		file.versions = [][]byte{b}
		rtYield()
	}
	return
}

// request is one request to the venue for the candles of [from, to).
func (w *WWorld) request(e *Env, it *klines.Item, all []*klines.Candle, from, to int64, what int) {
	var page []klines.Candle
	for _, c := range all {
		if c.TimeUnix >= from && c.TimeUnix < to {
			page = append(page, *c)
		}
	}
	n := len(page)
	switch what {
	case 1:
		e.Fault("request failed")
		return
	case 2:
		e.Fault("short page")
		page = page[:n/2]
	case 3:
		e.Fault("page delivered twice")
		page = append(page, page...)
	case 4:
		e.Fault("page out of order")
		for i := 0; i < n/2; i++ {
			page[i], page[n-1-i] = page[n-1-i], page[i]
		}
	case 5:
		e.Fault("slow answer")
		time.Sleep(3 * time.Second)
	case 6:
		e.Fault("candles that were not asked for")
		for k := int64(1); k < 4; k++ {
			page = append(page, klines.Candle{TimeUnix: all[0].TimeUnix - k*w.D.step(), Open: 7, High: 7, Low: 7, Close: 7, Volume: 7},
				klines.Candle{TimeUnix: all[len(all)-1].TimeUnix + k*w.D.step(), Open: 9, High: 9, Low: 9, Close: 9, Volume: 9})
		}
	case 7:
		e.Fault("candle missing in a page")
		if n > 1 {
			page = append(page[:n/3], page[n/3+1:]...)
		}
	}
	for i := range page {
		c := page[i]
		it.Candles = append(it.Candles, &c)
	}
}

// resampled compares what is computed on the resampled history with the same
// on a history that was never collected, cleaned up or used.
func (w *WWorld) resampled(e *Env, it *klines.Item, d Data, st *WStep) {
	on := func(x *klines.Item) (out []any, failed string, p string) {
		p = protect(func() {
			y, err := x.ConvertToNewInterval(klines.Interval(time.Duration(st.Scale) * time.Duration(x.Interval)))
			if err != nil {
				failed = err.Error()
				return
			}
			in := d.input()
			in.Item, in.Ohlc, in.Hl2 = y, y.GetOHLC(), y.HL2()
			in.Gap = in.Gap[:0]
			j := st.Jobs[0]
			j.D = d
			out = []any{y.Candles, runJob(j, in)}
		})
		return
	}
	a, fa, pa := on(it)
	b, fb, pb := on(d.item())
	if pa != pb || fa != fb || !bytes.Equal(flatten(a), flatten(b)) {
		e.Fail("resampled differently", "%s on %d candles resampled by %d: on a collected history it gives another result than on the original (errors %q, %q, panics %q, %q)", st.Jobs[0].short(), d.N, st.Scale, fa, fb, pa, pb)
	}
	if fa == "" {
		e.Probe("resampled and computed")
	}
}

func init() {
	register(&Prop{ID: "C27", New: func() any { return &WWorld{} }, Tune: tuneConc,
		Legal: func(x any) {
			w := x.(*WWorld)
			w.D.N = clampI(w.D.N, 1, 1200)
			w.D.Flg &= flgNoVol | flgHugeVol | flgHuge | flgStill | flgTiny | flgBare
		},
		Gen: func(r *Rng, big bool) any {
			w := &WWorld{D: Data{Seed: int64(1 + r.N(6)), N: r.Pick(30, 60, 120), Step: int64(r.Pick(60, 3600, 3600, 86400))}}
			w.D.Kind = int(w.D.Seed) % 4
			if big {
				w.D.N = r.Pick(60, 120, 260)
			}
			if r.P(0.3) {
				w.D.Flg = r.Pick(flgNoVol, flgHugeVol, flgHuge, flgStill, flgTiny, flgBare)
			}
			for k := r.Pick(1, 2, 2, 3); k > 0; k-- {
				sv := WSvc{Limit: r.Pick(0, 1, 7, 10, 24, 100, 1000)}
				for i := r.N(8); i > 0; i-- {
					sv.Net = append(sv.Net, r.N(8))
				}
				for i := r.N(4); i > 0; i-- {
					sv.Disk = append(sv.Disk, r.N(4))
				}
				n := r.Pick(1, 2, 10, 14, 26, w.D.N/2, w.D.N/2)
				for i := r.In(1, 4); i > 0 && n <= w.D.N; i-- {
					st := WStep{N: n, Clean: r.N(6), Crash: r.Pick(0, 0, 1, 1, 2, 3)}
					d := w.D
					d.N = n
					for q := r.In(1, 2); q > 0; q-- {
						j := genJob(r, d, 0.2)
						if kind, name := split(j.Op); kind == "fn" && name == "Nzs" {
							continue
						}
						if r.P(0.1) {
							j = Job{D: d, Op: "view:" + viewNames[mod(r.N(9), 4)], P: []int{2}}
						}
						st.Jobs = append(st.Jobs, j)
					}
					if r.P(0.5) {
						names := strategies()
						for q := r.In(1, 4); q > 0; q-- {
							if s := names[r.N(len(names))]; s != "StochasticHeat" && s != "SmartMoneyConcepts" {
								st.Batch = append(st.Batch, s)
							}
						}
					}
					if r.P(0.3) {
						st.Scale = r.Pick(2, 3, 4, 6, 12, 24)
					}
					sv.Steps = append(sv.Steps, st)
					n += r.Pick(1, 1, 3, w.D.N/4, w.D.N/2)
				}
				w.S = append(w.S, sv)
			}
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*WWorld)
			all := w.D.candles()
			if len(all) == 0 {
				return
			}
			disk := &simDisk{e: e, files: map[string]*simFile{}, fds: map[int]*simFD{}, cur: map[uint32]*simLoad{}}
			syscall.SimDisk = disk
			e.Defer(func() { syscall.SimDisk = nil })
			done := make([][]wDone, len(w.S))
			finished := 0
			for s := range w.S {
				s := s
				e.Go(fmt.Sprintf("service%d", s), func() {
					done[s] = w.service(e, disk, all, s)
					finished++
				})
			}
			e.Idle()
			if !e.Failed() && !e.aborted && finished != len(w.S) {
				e.Fail("stuck", "%d services never got through", len(w.S)-finished)
			}
			for _, ds := range done {
				for _, x := range ds {
					if !e.Failed() && !e.aborted {
						e.Nontrivial()
						e.against(x.j, x.out, x.p, x.what)
					}
				}
			}
		}})
}
