// Workloads made of computations on shared market data.
package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
)

// accOf lists an indicator's accessors without calculating anything.
var accMemo = map[string][]string{}

func accOf(name string) []string {
	if a := accMemo[name]; a != nil {
		return a
	}
	var a []string
	if protect(func() {
		in := (Data{Seed: 1, N: 2}).input()
		a = accessors(makeInd(name, nil, "item", in))
	}) != "" || len(a) == 0 {
		a = []string{"GetData"}
	}
	accMemo[name] = a
	return a
}

// dataPool keeps the universe of data sets small, so that reference results
// can be shared between runs; sets of one size share their time stamps and,
// for the tweaked ones, everything but a single candle.
func dataPool(r *Rng, n int) []Data {
	sizes := []int{26, 60, 110, 230}
	base := Data{Seed: int64(1 + r.N(4)), N: r.Pick(26, 60, 60, 110, 230), Step: 3600}
	base.Kind = int(base.Seed) % 4
	switch {
	case r.P(0.2):
		// a service that has only just started
		sizes = []int{0, 1, 2, 3, 4, 5, 8, 13}
		base.N = sizes[r.N(len(sizes))]
	case r.P(0.02):
		sizes = []int{520, 1100}
		base.N = sizes[r.N(2)]
	}
	if r.P(0.35) {
		base.Seed = int64(5 + r.N(2))
		base.Kind = int(base.Seed) % 4
		base.Flg = 1 << r.N(11)
		if r.P(0.25) {
			base.Flg = flgNoVol | flgHuge | flgStill
		}
	}
	ds := []Data{base}
	for len(ds) < n {
		d := base
		switch r.N(4) {
		case 0, 1:
			d.Seed = 1 + (base.Seed+int64(len(ds)))%6
			d.Kind = int(d.Seed) % 4
		case 2:
			d.Twk = []int{1, d.N / 2, d.N - 1, d.N}[r.N(4)]
		default:
			d.N = sizes[r.N(len(sizes))]
		}
		ds = append(ds, d)
	}
	return ds
}

func genParams(r *Rng, name string) []int {
	d := &inds[indIdx[name]]
	if d.np == 0 || r.P(0.4) {
		return nil
	}
	p := make([]int, d.np)
	k := r.N(4)
	if r.P(0.06) {
		k = 4
	}
	for i := range p {
		switch k {
		case 0:
			p[i] = d.lo[i]
		case 4: // windows as long as the histories, or longer
			p[i] = 3 * d.hi[i]
		case 3:
			p[i] = min(d.lo[i]+1+i, d.hi[i])
		case 1:
			p[i] = d.hi[i]
		default:
			p[i] = (d.lo[i] + d.hi[i] + 1) / 2
		}
	}
	return p
}

// affordable: two of the calculations take time that grows with the square of
// the history and more; long histories go without them.
func affordable(name string, p []int, n int) []int {
	if name == "SmartMoneyConcepts" && len(p) > 3 && n > 60 {
		p = append([]int(nil), p...)
		p[3] = 0
	}
	return p
}

func genInd(r *Rng) string { return inds[r.N(len(inds))].name }

func genJob(r *Rng, d Data, fnShare float64) Job {
	if r.P(fnShare) {
		return Job{D: d, Op: "fn:" + fns[r.N(len(fns))].name, P: []int{r.Pick(1, 2, 2, 5, 5, 14, 14, 14, 60)}, Src: "ohlc"}
	}
	name := genInd(r)
	for name == "StochasticHeat" && d.N > 60 && r.P(0.9) {
		name = genInd(r) // by far the most expensive one
	}
	acc := accOf(name)
	j := Job{D: d, Op: "ind:" + name, P: affordable(name, genParams(r, name), d.N), Src: "item", Acc: acc[r.N(len(acc))]}
	if j.P != nil && inds[indIdx[name]].mko != nil && r.P(0.4) {
		j.Src = "ohlc"
	}
	return j
}

// jobsOf related jobs: the same indicator again, other parameters, other data.
func genJobs(r *Rng, ds []Data, n int, fnShare float64) []Job {
	var js []Job
	more := 0.55
	if r.P(0.2) {
		more = 0.93 // nearly all of them related: state shared between calls shows
	}
	for len(js) < n {
		j := genJob(r, ds[r.N(len(ds))], fnShare)
		if kind, _ := split(j.Op); kind == "fn" && r.P(0.1) {
			j.Src = "gaps" // a series with missing values
		}
		js = append(js, j)
		for len(js) < n && r.P(more) {
			k := j
			switch r.N(4) {
			case 0:
				k.D = ds[r.N(len(ds))]
			case 1:
				if kind, name := split(j.Op); kind == "ind" {
					k.P = genParams(r, name)
					if k.P == nil {
						k.Src = "item"
					}
				} else {
					k.P = []int{r.Pick(2, 5, 14)}
				}
			case 2:
				if kind, name := split(j.Op); kind == "ind" {
					a := accOf(name)
					k.Acc = a[r.N(len(a))]
				}
			}
			if kind, name := split(k.Op); kind == "ind" {
				k.P = affordable(name, k.P, k.D.N)
			}
			js = append(js, k)
		}
	}
	return js
}

// inputs holds one shared Input per distinct data set of a run.
type inputs map[Data]*Input

func (m inputs) get(d Data) *Input {
	if in := m[d]; in != nil {
		return in
	}
	in := d.input()
	m[d] = in
	return in
}

// against compares what a job returned with what it returns in a process of its own.
func (e *Env) against(j Job, got any, panicked string, what string) bool {
	ref := getRef(j)
	if panicked != "" || ref.Panic != "" {
		if panicked != ref.Panic {
			e.Fail(what, "%s: %s", j.short(), panicDiff(panicked, ref.Panic))
			return false
		}
		return true
	}
	b := flatten(got)
	if !bytes.Equal(b, ref.Bytes) {
		e.Fail(what, "%s differs from the same computation alone in a fresh process: %s", j.short(), diffPath(got, ref.Bytes))
		return false
	}
	return true
}

func panicDiff(got, ref string) string {
	if got == "" {
		return "returned a result where a fresh process panics: " + ref
	}
	if ref == "" {
		return "panicked (" + got + ") where a fresh process returns a result"
	}
	return "panicked with " + got + " where a fresh process panics with " + ref
}

func (j Job) short() string {
	k := j.key()
	return strings.ReplaceAll(k, "\"", "")
}

// hasClear reports whether instances have a Clear method of their own.
func clearOf(x any) (reflect.Value, bool) {
	m := reflect.ValueOf(x).MethodByName("Clear")
	return m, m.IsValid() && m.Type().NumIn() == 0
}

// sibling is the same job reading another result of the same instance, if both
// are results the instance makes anew for every caller.
func (j Job) sibling(sel string) (Job, bool) {
	kind, name := split(j.Op)
	if kind != "ind" || !madeAnew[name+"."+j.Acc] {
		return j, false
	}
	var accs []string
	for _, a := range accOf(name) {
		if madeAnew[name+"."+a] {
			accs = append(accs, a)
		}
	}
	n := 0
	fmt.Sscan(sel, &n)
	if n%2 == 1 {
		j.Acc = accs[mod(n/2, len(accs))]
	}
	return j, true
}

// become makes the input hold what d describes, in place: candles are appended
// or corrected, the shared columns follow.
func (in *Input) become(d Data) {
	to := d.input()
	for i, c := range to.Item.Candles {
		if i < len(in.Item.Candles) {
			*in.Item.Candles[i] = *c
		} else {
			in.Item.Candles = append(in.Item.Candles, c)
		}
	}
	for i, c := range to.Day.Candles {
		if i < len(in.Day.Candles) {
			*in.Day.Candles[i] = *c
		} else {
			in.Day.Candles = append(in.Day.Candles, c)
		}
	}
	*in.Ohlc = *to.Ohlc
	in.Hl2, in.Gap, in.D = to.Hl2, to.Gap, d
}
