// Simulated stream pipelines: producers, consumers, stalls and pacing around
// the real stage functions, against a sequence model of each stage.
package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/idoall/stockindicator/helpertools"
	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/ta"
)

type SSrc struct {
	Vals  []int64 `json:"vals"`
	Cap   int     `json:"cap"`   // buffer of the channel the producer feeds
	Slice bool    `json:"slice"` // produced by Slice2Chan instead of a harness producer
	Pace  []int   `json:"pace"`  // microseconds slept before each send, cycled
	At    int     `json:"at"`    // element before which the producer stalls ...
	Us    int     `json:"us"`    // ... for so long
}

type SNode struct {
	Op  string `json:"op"`
	In  []int  `json:"in"` // indices into the currently unconsumed ports
	A   int    `json:"a"`
	F   int    `json:"f"`
	Cap int    `json:"cap"`
}

type SSink struct {
	Kind string `json:"kind"` // slice, range, drain
	Pace []int  `json:"pace"`
	At   int    `json:"at"`
	Us   int    `json:"us"`
	Stop bool   `json:"stop"` // stops reading at At until released
}

type SGraph struct {
	Typ   string  `json:"typ"`
	Srcs  []SSrc  `json:"srcs"`
	Nodes []SNode `json:"nodes"`
	Sinks []SSink `json:"sinks"`
	Hold  []int   `json:"hold"`  // limits at which all producers pause, in turn
	Hold2 []int   `json:"hold2"` // same for the stopping sinks
}

type SWorld struct {
	Graphs []SGraph `json:"graphs"`
	Mode   string   `json:"mode"`
	Out    int      `json:"out"`  // pipelines given up on besides the first
	Late   bool     `json:"late"` // the healthy ones start afterwards
}

// ------------------------------------------------------------- normalised plan

// A plan resolves the free-form graph into ports, so that every workload,
// including a partly deleted one, means something.
type planNode struct {
	op   string
	in   []int
	out  []int
	a, f int
	cap  int
}

type plan struct {
	typ   string
	srcs  []SSrc
	nodes []planNode
	caps  []int // buffer of each port's channel
	leaf  []int // ports nothing consumes
	sinks []SSink
	depth int
}

func mod(a, n int) int { return ((a % n) + n) % n }

// makePlan drops joins that no schedule could complete, latest first.
func makePlan(g *SGraph) *plan {
	h := *g
	for {
		p := planOf(&h)
		if p.completes() {
			return p
		}
		for i := len(h.Nodes) - 1; ; i-- {
			if i < 0 {
				h.Nodes = nil
				break
			}
			if h.Nodes[i].Op == "operate" {
				h.Nodes = append(append([]SNode(nil), h.Nodes[:i]...), h.Nodes[i+1:]...)
				break
			}
		}
	}
}

func planOf(g *SGraph) *plan {
	p := &plan{typ: g.Typ}
	for _, s := range g.Srcs {
		if len(s.Vals) > 4000 {
			s.Vals = s.Vals[:4000]
		}
		s.Cap = clampI(s.Cap, 0, 1024)
		p.srcs = append(p.srcs, s)
	}
	if len(p.srcs) == 0 {
		p.srcs = []SSrc{{}}
	}
	type portInfo struct {
		taint bool // holds values that are not exact in floating point
	}
	var free []int
	info := []portInfo{}
	for i, s := range p.srcs {
		c := s.Cap
		if s.Slice {
			c = 0
		}
		p.caps = append(p.caps, c)
		info = append(info, portInfo{})
		free = append(free, i)
	}
	take := func(k int) int {
		j := mod(k, len(free))
		x := free[j]
		free = append(append([]int(nil), free[:j]...), free[j+1:]...)
		return x
	}
	for _, n := range g.Nodes {
		if len(p.nodes) >= 24 || len(free) == 0 {
			break
		}
		q := planNode{op: n.Op, a: n.A, f: mod(n.F, 6)}
		in0 := 0
		if len(n.In) > 0 {
			in0 = n.In[0]
		}
		newPort := func(c int, pi portInfo) int {
			p.caps = append(p.caps, c)
			info = append(info, pi)
			x := len(p.caps) - 1
			free = append(free, x)
			q.out = append(q.out, x)
			return x
		}
		cp := func(pi portInfo) portInfo { return pi }
		switch n.Op {
		case "operate":
			if len(free) < 2 {
				continue
			}
			in1 := 0
			if len(n.In) > 1 {
				in1 = n.In[1]
			}
			a := mod(in0, len(free))
			b := mod(in1, len(free)-1)
			if b >= a {
				b++
			}
			pa, pb := free[a], free[b]
			nf := free[:0:0]
			for _, x := range free {
				if x != pa && x != pb {
					nf = append(nf, x)
				}
			}
			free = nf
			q.in = []int{pa, pb}
			pi := cp(info[pa])
			pi.taint = pi.taint || info[pb].taint
			newPort(0, pi)
		case "dup":
			x := take(in0)
			q.in = []int{x}
			q.a = clampI(q.a, 0, 160)
			for i := 0; i < q.a; i++ {
				newPort(p.caps[x], cp(info[x]))
			}
		case "shift":
			x := take(in0)
			q.in = []int{x}
			q.a = clampI(q.a, 0, 2000)
			newPort(p.caps[x]+q.a, cp(info[x]))
		case "skip":
			x := take(in0)
			q.in = []int{x}
			q.a = clampI(q.a, 0, 2000)
			pi := cp(info[x])
			newPort(p.caps[x], pi)
		case "pipe":
			x := take(in0)
			q.in = []int{x}
			q.cap = clampI(n.Cap, 0, 1024)
			newPort(q.cap, cp(info[x]))
		case "round":
			x := take(in0)
			q.in = []int{x}
			q.a = clampI(q.a, 0, 6)
			pi := cp(info[x])
			pi.taint = true
			newPort(0, pi)
		case "smat":
			x := take(in0)
			q.in = []int{x}
			q.a = clampI(q.a, 1, 1000)
			if info[x].taint {
				q.op = "apply"
			}
			pi := cp(info[x])
			pi.taint = true
			newPort(0, pi)
		default:
			q.op = "apply"
			x := take(in0)
			q.in = []int{x}
			newPort(0, cp(info[x]))
		}
		p.nodes = append(p.nodes, q)
	}
	p.leaf = free
	for i := range free {
		s := SSink{Kind: "range"}
		if i < len(g.Sinks) {
			s = g.Sinks[i]
		}
		p.sinks = append(p.sinks, s)
	}
	return p
}

func clampI(x, lo, hi int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

// ------------------------------------------------------------------- functions

func val[T commonutils.Number](typ string, v int64) T {
	switch typ {
	case "float64", "float32":
		return T(float64(v) / 8)
	}
	return T(v)
}

func applyFn[T commonutils.Number](k int, st *T) func(T) T {
	switch k {
	case 0:
		return func(x T) T { return x + x }
	case 1:
		return func(x T) T { return x - 3 }
	case 2:
		return func(x T) T { return -x }
	case 3: // stateful: order and exactly-once matter
		return func(x T) T { *st = *st + x; return *st }
	case 4: // alternating sign
		n := 0
		return func(x T) T {
			n++
			if n%2 == 0 {
				return -x
			}
			return x
		}
	}
	return func(x T) T { return x }
}

func operFn[T commonutils.Number](k int, st *T) func(a, b T) T {
	switch k {
	case 0:
		return func(a, b T) T { return a + b }
	case 1:
		return func(a, b T) T { return a - b }
	case 2:
		return func(a, b T) T { return a }
	case 3:
		return func(a, b T) T { return b }
	case 4:
		return func(a, b T) T { *st = *st + a - b; return *st }
	}
	return func(a, b T) T { return a + a - b }
}

func roundModel[T commonutils.Number](x T, d int) T {
	f := 1.0
	for i := 0; i < d; i++ {
		f *= 10
	}
	v := float64(x) * f
	if math.Abs(v) >= 1<<52 { // nothing to round
		return T(v / f)
	}
	// half away from zero
	r := math.Floor(math.Abs(v) + 0.5)
	if v < 0 {
		r = -r
	}
	return T(r / f)
}

// smaModel is the windowed average the streaming one stands for: the last
// period values, the missing ones before the start counting as zero.
func smaModel[T commonutils.Number](xs []T, period int) []T {
	out := make([]T, len(xs))
	for i := range xs {
		lo := i - period + 1
		if lo < 0 {
			lo = 0
		}
		s := T(0)
		for j := lo; j <= i; j++ {
			s = s + xs[j]
		}
		out[i] = s / T(period)
	}
	return out
}

// model gives the contents of every port when the sources have delivered
// prefix[i] elements (all of them if prefix is nil).
func model[T commonutils.Number](p *plan, prefix []int) [][]T {
	ports := make([][]T, len(p.caps))
	for i, s := range p.srcs {
		n := len(s.Vals)
		if prefix != nil && prefix[i] < n && !s.Slice {
			n = prefix[i]
		}
		for _, v := range s.Vals[:n] {
			ports[i] = append(ports[i], val[T](p.typ, v))
		}
	}
	for _, q := range p.nodes {
		in := ports[q.in[0]]
		var out []T
		st := T(0)
		switch q.op {
		case "apply":
			f := applyFn(q.f, &st)
			for _, x := range in {
				out = append(out, f(x))
			}
		case "operate":
			f := operFn(q.f, &st)
			b := ports[q.in[1]]
			for i := 0; i < len(in) && i < len(b); i++ {
				out = append(out, f(in[i], b[i]))
			}
		case "shift":
			for i := 0; i < q.a; i++ {
				out = append(out, T(q.f+1))
			}
			out = append(out, in...)
		case "skip":
			if len(in) > q.a {
				out = append(out, in[q.a:]...)
			}
		case "pipe":
			out = append(out, in...)
		case "round":
			for _, x := range in {
				out = append(out, roundModel(x, q.a))
			}
		case "smat":
			out = smaModel(in, q.a)
		case "dup":
			for _, o := range q.out {
				ports[o] = in
			}
			continue
		}
		ports[q.out[0]] = out
	}
	return ports
}

// ------------------------------------------------------------------- execution

type sinkState[T commonutils.Number] struct {
	got  []T
	done bool
}

type pipeRun[T commonutils.Number] struct {
	held  []func() int // how much each stream holds
	e     *Env
	p     *plan
	name  string
	sinks []*sinkState[T]
	sent  []int
	limit int // producers pause here
	gate  chan struct{}
	slim  int // stopping sinks pause here
	sgate chan struct{}
	quit  chan struct{}
	ended []bool
	wired bool
}

const noLimit = 1 << 30

func startPipe[T commonutils.Number](e *Env, g *SGraph, name string) *pipeRun[T] {
	p := makePlan(g)
	r := &pipeRun[T]{e: e, p: p, name: name, limit: noLimit, slim: noLimit, quit: make(chan struct{}),
		gate: make(chan struct{}), sgate: make(chan struct{}), sent: make([]int, len(p.srcs)), ended: make([]bool, len(p.srcs))}
	return r
}

func pause(e *Env, pace []int, i, at, us int) {
	if len(pace) > 0 {
		switch d := pace[i%len(pace)]; {
		case d > 0:
			time.Sleep(time.Duration(d) * time.Microsecond)
		case d < 0:
			rtYield()
		}
	}
	if us > 0 && i == at {
		e.Fault("stall")
		time.Sleep(time.Duration(us) * time.Microsecond)
	}
}

// wire starts everything. It runs inside the simulation.
func (r *pipeRun[T]) wire() {
	e, p := r.e, r.p
	ports := make([]<-chan T, len(p.caps))
	var feed []func()
	for i := range p.srcs {
		i := i
		s := &p.srcs[i]
		vals := make([]T, len(s.Vals))
		for j, v := range s.Vals {
			vals[j] = val[T](p.typ, v)
		}
		if s.Slice {
			ports[i] = helpertools.Slice2Chan(vals)
			r.sent[i] = len(vals)
			r.ended[i] = true
			continue
		}
		c := make(chan T, s.Cap)
		ports[i] = c
		feed = append(feed, func() {
			e.GoIn(r.name+"/producer", func() {
				defer close(c)
				for j, v := range vals {
					for j >= r.limit {
						select {
						case <-r.gate:
						case <-r.quit:
							return
						}
					}
					pause(e, s.Pace, j, s.At, s.Us)
					select {
					case c <- v:
						r.sent[i]++
					case <-r.quit:
						return
					}
				}
				r.ended[i] = true
			})
		})
	}
	for k := range p.nodes {
		q := &p.nodes[k]
		st := new(T)
		in := ports[q.in[0]]
		switch q.op {
		case "apply":
			ports[q.out[0]] = helpertools.Apply(in, applyFn(q.f, st))
		case "operate":
			ports[q.out[0]] = helpertools.Operate(in, ports[q.in[1]], operFn(q.f, st))
		case "dup":
			o := helpertools.Duplicate(in, q.a)
			for i, x := range q.out {
				if i < len(o) {
					ports[x] = o[i]
				}
			}
			if len(o) != q.a {
				e.Fail("fanout-count", "%s: fan-out to %d returned %d streams", r.name, q.a, len(o))
				return
			}
		case "shift":
			ports[q.out[0]] = helpertools.Shift(in, q.a, T(q.f+1))
		case "skip":
			ports[q.out[0]] = helpertools.Skip(in, q.a)
		case "pipe":
			c := make(chan T, q.cap)
			ports[q.out[0]] = c
			e.GoIn(r.name+"/pipe", func() { helpertools.Pipe(in, c) })
		case "round":
			ports[q.out[0]] = helpertools.RoundDigits(in, q.a)
		case "smat":
			ports[q.out[0]] = ta.SmaT(q.a, in)
		}
	}
	for i, port := range p.leaf {
		st := &sinkState[T]{}
		r.sinks = append(r.sinks, st)
		c := ports[port]
		s := p.sinks[i]
		switch s.Kind {
		case "slice":
			e.GoIn(r.name+"/slice", func() {
				if s.Us > 0 {
					time.Sleep(time.Duration(s.Us) * time.Microsecond)
				}
				st.got = helpertools.Chan2Slice(c)
				st.done = true
			})
		case "drain":
			e.GoIn(r.name+"/drain", func() {
				if s.Us > 0 {
					time.Sleep(time.Duration(s.Us) * time.Microsecond)
				}
				helpertools.Drain(c)
				if _, ok := <-c; ok {
					e.Fail("drain-early", "%s: draining returned before the stream ended", r.name)
				}
				st.done = true
			})
		default:
			e.GoIn(r.name+"/consumer", func() {
				for j := 0; ; j++ {
					if s.Stop {
						for len(st.got) >= r.slim {
							<-r.sgate
						}
					}
					pause(e, s.Pace, j, s.At, s.Us)
					v, ok := <-c
					if !ok {
						break
					}
					st.got = append(st.got, v)
				}
				st.done = true
			})
		}
	}
	for _, c := range ports {
		r.held = append(r.held, func() int { return len(c) })
	}
	// producers last: nothing above may depend on them having started
	for _, f := range feed {
		f()
	}
	r.wired = true
}

// unbuilt reports that building the pipeline's stages did not return.
func (r *pipeRun[T]) unbuilt() bool {
	if !r.wired && !r.e.Failed() {
		r.e.Fail("not-built", "%s: building the pipeline's stages has not returned although nothing runs any more; %s", r.name, r.describe())
	}
	return !r.wired
}

func (r *pipeRun[T]) openTo(limit int) {
	r.e.Go("ctl", func() {
		r.limit = limit
		old := r.gate
		r.gate = make(chan struct{})
		close(old)
	})
}

func (r *pipeRun[T]) releaseSinks(limit int) {
	r.e.Go("ctl", func() {
		r.slim = limit
		old := r.sgate
		r.sgate = make(chan struct{})
		close(old)
	})
}

func (r *pipeRun[T]) describe() string {
	var b strings.Builder
	for i, s := range r.p.srcs {
		fmt.Fprintf(&b, "src%d(n=%d cap=%d slice=%v) ", i, len(s.Vals), s.Cap, s.Slice)
	}
	for _, q := range r.p.nodes {
		fmt.Fprintf(&b, "%s(a=%d in=%v out=%v) ", q.op, q.a, q.in, q.out)
	}
	return b.String()
}

func seqDiff[T commonutils.Number](got, want []T) string {
	n := len(got)
	if len(want) < n {
		n = len(want)
	}
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("element %d is %v, want %v (got %d elements, want %d)", i, got[i], want[i], len(got), len(want))
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("got %d elements, want %d", len(got), len(want))
	}
	return ""
}

// checkFinal verifies that every consumer saw exactly the model's sequence.
func (r *pipeRun[T]) checkFinal() {
	if r.unbuilt() {
		return
	}
	want := model[T](r.p, nil)
	for i, s := range r.sinks {
		port := r.p.leaf[i]
		if !s.done {
			r.e.Fail("incomplete", "%s: consumer %d of port %d never saw the end of its stream: %d of %d elements; %s", r.name, i, port, len(s.got), len(want[port]), r.describe())
			return
		}
		if r.p.sinks[i].Kind == "drain" {
			continue
		}
		if d := seqDiff(s.got, want[port]); d != "" {
			r.e.Fail("sequence", "%s: consumer %d: %s; %s", r.name, i, d, r.describe())
			return
		}
	}
}

func (r *pipeRun[T]) allDone() bool {
	for _, s := range r.sinks {
		if !s.done {
			return false
		}
	}
	for i := range r.ended {
		if !r.ended[i] {
			return false
		}
	}
	return true
}

// pipeline is a type-independent handle.
type pipeline interface {
	wire()
	openTo(int)
	releaseSinks(int)
	checkFinal()
	allDone() bool
	checkPrompt(limit int)
	checkBounded(stopAt int)
	checkAhead(stopAt int)
	describe() string
	setLimits(limit, slim int)
	checkOthers()
	elements() int
}

func (r *pipeRun[T]) setLimits(limit, slim int) { r.limit, r.slim = limit, slim }

func (r *pipeRun[T]) elements() int {
	n := 0
	for _, s := range r.sinks {
		n += len(s.got)
	}
	return n
}

func newPipe(e *Env, g *SGraph, name string) pipeline {
	switch g.Typ {
	case "float64":
		return startPipe[float64](e, g, name)
	case "float32":
		return startPipe[float32](e, g, name)
	case "int8":
		return startPipe[int8](e, g, name)
	case "int16":
		return startPipe[int16](e, g, name)
	case "int32":
		return startPipe[int32](e, g, name)
	case "int64":
		return startPipe[int64](e, g, name)
	}
	return startPipe[int](e, g, name)
}

// checkPrompt: with every producer paused after `limit` elements and every
// consumer hungry, everything those elements determine has been delivered.
func (r *pipeRun[T]) checkPrompt(limit int) {
	if r.unbuilt() {
		return
	}
	prefix := make([]int, len(r.p.srcs))
	for i := range prefix {
		prefix[i] = limit
	}
	k, ks := network(r.p, limit, nil)
	k.run()
	want := model[T](r.p, prefix)
	for i, s := range r.sinks {
		port := r.p.leaf[i]
		if r.p.sinks[i].Kind != "range" {
			continue
		}
		must := ks[i].k
		if len(s.got) < must {
			r.e.Fail("late", "%s: producers are paused after %d elements; consumer %d is waiting and has %d results although %d are determined and can be delivered; %s", r.name, limit, i, len(s.got), must, r.describe())
			return
		}
		if len(s.got) > len(want[port]) {
			r.e.Fail("early", "%s: producers are paused after %d elements; consumer %d has %d results although only %d are determined; %s", r.name, limit, i, len(s.got), len(want[port]), r.describe())
			return
		}
		if d := seqDiff(s.got, want[port][:len(s.got)]); d != "" {
			r.e.Fail("sequence", "%s: consumer %d after %d inputs: %s; %s", r.name, i, limit, d, r.describe())
			return
		}
	}
}

// checkBounded: with the consumers stopped, the producers cannot have run ahead
// by more than the buffering of the pipeline (with a generous allowance).
func (r *pipeRun[T]) checkBounded(stopAt int) {
	if r.unbuilt() {
		return
	}
	bound := stopAt
	sum := 16
	for _, c := range r.p.caps {
		sum += c + 2
	}
	for _, q := range r.p.nodes {
		sum += 8
		if q.op == "shift" || q.op == "skip" {
			sum += 2 * q.a
		}
		if q.op == "smat" {
			sum += 24 + 2*q.a
		}
	}
	bound += 3 * sum
	for i, f := range r.held {
		if n := f(); n > bound {
			r.e.Fail("unbounded", "%s: consumers stopped after %d elements, yet stream %d of the pipeline holds %d (allowance %d); %s", r.name, stopAt, i, n, bound, r.describe())
			return
		}
	}
	for i, n := range r.sent {
		if r.p.srcs[i].Slice {
			continue
		}
		if n > bound {
			r.e.Fail("unbounded", "%s: consumers stopped after %d elements, yet producer %d was able to push %d (allowance %d); %s", r.name, stopAt, i, n, bound, r.describe())
			return
		}
	}
}

// checkAhead: on a pure fan-out, the other consumers can be ahead of a stopped
// one by at least the input's buffer.
func (r *pipeRun[T]) checkAhead(stopAt int) {
	if r.unbuilt() {
		return
	}
	n := len(r.p.srcs[0].Vals)
	c := r.p.srcs[0].Cap
	want := stopAt + c
	if want > n {
		want = n
	}
	for i, s := range r.sinks {
		if r.p.sinks[i].Stop {
			continue
		}
		if len(s.got) < want {
			r.e.Fail("fanout-coupled", "%s: one consumer stopped after %d elements; consumer %d received only %d of the %d that the input buffer of %d lets it run ahead to", r.name, stopAt, i, len(s.got), want, c)
			return
		}
	}
}

func (r *pipeRun[T]) checkOthers() { r.checkFinal() }

// ------------------------------------------------------------------ generators

var sTyps = []string{"int", "float64", "int64", "int32", "float64", "int", "int8", "float32", "int16"}

func genVals(r *Rng, n int) []int64 {
	out := make([]int64, n)
	k := r.N(4)
	for i := range out {
		switch k {
		case 0:
			out[i] = int64(i + 1)
		case 1:
			out[i] = int64(r.In(-60, 60))
		case 2:
			out[i] = int64(r.In(-3, 3))
		default:
			out[i] = int64(r.In(1, 100))
		}
	}
	return out
}

func genHuge(r *Rng, n int) []int64 {
	out := make([]int64, n)
	for i := range out {
		out[i] = int64(r.U64()) >> uint(r.In(1, 40))
	}
	return out
}

// genUs is how long a stalled party stalls, in microseconds: up to months.
func genUs(r *Rng) int {
	if r.P(0.3) {
		return r.Pick(5_000_000, 61_000_000, 3_600_000_000, 86_400_000_000, 90*86_400_000_000)
	}
	return r.Pick(10, 1000, 100000)
}

func genPace(r *Rng) []int {
	switch r.N(5) {
	case 0, 1:
		return nil
	case 2:
		return []int{-1}
	}
	n := r.In(1, 5)
	p := make([]int, n)
	for i := range p {
		p[i] = r.Pick(-1, 0, 0, 1, 5, 50, 700)
	}
	if r.P(0.05) {
		p[r.N(n)] = r.Pick(50_000, 2_000_000, 60_000_000)
	}
	return p
}

func genLen(r *Rng, max int) int {
	if r.P(0.015) {
		if r.P(0.03) {
			return r.In(4000, 20000)
		}
		return r.Pick(r.In(100, 300), r.In(100, 300), r.In(300, 600), r.In(300, 600), r.In(600, 1300), r.In(600, 1300), r.In(1300, 4000))
	}
	switch r.N(6) {
	case 0:
		return r.In(0, 2)
	case 1, 2:
		return r.In(0, 8)
	}
	return r.In(0, max)
}

func genGraph(r *Rng, srcs, nodes, maxN int, ops []string) SGraph {
	g := SGraph{Typ: sTyps[r.N(len(sTyps))]}
	n := genLen(r, maxN)
	same := r.P(0.5)
	for i := 0; i < srcs; i++ {
		if !same {
			n = genLen(r, maxN)
		}
		s := SSrc{Vals: genVals(r, n), Slice: r.P(0.3), Pace: genPace(r)}
		if r.P(0.6) {
			s.Cap = r.Pick(1, 1, 2, 3, 5, 8)
			if r.P(0.05) {
				s.Cap = r.Pick(r.In(9, 40), r.In(40, 600))
			}
		}
		if r.P(0.25) {
			s.At, s.Us = r.N(n+1), genUs(r)
		}
		g.Srcs = append(g.Srcs, s)
	}
	for i := 0; i < nodes; i++ {
		q := SNode{Op: ops[r.N(len(ops))], In: []int{r.N(64), r.N(64)}, F: r.N(6)}
		switch q.Op {
		case "dup":
			q.A = r.In(1, 4)
			if r.P(0.05) {
				q.A = r.Pick(0, 0, r.In(5, 20))
			}
		case "shift", "skip":
			q.A = r.Pick(0, 1, 1, 2, 3, 5, 9, 20)
			if r.P(0.04) {
				q.A = r.Pick(r.In(21, 70), r.In(70, 300), r.In(300, 1100))
			}
		case "smat":
			q.A = r.Pick(1, 2, 3, 5, 8, 13, 30)
			if r.P(0.04) {
				q.A = r.Pick(r.In(31, 70), r.In(70, 400))
			}
		case "round":
			q.A = r.Pick(0, 1, 2, 3, 4, 5, 6)
		case "pipe":
			q.Cap = r.Pick(0, 0, 1, 2, 4)
			if r.P(0.04) {
				q.Cap = r.In(17, 300)
			}
		}
		g.Nodes = append(g.Nodes, q)
	}
	plain, long, smat := true, false, false
	for _, q := range g.Nodes {
		plain = plain && q.Op != "smat" && (q.Op != "round" || strings.HasPrefix(g.Typ, "float"))
		smat = smat || q.Op == "smat"
	}
	for i := range g.Srcs {
		n := len(g.Srcs[i].Vals)
		long = long || n > 70
		if plain && r.P(0.1) {
			g.Srcs[i].Vals = genHuge(r, n)
		}
	}
	if smat { // averages are compared exactly: keep every sum representable
		switch g.Typ {
		case "int8", "int16", "int32":
			g.Typ = "int"
		case "float32":
			g.Typ = "float64"
		}
		for i := range g.Nodes {
			if long && (g.Nodes[i].F == 3 || g.Nodes[i].F == 4) {
				g.Nodes[i].F = 5
			}
		}
	}
	for i := 0; i < 20; i++ {
		s := SSink{Kind: r.PickS("range", "range", "slice", "drain"), Pace: genPace(r)}
		if r.P(0.2) {
			s.At, s.Us = r.N(n+1), genUs(r)
		}
		g.Sinks = append(g.Sinks, s)
	}
	return g
}

var allOps = []string{"apply", "operate", "operate", "dup", "dup", "shift", "skip", "pipe", "round", "smat"}

func tuneStream(r *Rng, s *Sched) { s.MaxSteps = 20_000_000 }

func (g *SGraph) hungry() {
	for i := range g.Sinks {
		g.Sinks[i].Kind = "range"
		g.Sinks[i].Stop = false
	}
}

func startAll(e *Env, w *SWorld) []pipeline {
	var ps []pipeline
	for i := range w.Graphs {
		ps = append(ps, newPipe(e, &w.Graphs[i], fmt.Sprintf("pipeline%d", i)))
	}
	return ps
}

func wireAll(e *Env, ps []pipeline) {
	for _, p := range ps {
		p := p
		e.Go("builder", func() { p.wire() })
	}
}

func newSW() any { return &SWorld{} }

func sGraphs(r *Rng, n int, big bool) []SGraph {
	var gs []SGraph
	mx := 24
	if big {
		mx = 60
	}
	for i := 0; i < n; i++ {
		nn := r.In(0, 7)
		if r.P(0.35) {
			nn = 1 // a single stage under scrutiny
		}
		gs = append(gs, genGraph(r, r.In(1, 3), nn, mx, allOps))
	}
	return gs
}

// crowd is many small pipelines at once.
func crowd(r *Rng, n int) []SGraph {
	var gs []SGraph
	ops := allOps
	if r.P(0.5) {
		ops = []string{allOps[r.N(len(allOps))]}
	}
	for i := 0; i < n; i++ {
		gs = append(gs, genGraph(r, r.In(1, 2), r.In(1, 2), 10, ops))
	}
	return gs
}

func init() {
	register(&Prop{ID: "C01", New: newSW, Tune: tuneStream,
		Gen: func(r *Rng, big bool) any {
			if r.P(0.01) { // a crowd
				return &SWorld{Graphs: crowd(r, r.In(10, 60))}
			}
			return &SWorld{Graphs: sGraphs(r, r.Pick(1, 1, 1, 2, 3), big)}
		},
		Run: func(e *Env, x any) {
			ps := startAll(e, x.(*SWorld))
			wireAll(e, ps)
			e.Idle()
			for _, p := range ps {
				p.checkFinal()
				if p.elements() > 0 {
					e.Nontrivial()
				}
			}
		}})
	register(&Prop{ID: "C02", New: newSW, Tune: tuneStream,
		Gen: func(r *Rng, big bool) any {
			gs := sGraphs(r, r.Pick(1, 1, 2), big)
			if r.P(0.008) {
				gs = crowd(r, r.In(10, 40))
			}
			if r.P(0.5) { // unequal joins: the shorter side must not strand the longer
				g := genGraph(r, 2, 0, 24, allOps)
				a, b := genLen(r, 6), r.In(3, 40)
				if r.P(0.5) {
					a, b = b, a
				}
				g.Srcs[0].Vals, g.Srcs[1].Vals = genVals(r, a), genVals(r, b)
				g.Nodes = []SNode{{Op: "operate", In: []int{r.N(2), 0}, F: r.N(6)}}
				if r.P(0.5) {
					g.Nodes = append([]SNode{{Op: r.PickS("apply", "pipe", "shift", "skip", "smat"), In: []int{r.N(2)}, A: r.In(1, 6)}}, g.Nodes...)
				}
				gs = append(gs, g)
			}
			return &SWorld{Graphs: gs}
		},
		Run: func(e *Env, x any) {
			ps := startAll(e, x.(*SWorld))
			wireAll(e, ps)
			e.Idle()
			for _, p := range ps {
				if !p.allDone() {
					e.Fail("incomplete", "all consumers keep reading and all producers are finite, yet the pipeline stopped with unfinished business: %s", p.describe())
					return
				}
				if p.elements() > 0 {
					e.Nontrivial()
				}
			}
			if n := e.Live(); n != 0 {
				e.Fail("leak", "%d goroutines are left behind after every stream ended: %s", n, ps[0].describe())
			}
		}})
	register(&Prop{ID: "C03", New: newSW, Tune: tuneStream,
		Gen: func(r *Rng, big bool) any {
			k := r.In(1, 4)
			if r.P(0.04) {
				k = r.In(5, 24)
				if r.P(0.1) {
					k = r.In(25, 140)
				}
			}
			g := genGraph(r, 1, 0, 40, allOps)
			g.Srcs[0].Slice = r.P(0.1)
			if r.P(0.7) {
				g.Srcs[0].Cap = r.Pick(1, 2, 3, 4, 7, 12)
			}
			if r.P(0.5) {
				g.Srcs[0].Vals = genVals(r, r.In(10, 60))
			}
			if r.P(0.03) {
				g.Srcs[0].Cap = r.Pick(r.In(13, 64), r.In(64, 700))
				g.Srcs[0].Vals = genVals(r, g.Srcs[0].Cap+r.In(0, 100))
			}
			for len(g.Sinks) < k+4 {
				g.Sinks = append(g.Sinks, SSink{Kind: "range"})
			}
			g.Nodes = []SNode{{Op: "dup", A: k}}
			mode := r.PickS("free", "stop", "stop")
			if mode == "stop" && k > 1 {
				g.hungry()
				for i := range g.Sinks {
					g.Sinks[i].Us = 0
				}
				g.Sinks[r.N(k)].Stop = true
				g.Hold2 = []int{r.N(6)}
				if r.P(0.1) {
					g.Hold2[0] = r.N(len(g.Srcs[0].Vals) + 1)
				}
			} else {
				mode = "free"
				if r.P(0.4) { // a second level
					g.Nodes = append(g.Nodes, SNode{Op: "dup", A: r.In(2, 3), In: []int{r.N(4)}})
				}
			}
			return &SWorld{Graphs: []SGraph{g}, Mode: mode}
		},
		Run: func(e *Env, x any) {
			w := x.(*SWorld)
			if len(w.Graphs) == 0 {
				return
			}
			g := &w.Graphs[0]
			p := newPipe(e, g, "fanout")
			stop := 0
			if len(g.Hold2) > 0 {
				stop = clampI(g.Hold2[0], 0, 1000)
			}
			one := len(g.Nodes) == 1 && g.Nodes[0].Op == "dup"
			if w.Mode == "stop" && one {
				p.setLimits(noLimit, stop)
			}
			e.Go("builder", func() { p.wire() })
			e.Idle()
			if w.Mode == "stop" && one {
				e.Fault("consumer_stopped")
				if !g.Srcs[0].Slice {
					p.checkAhead(stop)
				}
				if e.Failed() {
					e.dirty = true
				}
				p.releaseSinks(noLimit)
				e.Idle()
			}
			p.checkFinal()
			if p.elements() > 0 {
				e.Nontrivial()
			}
		}})
	register(&Prop{ID: "C04", New: newSW, Tune: tuneStream,
		Gen: func(r *Rng, big bool) any {
			gs := sGraphs(r, r.Pick(1, 1, 2), big)
			for i := range gs {
				gs[i].hungry()
				h := 0
				for j := 0; j < r.In(1, 4); j++ {
					gs[i].Hold = append(gs[i].Hold, h)
					h += r.Pick(1, 1, 2, 3, 6)
					if r.P(0.05) {
						h += r.Pick(r.In(5, 40), r.In(30, 200))
					}
				}
			}
			return &SWorld{Graphs: gs}
		},
		Run: func(e *Env, x any) {
			w := x.(*SWorld)
			ps := startAll(e, w)
			for i, p := range ps {
				if len(w.Graphs[i].Hold) > 0 {
					p.setLimits(clampI(w.Graphs[i].Hold[0], 0, 1000), noLimit)
				}
			}
			wireAll(e, ps)
			for k := 0; k < 6; k++ {
				e.Idle()
				more := false
				for i, p := range ps {
					h := w.Graphs[i].Hold
					if k < len(h) && !e.Failed() {
						e.Fault("producer_paused")
						e.Nontrivial()
						p.checkPrompt(clampI(h[k], 0, 1000))
					}
					if k < len(h) {
						more = true
						l := noLimit
						if k+1 < len(h) {
							l = clampI(h[k+1], 0, 1000)
						}
						p.openTo(l)
					}
				}
				if !more {
					break
				}
			}
			e.Idle()
			for _, p := range ps {
				p.checkFinal()
			}
		}})
	register(&Prop{ID: "C05", New: newSW, Tune: tuneStream,
		Legal: func(x any) {
			// a fan-out to nobody takes everything: there is no consumer to wait for
			for _, g := range x.(*SWorld).Graphs {
				for i := range g.Nodes {
					if g.Nodes[i].Op == "dup" {
						g.Nodes[i].A = max(g.Nodes[i].A, 1)
					}
				}
			}
		},
		Gen: func(r *Rng, big bool) any {
			g := genGraph(r, r.Pick(1, 1, 2), r.In(1, 4), 8, allOps)
			n, mx := 500, 3
			if r.P(0.02) {
				n, mx = 3000, 20
			}
			for i := range g.Srcs {
				g.Srcs[i].Cap = clampI(g.Srcs[i].Cap, 0, 3*mx)
				g.Srcs[i].Slice = r.P(0.15)
				g.Srcs[i].Vals = make([]int64, n)
				for j := range g.Srcs[i].Vals {
					g.Srcs[i].Vals[j] = int64((j*7+i)%50 - 20)
				}
				g.Srcs[i].Us = 0
				g.Srcs[i].Pace = nil
			}
			for i := range g.Nodes {
				if g.Nodes[i].Op != "dup" {
					g.Nodes[i].A = clampI(g.Nodes[i].A, 0, mx)
				}
				g.Nodes[i].Cap = clampI(g.Nodes[i].Cap, 0, 2*mx)
			}
			g.hungry()
			for i := range g.Sinks {
				g.Sinks[i].Stop = true
				g.Sinks[i].Us = 0
				g.Sinks[i].Pace = nil
			}
			g.Hold2 = []int{r.N(4)}
			if r.P(0.4) {
				g.Hold2 = append(g.Hold2, g.Hold2[0]+r.In(1, 10))
			}
			return &SWorld{Graphs: []SGraph{g}}
		},
		Run: func(e *Env, x any) {
			w := x.(*SWorld)
			if len(w.Graphs) == 0 {
				return
			}
			gg := w.Graphs[0]
			g := &gg
			g.Sinks = append([]SSink(nil), g.Sinks...)
			for len(g.Sinks) < 100 { // every consumer stops, however wide a fan-out is
				g.Sinks = append(g.Sinks, SSink{})
			}
			for i := range g.Sinks {
				g.Sinks[i].Stop = true
				g.Sinks[i].Kind = "range"
			}
			p := newPipe(e, g, "pipeline")
			h := g.Hold2
			if len(h) == 0 {
				h = []int{0}
			}
			p.setLimits(noLimit, clampI(h[0], 0, 100))
			e.Go("builder", func() { p.wire() })
			for k := range h {
				e.Idle()
				e.Fault("consumers_stopped")
				e.Nontrivial()
				p.checkBounded(clampI(h[k], 0, 100))
				l := noLimit
				if k+1 < len(h) {
					l = clampI(h[k+1], 0, 100)
				}
				p.releaseSinks(l)
			}
			e.Idle()
			p.checkFinal()
		}})
	register(&Prop{ID: "C08", New: newSW, Tune: tuneStream,
		Gen: func(r *Rng, big bool) any {
			w := &SWorld{Graphs: sGraphs(r, r.In(2, 4), big), Late: r.P(0.5)}
			if r.P(0.04) { // dozens are given up on
				w.Graphs = append(crowd(r, r.In(8, 70)), w.Graphs...)
				w.Out = len(w.Graphs) - 1 - r.In(1, 3)
			} else if r.P(0.2) {
				w.Out = r.In(1, 2)
			}
			w.Mode = r.PickS("consumer", "producer", "both")
			w.Out = clampI(w.Out, 0, len(w.Graphs)-2)
			slices := w.Mode == "consumer" && r.P(0.3)
			for i := 0; i <= w.Out; i++ {
				v := &w.Graphs[i]
				v.hungry()
				for j := range v.Srcs {
					v.Srcs[j].Us = 0
				}
				if w.Mode != "consumer" {
					v.Srcs[0].Slice = false
				}
				if slices {
					for j := range v.Srcs {
						v.Srcs[j].Slice = true
					}
				}
				if len(v.Srcs[0].Vals) < 8 {
					v.Srcs[0].Vals = genVals(r, r.In(8, 30))
				}
				if w.Mode != "producer" {
					for i := range v.Sinks {
						v.Sinks[i].Stop = true
					}
					v.Hold2 = []int{r.N(4)}
				}
				if w.Mode != "consumer" {
					v.Hold = []int{r.N(4)}
				}
			}
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*SWorld)
			if len(w.Graphs) == 0 {
				return
			}
			ps := startAll(e, w)
			out := clampI(w.Out, 0, len(ps)-1) + 1
			for i := 0; i < out; i++ {
				v := &w.Graphs[i]
				l, s := noLimit, noLimit
				if len(v.Hold) > 0 {
					l = clampI(v.Hold[0], 0, 1000)
				}
				if len(v.Hold2) > 0 {
					s = clampI(v.Hold2[0], 0, 1000)
				}
				ps[i].setLimits(l, s)
			}
			if w.Late {
				wireAll(e, ps[:out])
				e.Idle()
				wireAll(e, ps[out:])
			} else {
				wireAll(e, ps)
			}
			e.Idle()
			for i := 0; i < out; i++ {
				e.Fault("pipeline_abandoned_" + w.Mode)
			}
			for _, p := range ps[out:] {
				p.checkFinal()
				if p.elements() > 0 {
					e.Nontrivial()
				}
			}
			// the stall ends: the abandoned pipelines recover too
			for _, p := range ps[:out] {
				p.openTo(noLimit)
				p.releaseSinks(noLimit)
			}
			e.Idle()
			for _, p := range ps[:out] {
				p.checkFinal()
			}
		}})
}

// ------------------------------------------------------------ C06: CheckEquals

type CEPair struct {
	A    []int64 `json:"a"`
	B    []int64 `json:"b"`
	CapA int     `json:"capa"`
	CapB int     `json:"capb"`
	PA   []int   `json:"pa"`
	PB   []int   `json:"pb"`
}

type CECall struct {
	Pairs []CEPair `json:"pairs"`
	Odd   bool     `json:"odd"`
	Typ   string   `json:"typ"`
}

// The element of a compared stream that stands for v, one to one.
type ceRec struct {
	Name string
	F    float64
	N    [2]int64
}

func ceStr(v int64) string {
	k := v >> 2
	switch v & 3 {
	case 0:
		return fmt.Sprintf("stream element number %d", k)
	case 1:
		return fmt.Sprintf("Stream element number %d", k)
	case 2:
		return fmt.Sprintf("stream element number %d ", k)
	}
	return fmt.Sprintf("stream element number %d.0", k)
}

func ceFloat(v int64) float64 {
	return math.Float64frombits(uint64(int64(math.Float64bits(101.25)) + v))
}

func ceFloat32(v int64) float32 {
	return math.Float32frombits(uint32(int64(math.Float32bits(1.1)) + v%1000000))
}

func ceRecord(v int64) ceRec {
	return ceRec{"row", ceFloat(v >> 1), [2]int64{v >> 2, v & 3}}
}

type CEWorld struct {
	Calls []CECall `json:"calls"`
}

// ceSigned has two zeros, which are equal.
func ceSigned(v int64, side int) float64 {
	if v == 0 && side == 1 {
		return math.Copysign(0, -1)
	}
	return float64(v)
}

// ceAny looks the same for different types.
func ceAny(v int64, _ int) any {
	k := v >> 3
	switch v & 7 {
	case 0:
		return int(k)
	case 1:
		return k
	case 2:
		return strconv.FormatInt(k, 10)
	case 3:
		return float64(k)
	case 4:
		return float32(k)
	case 5:
		switch k {
		case 0:
			return nil
		case 1:
			return true
		}
		return [2]any{nil, k}
	case 6:
		switch k {
		case 0:
			return "<nil>"
		case 1:
			return "true"
		}
		return fmt.Sprintf("[<nil> %d]", k)
	}
	return [1]any{k}
}

func oneSide[T any](f func(int64) T) func(int64, int) T {
	return func(v int64, _ int) T { return f(v) }
}

func ceRun[T comparable](e *Env, c *CECall, conv func(int64, int) T, quit chan struct{}, left *int) error {
	var in []<-chan T
	feed := func(vals []int64, cp int, pace []int, side int) <-chan T {
		ch := make(chan T, clampI(cp, 0, 64))
		*left++
		e.GoIn("producer", func() {
			defer close(ch)
			defer func() { *left-- }()
			for i, v := range vals {
				pause(e, pace, i, -1, 0)
				select {
				case ch <- conv(v, side):
				case <-quit:
					return
				}
			}
		})
		return ch
	}
	for _, p := range c.Pairs {
		in = append(in, feed(p.A, p.CapA, p.PA, 0), feed(p.B, p.CapB, p.PB, 1))
	}
	if c.Odd {
		in = append(in, feed([]int64{1, 2}, 0, nil, 0))
	}
	return helpertools.CheckEquals(in...)
}

func ceExpect(c *CECall) bool {
	if c.Odd {
		return false
	}
	for _, p := range c.Pairs {
		if len(p.A) != len(p.B) {
			return false
		}
		for i := range p.A {
			if p.A[i] != p.B[i] {
				return false
			}
		}
	}
	return true
}

func init() {
	register(&Prop{ID: "C06", New: func() any { return &CEWorld{} }, Tune: tuneStream,
		Gen: func(r *Rng, big bool) any {
			w := &CEWorld{}
			for k := r.Pick(1, 1, 2, 3); k > 0; k-- {
				c := CECall{Odd: r.P(0.1), Typ: r.PickS("", "", "float", "float32", "string", "struct", "huge", "signed", "any")}
				np := r.Pick(1, 1, 1, 2, 2, 3, 4)
				if r.P(0.02) {
					np = r.In(5, 24)
					if r.P(0.1) {
						np = r.In(25, 140)
					}
				}
				if r.P(0.05) {
					np = 0
				}
				for i := 0; i < np; i++ {
					n := genLen(r, 20)
					v := genVals(r, n)
					p := CEPair{A: v, B: append([]int64(nil), v...), CapA: r.Pick(0, 0, 1, 3, 40), CapB: r.Pick(0, 0, 1, 3, 40), PA: genPace(r), PB: genPace(r)}
					c.Pairs = append(c.Pairs, p)
				}
				if len(c.Pairs) > 0 && r.P(0.6) { // plant one difference
					p := &c.Pairs[r.N(len(c.Pairs))]
					switch {
					case len(p.B) > 0 && r.P(0.45):
						i := r.N(len(p.B))
						if r.P(0.2) {
							i = len(p.B) - 1
						}
						switch r.N(6) {
						case 0:
							j := r.N(len(p.B)) // the right elements, in the wrong order
							p.B[i], p.B[j] = p.B[j], p.B[i]
						case 1:
							p.B[i] = -p.B[i]
						case 2:
							p.B[i] += int64(r.Pick(-1, 2, 256, 65536, 1<<32))
						default:
							p.B[i]++
						}
					case len(p.B) > 0 && r.P(0.5):
						p.B = p.B[:len(p.B)-1-r.N(len(p.B))]
					default:
						p.B = append(p.B, 0)
					}
					if r.P(0.5) {
						p.A, p.B = p.B, p.A
					}
				}
				w.Calls = append(w.Calls, c)
			}
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*CEWorld)
			type res struct {
				done bool
				err  error
			}
			rs := make([]*res, len(w.Calls))
			quit := make(chan struct{})
			left := 0
			for k := range w.Calls {
				c := &w.Calls[k]
				r := &res{}
				rs[k] = r
				e.Go("caller", func() {
					switch c.Typ {
					case "float":
						r.err = ceRun(e, c, oneSide(ceFloat), quit, &left)
					case "float32":
						r.err = ceRun(e, c, oneSide(ceFloat32), quit, &left)
					case "string":
						r.err = ceRun(e, c, oneSide(ceStr), quit, &left)
					case "struct":
						r.err = ceRun(e, c, oneSide(ceRecord), quit, &left)
					case "signed":
						r.err = ceRun(e, c, ceSigned, quit, &left)
					case "any":
						r.err = ceRun(e, c, ceAny, quit, &left)
					case "huge":
						r.err = ceRun(e, c, func(v int64, _ int) int64 { return v + 1<<61 }, quit, &left)
					default:
						r.err = ceRun(e, c, func(v int64, _ int) int64 { return v }, quit, &left)
					}
					r.done = true
				})
			}
			e.Idle()
			allEq := true
			for k := range w.Calls {
				want := ceExpect(&w.Calls[k])
				allEq = allEq && want
				if !rs[k].done {
					e.Fail("no-verdict", "comparison %d never returned although every stream is finite", k)
					e.dirty = true
					break
				}
				if (rs[k].err == nil) != want {
					e.Fail("verdict", "comparison %d of %d pairs (odd=%v): verdict %v, expected equal=%v", k, len(w.Calls[k].Pairs), w.Calls[k].Odd, rs[k].err, want)
				}
				e.Nontrivial()
			}
			if allEq && !e.Failed() && left != 0 {
				e.Fail("unread", "declared equal with %d streams not read to their end", left)
			}
			e.Go("release", func() { close(quit) })
			e.Idle()
		}})
}

// -------------------------------------------------------- C07: streaming average

type SmaOne struct {
	Typ    string  `json:"typ"`
	Period int     `json:"period"`
	Vals   []int64 `json:"vals"`
	Real   bool    `json:"real"`           // arbitrary reals instead of eighths
	Wide   bool    `json:"wide,omitempty"` // whole numbers as large as the sum of a window allows
	Cap    int     `json:"cap"`
	Pace   []int   `json:"pace"`
	CPace  []int   `json:"cpace"`
	At     int     `json:"at"`
	Us     int     `json:"us"`
}

type SmaWorld struct {
	Ones []SmaOne `json:"ones"`
}

func runSma[T commonutils.Number](e *Env, o *SmaOne, name string) func() {
	vals := make([]T, len(o.Vals))
	mx := 1.0
	period := clampI(o.Period, 1, 3000)
	top := 0 // the window's sum stays within the element type
	switch o.Typ {
	case "int8":
		period = clampI(period, 1, 120)
		top = 127 / (period + 1)
	case "int16":
		top = 32767 / (period + 1)
	}
	wide := int64(0)
	switch o.Typ {
	case "int32":
		wide = math.MaxInt32 / int64(period+1)
	case "int64", "int":
		wide = math.MaxInt64 / int64(period+1)
	}
	for i, v := range o.Vals {
		if top > 0 || o.Typ == "int8" {
			v = int64(clampI(int(v), -top, top))
		}
		switch {
		case o.Typ == "float64" && o.Real:
			f := float64(v)*1.0007317 + 1/float64(v*v+3)
			vals[i] = T(f)
		case o.Typ == "float64" || o.Typ == "float32":
			vals[i] = T(float64(v) / 8)
		case o.Wide && wide > 100000:
			vals[i] = T(v%101*(wide/101) + v%7)
		default:
			vals[i] = T(v)
		}
		if a := math.Abs(float64(vals[i])); a > mx {
			mx = a
		}
	}
	var got []T
	done := false
	e.Go(name, func() {
		c := make(chan T, clampI(o.Cap, 0, 16))
		out := ta.SmaT(period, c)
		e.GoIn(name+"/producer", func() {
			defer close(c)
			for i, v := range vals {
				pause(e, o.Pace, i, o.At, o.Us)
				c <- v
			}
		})
		for j := 0; ; j++ {
			pause(e, o.CPace, j, -1, 0)
			v, ok := <-out
			if !ok {
				break
			}
			got = append(got, v)
		}
		done = true
	})
	return func() {
		if !done {
			e.Fail("incomplete", "%s: streaming average (period %d) delivered %d of %d results and never ended", name, period, len(got), len(vals))
			e.dirty = true
			return
		}
		want := smaModel(vals, period)
		if o.Typ == "float64" && o.Real {
			if len(got) != len(want) {
				e.Fail("length", "%s: %d results for %d values", name, len(got), len(vals))
				return
			}
			for i := range got {
				if math.Abs(float64(got[i])-float64(want[i])) > 1e-9*mx*float64(len(vals)+1) {
					e.Fail("value", "%s: period %d, result %d is %v, want %v", name, period, i, got[i], want[i])
					return
				}
			}
		} else if d := seqDiff(got, want); d != "" {
			e.Fail("value", "%s: type %s period %d: %s", name, o.Typ, period, d)
		}
		if len(got) > period {
			e.Nontrivial()
		}
	}
}

func init() {
	register(&Prop{ID: "C07", New: func() any { return &SmaWorld{} }, Tune: tuneStream,
		Gen: func(r *Rng, big bool) any {
			w := &SmaWorld{}
			for k := r.Pick(1, 1, 2, 3); k > 0; k-- {
				n := genLen(r, 70)
				if r.P(0.04) {
					n = r.Pick(r.In(100, 300), r.In(300, 1100), r.In(1100, 3000))
				}
				o := SmaOne{Typ: sTyps[r.N(len(sTyps))], Period: r.Pick(1, 2, 2, 3, 4, 5, 7, 14, 30, 60), Vals: genVals(r, n),
					Real: r.P(0.4), Cap: r.Pick(0, 0, 0, 1, 2, 5), Pace: genPace(r), CPace: genPace(r)}
				if r.P(0.05) {
					o.Period = r.Pick(r.In(60, 130), r.In(130, 500))
					if r.P(0.06) {
						o.Period = r.In(500, 2500)
					}
				}
				if r.P(0.3) {
					o.At, o.Us = r.N(n+1), genUs(r)
				}
				o.Wide = r.P(0.3)
				w.Ones = append(w.Ones, o)
			}
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*SmaWorld)
			var chk []func()
			for k := range w.Ones {
				o := &w.Ones[k]
				name := fmt.Sprintf("average%d", k)
				switch o.Typ {
				case "float64":
					chk = append(chk, runSma[float64](e, o, name))
				case "float32":
					chk = append(chk, runSma[float32](e, o, name))
				case "int8":
					chk = append(chk, runSma[int8](e, o, name))
				case "int16":
					chk = append(chk, runSma[int16](e, o, name))
				case "int32":
					chk = append(chk, runSma[int32](e, o, name))
				case "int64":
					chk = append(chk, runSma[int64](e, o, name))
				default:
					chk = append(chk, runSma[int](e, o, name))
				}
			}
			e.Idle()
			for _, f := range chk {
				f()
			}
		}})
}
