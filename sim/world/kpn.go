package main

// The stages form a Kahn process network with bounded buffers: whether it runs
// to completion, and how many results a paused input determines, does not
// depend on the schedule. This is that network at the level of counts, with no
// more buffering than the stages promise. It tells which joins of a fan-out
// with itself can complete at all (a join that lags behind needs as much buffer
// as it lags, by its nature) and how far a pipeline must get on a paused input.

type kproc struct {
	kind   int // 0 source 1 relay 2 shift 3 skip 4 dup 5 operate 6 sink
	in     []int
	out    []int
	n      int // source: elements; shift/skip: count; sink: stops here
	limit  int
	pc     int
	k      int
	done   bool
	closes bool
}

type kchan struct {
	cap, n int
	closed bool
	cons   int
}

const (
	kSource = iota
	kRelay
	kShift
	kSkip
	kDup
	kOperate
	kSink
)

type knet struct {
	ps []*kproc
	cs []*kchan
}

func (k *knet) ch(cap int) int {
	k.cs = append(k.cs, &kchan{cap: cap, cons: -1})
	return len(k.cs) - 1
}

func (k *knet) proc(p *kproc) {
	for _, c := range p.in {
		k.cs[c].cons = len(k.ps)
	}
	k.ps = append(k.ps, p)
}

// want: (+1, ch) wants to receive, (-1, ch) wants to send, 0 nothing.
func (p *kproc) want() (int, int) {
	if p.done {
		return 0, 0
	}
	switch p.kind {
	case kSource:
		if p.k < p.n && p.k < p.limit {
			return -1, p.out[0]
		}
		return 0, 0
	case kRelay:
		if p.pc == 0 {
			return 1, p.in[0]
		}
		return -1, p.out[0]
	case kShift:
		if p.k < p.n {
			return -1, p.out[0]
		}
		if p.pc == 0 {
			return 1, p.in[0]
		}
		return -1, p.out[0]
	case kSkip:
		if p.pc == 0 {
			return 1, p.in[0]
		}
		return -1, p.out[0]
	case kDup:
		if p.pc == 0 {
			return 1, p.in[0]
		}
		return -1, p.out[p.pc-1]
	case kOperate:
		switch p.pc {
		case 0, 4:
			return 1, p.in[0]
		case 1, 3:
			return 1, p.in[1]
		}
		return -1, p.out[0]
	case kSink:
		if p.k >= p.limit {
			return 0, 0
		}
		return 1, p.in[0]
	}
	return 0, 0
}

func (k *knet) finish(p *kproc) {
	p.done = true
	for _, c := range p.out {
		k.cs[c].closed = true
	}
}

// sent advances p past a completed send.
func (k *knet) sent(p *kproc) {
	switch p.kind {
	case kSource:
		p.k++
	case kShift:
		if p.k < p.n {
			p.k++
		} else {
			p.pc = 0
		}
	case kDup:
		p.pc++
		if p.pc > len(p.out) {
			p.pc = 0
		}
	default:
		p.pc = 0
	}
}

// got advances p past a completed receive.
func (k *knet) got(p *kproc, ok bool) {
	switch p.kind {
	case kRelay, kDup:
		if !ok {
			k.finish(p)
		} else if p.kind == kDup && len(p.out) == 0 {
			p.pc = 0
		} else {
			p.pc = 1
		}
	case kShift:
		if !ok {
			k.finish(p)
		} else {
			p.pc = 1
		}
	case kSkip:
		if p.k < p.n {
			p.k++
		} else if !ok {
			k.finish(p)
		} else {
			p.pc = 1
		}
	case kOperate:
		switch {
		case p.pc == 0 && !ok:
			p.pc = 3
		case p.pc == 0:
			p.pc = 1
		case p.pc == 1 && !ok:
			p.pc = 4
		case p.pc == 1:
			p.pc = 2
		case !ok:
			k.finish(p)
		}
	case kSink:
		if !ok {
			p.done = true
		} else {
			p.k++
		}
	}
}

func (k *knet) run() {
	for {
		moved := false
		for _, p := range k.ps {
			for {
				if p.kind == kSource && !p.done && p.k >= p.n {
					k.finish(p)
					moved = true
				}
				w, c := p.want()
				if w == 0 {
					break
				}
				ch := k.cs[c]
				if w > 0 {
					if ch.n > 0 {
						ch.n--
						k.got(p, true)
					} else if ch.closed {
						k.got(p, false)
					} else {
						break
					}
				} else {
					if ch.n < ch.cap {
						ch.n++
						k.sent(p)
					} else if ch.cap == 0 && ch.cons >= 0 {
						q := k.ps[ch.cons]
						if w2, c2 := q.want(); w2 > 0 && c2 == c {
							k.sent(p)
							k.got(q, true)
						} else {
							break
						}
					} else {
						break
					}
				}
				moved = true
			}
		}
		if !moved {
			return
		}
	}
}

// network builds the count-level network of a plan. limit pauses the sources,
// slim[i] stops sink i (negative: never).
func network(p *plan, limit int, slim []int) (k *knet, sinks []*kproc) {
	k = &knet{}
	caps := make([]int, len(p.caps))
	for i, s := range p.srcs {
		if !s.Slice {
			caps[i] = s.Cap
		}
	}
	for _, q := range p.nodes {
		for _, o := range q.out {
			switch q.op {
			case "dup":
				caps[o] = caps[q.in[0]]
			case "shift":
				caps[o] = q.a
			case "pipe":
				caps[o] = q.cap
			}
		}
	}
	for _, c := range caps {
		k.ch(c)
	}
	for i, s := range p.srcs {
		l := limit
		if s.Slice {
			l = noLimit
		}
		k.proc(&kproc{kind: kSource, out: []int{i}, n: len(s.Vals), limit: l})
	}
	for _, q := range p.nodes {
		kind := kRelay
		switch q.op {
		case "shift":
			kind = kShift
		case "skip":
			kind = kSkip
		case "dup":
			kind = kDup
		case "operate":
			kind = kOperate
		}
		k.proc(&kproc{kind: kind, in: q.in, out: q.out, n: q.a})
	}
	for i, c := range p.leaf {
		l := noLimit
		if slim != nil && slim[i] >= 0 {
			l = slim[i]
		}
		s := &kproc{kind: kSink, in: []int{c}, limit: l}
		sinks = append(sinks, s)
		k.proc(s)
	}
	return k, sinks
}

func (p *plan) completes() bool {
	k, _ := network(p, noLimit, nil)
	k.run()
	for _, q := range k.ps {
		if !q.done {
			return false
		}
	}
	return true
}
