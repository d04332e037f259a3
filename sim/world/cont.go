// The containers under simulated owners, workers and misbehaving comparators.
package main

import (
	"fmt"
	"math"
	"sort"
	"sync"
	"time"

	"github.com/idoall/stockindicator/container"
	"github.com/idoall/stockindicator/container/bst"
	"github.com/idoall/stockindicator/container/queue"
)

// ------------------------------------------------------------------------- C21

type QStep struct {
	Op string `json:"op"` // put, get, empty, take (get although it may be empty), crash
	Q  int    `json:"q"`
	V  int    `json:"v"`
	Us int    `json:"us"`
	N  int    `json:"n,omitempty"` // so many more times
}

type QWorld struct {
	Queues  int       `json:"queues"`
	Callers [][]QStep `json:"callers"`
}

type simQueue struct {
	mu    sync.Mutex
	q     *queue.Queue
	model []any
}

type qbox struct{ v int }

func (b *qbox) String() string {
	if b == nil {
		return "no box"
	}
	return fmt.Sprint("box ", b.v)
}

type qlist []int

// same tells whether a value taken out is the very one put in.
func same(a, b any) bool {
	x, ok1 := a.(qlist)
	y, ok2 := b.(qlist)
	if ok1 || ok2 {
		return ok1 && ok2 && len(x) == 1 && len(y) == 1 && &x[0] == &y[0]
	}
	return a == b
}

func qval(v int) any {
	switch mod(v, 11) {
	case 7:
		return &qbox{v}
	case 8:
		return qlist{v} // cannot be compared
	case 9:
		return (*qbox)(nil) // not the same as nil
	case 10:
		return false
	case 0:
		return nil
	case 1:
		return float64(v)
	case 2:
		return fmt.Sprint("v", v)
	case 3:
		return int64(v)
	default:
		return v
	}
}

func init() {
	register(&Prop{ID: "C21", New: func() any { return &QWorld{} },
		Gen: func(r *Rng, big bool) any {
			w := &QWorld{Queues: r.In(1, 3)}
			n, m := r.In(1, 4), r.In(2, 20)
			if big {
				n, m = r.In(1, 8), r.In(10, 80)
			}
			puts := 0.3 + 0.4*r.F()
			burst := 0.0
			if r.P(0.12) {
				burst = 0.15
			}
			most := r.Pick(40, 150, 150, 1100, 2500)
			if r.P(0.04) {
				most = r.Pick(10000, 20000, 70000)
			}
			for c := 0; c < n; c++ {
				var st []QStep
				for i := 0; i < m; i++ {
					s := QStep{Q: r.N(w.Queues), V: r.N(1000), Us: r.Pick(0, 0, 0, 0, 1, 20)}
					switch {
					case r.P(puts):
						s.Op = "put"
					case r.P(0.12):
						s.Op = "empty"
					case r.P(0.12):
						s.Op = "crash"
					default:
						s.Op = "get"
					}
					if (s.Op == "put" || s.Op == "get") && r.P(burst) {
						s.N = r.In(1, most)
					}
					st = append(st, s)
				}
				w.Callers = append(w.Callers, st)
			}
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*QWorld)
			nq := clampI(w.Queues, 1, 8)
			qs := make([]*simQueue, nq)
			for i := range qs {
				qs[i] = &simQueue{q: queue.New()}
			}
			done := 0
			for c := range w.Callers {
				steps := w.Callers[c]
				e.Go(fmt.Sprintf("worker%d", c), func() {
					for _, s := range steps {
						if e.Failed() {
							break
						}
						if s.Us > 0 {
							time.Sleep(time.Duration(clampI(s.Us, 0, 1e6)) * time.Microsecond)
						}
						q := qs[mod(s.Q, nq)]
						q.mu.Lock()
						q.step(e, s)
						if s.N > 0 {
							e.Probe("burst")
						}
						for k := 0; k < clampI(s.N, 0, 70000) && !e.Failed() && (s.Op == "put" || len(q.model) > 0); k++ {
							s.V++
							q.step(e, s)
						}
						q.mu.Unlock()
					}
					done++
				})
			}
			e.Idle()
			if e.Failed() || e.aborted {
				return
			}
			if done != len(w.Callers) {
				e.Fail("stuck", "%d of %d workers never finished", len(w.Callers)-done, len(w.Callers))
				return
			}
			e.Go("drain", func() {
				for i, q := range qs {
					for len(q.model) > 0 && !e.Failed() {
						q.step(e, QStep{Op: "get"})
					}
					q.step(e, QStep{Op: "empty"})
					q.step(e, QStep{Op: "get"})
					q.step(e, QStep{Op: "put", V: i})
					q.step(e, QStep{Op: "get"})
				}
			})
			e.Idle()
			if len(w.Callers) > 1 {
				e.Nontrivial()
			}
		}})
}

func (q *simQueue) step(e *Env, s QStep) {
	switch s.Op {
	case "put":
		v := qval(s.V)
		if p := protect(func() { q.q.Enqueue(v) }); p != "" {
			e.Fail("panic:enqueue", "%s", p)
			return
		}
		q.model = append(q.model, v)
		e.Event("put %v", v)
	case "empty":
		var got bool
		if p := protect(func() { got = q.q.Empty() }); p != "" {
			e.Fail("panic:empty", "%s", p)
			return
		}
		if got != (len(q.model) == 0) {
			e.Fail("queue wrong", "Empty is %v with %d values in the queue", got, len(q.model))
		}
	default:
		var got any
		p := protect(func() { got = q.q.Dequeue() })
		if len(q.model) == 0 {
			e.Fault("taken from an empty queue")
			if p == "" {
				e.Fail("queue wrong", "an empty queue gave out %v", got)
			}
			return
		}
		if p != "" {
			e.Fail("queue wrong", "taking from a queue of %d panicked: %s", len(q.model), p)
			return
		}
		if !same(got, q.model[0]) {
			e.Fail("queue wrong", "took %v, the oldest value is %v (%d in the queue)", got, q.model[0], len(q.model))
			return
		}
		q.model = q.model[1:]
		e.Event("got %v", got)
		if s.Op == "crash" {
			// the worker dies with the value in hand; it is put in again
			e.Fault("worker died, value put back")
			q.q.Enqueue(got)
			q.model = append(q.model, got)
		}
	}
}

// ------------------------------------------------------------------------- C22

type TStep struct {
	Op   string `json:"op"` // put, puts, del, min, max, drain; run, fall: N values in rising or falling order; same: N equal ones
	V    int    `json:"v"`
	N    int    `json:"n"`
	Trip int    `json:"trip"` // >0: the comparator fails at its Trip-th comparison; the value is of another kind for plain numbers
}

type TreeWorld struct {
	Trees [][]TStep `json:"trees"`
	Kinds []string  `json:"kinds"` // float, near, fends, int, big, iends, key
}

// tkey is a caller's own key type; payloads tell equal keys apart.
type tkey struct {
	k, id int
	trip  *int
}

func (a *tkey) String() string { return fmt.Sprintf("key %d (no. %d)", a.k, a.id) }

func (a *tkey) Compare(o container.Comparable) int {
	b := o.(*tkey)
	if *a.trip > 0 {
		*a.trip--
		if *a.trip == 0 {
			panic("comparator failed")
		}
	}
	switch {
	case a.k < b.k:
		return -1
	case a.k > b.k:
		return 1
	}
	return 0
}

func init() {
	register(&Prop{ID: "C22", New: func() any { return &TreeWorld{} },
		Tune: func(r *Rng, s *Sched) { s.MaxSteps = 1_500_000_000 },
		Gen: func(r *Rng, big bool) any {
			w := &TreeWorld{}
			n, m := r.In(1, 3), r.In(3, 40)
			if big {
				n, m = r.In(1, 5), r.In(20, 200)
			}
			for t := 0; t < n; t++ {
				w.Kinds = append(w.Kinds, r.PickS("float", "float", "near", "fends", "int", "big", "iends", "key", "key", "key"))
				var st []TStep
				dom := r.Pick(3, 8, 30, 1000)
				runs, long := r.P(0.06), 0
				del := 0.2 + 0.4*r.F()
				for i := 0; i < m; i++ {
					s := TStep{V: r.N(dom)}
					switch {
					case r.P(0.04):
						s.Op = "drain"
					case r.P(0.12):
						s.Op = r.PickS("min", "max")
					case r.P(0.08):
						s.Op, s.N = "puts", r.N(9)
						if r.P(0.1) {
							s.N = r.In(20, 120)
							if r.P(0.05) {
								s.N = r.In(120, 2500)
							}
						}
					case runs && long < 2 && r.P(0.15):
						long++
						// already sorted, as market data are
						s.Op, s.N = r.PickS("run", "run", "fall", "same"), r.Pick(10, 40, 120, 260)
						if r.P(0.02) {
							s.N = r.In(260, 1200)
						}
					case r.P(del):
						s.Op = "del"
					default:
						s.Op = "put"
					}
					if r.P(0.07) {
						s.Trip = r.In(1, 6)
						if runs {
							s.Trip = r.In(1, 200)
						}
					}
					st = append(st, s)
				}
				w.Trees = append(w.Trees, st)
			}
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*TreeWorld)
			done := 0
			for t := range w.Trees {
				steps, kind := w.Trees[t], "float"
				if t < len(w.Kinds) {
					kind = w.Kinds[t]
				}
				e.Go(fmt.Sprintf("owner%d", t), func() {
					runTree(e, kind, steps)
					done++
				})
			}
			e.Idle()
			if done != len(w.Trees) && !e.Failed() && !e.aborted {
				e.Fail("stuck", "%d of %d owners never finished", len(w.Trees)-done, len(w.Trees))
			}
		}})
}

// numbers that differ by as little, or as much, as numbers can
var floatEnds = []float64{math.Inf(-1), -math.MaxFloat64, -5e-324, 0, 5e-324, 1e-300, 1, math.Nextafter(1, 2), math.MaxFloat64, math.Inf(1)}
var intEnds = []int64{math.MinInt64, math.MinInt64 + 1, -1, 0, 1, 1 << 53, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64}

// runTree drives one tree. Keys are small integers v; the tree holds the
// values number(v) of the wanted kind, in the same order.
func runTree(e *Env, kind string, steps []TStep) {
	tree := bst.New()
	var keys []int       // model: sorted multiset of keys
	ids := map[int]int{} // model for own keys: payload -> key
	trip, next := 0, 0
	dom := 1 << 30
	switch kind {
	case "fends":
		dom = len(floatEnds)
	case "iends":
		dom = len(intEnds)
	}
	isFloat := kind != "int" && kind != "big" && kind != "iends" && kind != "key"
	number := func(v int) float64 {
		switch kind {
		case "near":
			return math.Float64frombits(math.Float64bits(100) + uint64(v))
		case "fends":
			if v == 3 && next%2 == 1 {
				return math.Copysign(0, -1)
			}
			return floatEnds[mod(v, dom)]
		}
		return float64(v) / 4
	}
	mk := func(v int) any {
		next++
		switch kind {
		case "int":
			return int64(v)
		case "big":
			return int64(1<<53 + v)
		case "iends":
			return intEnds[mod(v, dom)]
		case "key":
			return &tkey{v, next, &trip}
		}
		return number(v)
	}
	keyOf := func(x any) (int, bool) {
		switch v := x.(type) {
		case int64:
			switch kind {
			case "big":
				return int(v - 1<<53), true
			case "iends":
				for i, y := range intEnds {
					if v == y {
						return i, true
					}
				}
			}
			return int(v), kind == "int"
		case float64:
			switch kind {
			case "near":
				return int(math.Float64bits(v) - math.Float64bits(100)), true
			case "fends":
				for i, y := range floatEnds {
					if v == y {
						return i, true
					}
				}
			}
			return int(v * 4), isFloat
		case *tkey:
			return v.k, kind == "key"
		}
		return 0, false
	}
	add := func(v int) {
		i := sort.SearchInts(keys, v)
		keys = append(keys, 0)
		copy(keys[i+1:], keys[i:])
		keys[i] = v
	}
	ends := func(when string) {
		for _, which := range []string{"Min", "Max"} {
			var got any
			p := protect(func() {
				if which == "Min" {
					got = tree.Min()
				} else {
					got = tree.Max()
				}
			})
			if p != "" {
				e.Fail("panic:"+which, "%s %s: %s", which, when, p)
				return
			}
			if len(keys) == 0 {
				if got != nil {
					e.Fail("tree wrong", "%s of an empty tree is %v %s", which, got, when)
				}
				continue
			}
			want := keys[0]
			if which == "Max" {
				want = keys[len(keys)-1]
			}
			if k, ok := keyOf(got); !ok || k != want {
				e.Fail("tree wrong", "%s is %v, want key %d of %d values, %s", which, got, want, len(keys), when)
				return
			}
		}
	}
	remove := func(v int) {
		i := sort.SearchInts(keys, v)
		if i < len(keys) && keys[i] == v {
			keys = append(keys[:i], keys[i+1:]...)
		}
	}
	drain := func() {
		// taking out the smallest again and again gives everything, in order
		for len(keys) > 0 && !e.Failed() {
			ends("while draining")
			if e.Failed() {
				return
			}
			m := tree.Min()
			k, _ := keyOf(m)
			if kind == "key" {
				if got, ok := ids[m.(*tkey).id]; !ok || got != k {
					e.Fail("tree wrong", "the tree still holds a value that was removed, or holds one twice (key %d)", k)
					return
				}
			}
			if !tree.Remove(m) {
				e.Fail("tree wrong", "the smallest value (key %d) could not be removed", k)
				return
			}
			remove(k)
			if kind == "key" {
				// of equal keys any one may have gone
				e.Probe("drained")
			}
		}
		ids = map[int]int{}
		ends("when drained")
	}
	for i, s := range steps {
		if e.Failed() {
			return
		}
		s.V = mod(s.V, dom)
		when := fmt.Sprintf("after step %d (%s %d)", i, s.Op, s.V)
		fault := s.Trip > 0 && len(keys) > 0
		arg := mk(s.V)
		if fault && s.Op != "put" && s.Op != "del" {
			fault = false
		}
		if fault && kind == "key" {
			trip = s.Trip
		} else if fault {
			arg = "another kind of value"
		}
		e.Event("%s %d %s", s.Op, s.V, kind)
		switch s.Op {
		case "put":
			p := protect(func() { tree.Insert(arg) })
			if p != "" && !fault {
				e.Fail("panic:insert", "%s: %s", when, p)
				return
			}
			if p != "" {
				e.Fault("comparison failed during an insertion")
			} else if fault && kind != "key" {
				e.Fail("tree wrong", "%s: a value that cannot be compared was accepted", when)
			} else {
				add(s.V)
				if k, ok := arg.(*tkey); ok {
					ids[k.id] = k.k
				}
			}
		case "puts":
			if !isFloat {
				break
			}
			var vs []float64
			for k := 0; k < clampI(s.N, 0, 3000); k++ {
				v := (s.V*7 + k*k*3) % 40 % dom
				vs = append(vs, number(v))
				add(v)
			}
			if tree.Inserts(vs) != tree {
				e.Fail("tree wrong", "%s: Inserts gave another tree", when)
			}
		case "run", "fall", "same":
			e.Probe("sorted run inserted")
			for k := 0; k < clampI(s.N, 0, 1200); k++ {
				v := s.V
				if s.Op == "run" {
					v += k
				} else if s.Op == "fall" {
					v += s.N - k
				}
				v = mod(v, dom)
				x := mk(v)
				if p := protect(func() { tree.Insert(x) }); p != "" {
					e.Fail("panic:insert", "%s: %s", when, p)
					return
				}
				add(v)
				if y, ok := x.(*tkey); ok {
					ids[y.id] = y.k
				}
			}
		case "del":
			var got bool
			p := protect(func() { got = tree.Remove(arg) })
			if p != "" && !fault {
				e.Fail("panic:remove", "%s: %s", when, p)
				return
			}
			if p != "" {
				e.Fault("comparison failed during a removal")
				break
			}
			j := sort.SearchInts(keys, s.V)
			want := j < len(keys) && keys[j] == s.V
			if fault && kind != "key" {
				want = false
			}
			if got != want {
				e.Fail("tree wrong", "%s: Remove says %v, the value was there: %v", when, got, want)
				return
			}
			if want {
				remove(s.V)
				e.Probe("removed")
			}
		case "drain":
			drain()
		}
		trip = 0
		ends(when)
		if len(keys) > 3 {
			e.Nontrivial()
		}
		rtYield()
	}
	drain()
}
