// What a program shares with the libraries it uses: its output, the files and
// the network around it, its environment, clock zone, loggers, runtime and
// number settings. Computing leaves all of it alone, at every moment.
package main

import (
	"fmt"
	"log"
	"log/slog"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	_ "unsafe"

	"github.com/bytedance/sonic"
	"github.com/idoall/stockindicator/container/bst"
	"github.com/idoall/stockindicator/container/queue"
	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/shopspring/decimal"
)

type SharedCaller struct {
	Jobs []LJob    `json:"jobs"`
	Ill  []IllStep `json:"ill,omitempty"`
}

type SharedWorld struct {
	Callers []SharedCaller `json:"callers"`
	Rounds  int       `json:"rounds"`
	Set     []int     `json:"set"`    // the program's own settings, when it starts
	Change  []int     `json:"change"` // and those it changes, while others compute
	Every   int       `json:"every"`  // how often it looks
}

//go:linkname globalRand math/rand.globalRandGenerator
var globalRand atomic.Pointer[rand.Rand]

// seeded reports whether the default random generator was given a seed.
func seeded() bool {
	g := globalRand.Load()
	if g == nil {
		return false
	}
	src := reflect.ValueOf(g).Elem().FieldByName("src")
	return !src.IsNil() && strings.Contains(src.Elem().Type().String(), "lockedSource")
}

// atImport are the settings that importing the library changed.
var atImport []string

func checkImport(procs, gc int, limit int64) {
	note := func(ok bool, what string) {
		if !ok {
			atImport = append(atImport, what)
		}
	}
	note(os.Getenv("GOMAXPROCS") != "" || procs == runtime.NumCPU(), "GOMAXPROCS")
	note(os.Getenv("GOGC") != "" || gc == 100, "the garbage collector's percentage")
	note(os.Getenv("GOMEMLIMIT") != "" || limit == math.MaxInt64, "the memory limit")
	note(decimal.DivisionPrecision == 16 && decimal.ExpMaxIterations == 1000 && !decimal.MarshalJSONWithoutQuotes, "the settings of decimal")
	note(log.Flags() == log.LstdFlags && log.Prefix() == "" && log.Writer() == os.Stderr, "the default logger")
	note(time.Local.String() == "Local" || time.Local == time.UTC && os.Getenv("TZ") != "", "the local time zone")
	note(!seeded(), "the default random generator")
	if b, err := os.ReadFile("/proc/self/environ"); err == nil {
		note(strings.TrimRight(string(b), "\x00") == strings.Join(os.Environ(), "\x00"), "the environment")
	}
	if b, err := os.ReadFile("/proc/self/cmdline"); err == nil {
		note(strings.TrimRight(string(b), "\x00") == strings.TrimRight(strings.Join(os.Args, "\x00"), "\x00"), "the arguments")
	}
}

// shared is one thing that the whole process has but once.
type sharedSetting struct {
	name string
	get  func() any
	set  func(v int)
}

var sharedSettings = []sharedSetting{
	{"decimal.DivisionPrecision", func() any { return decimal.DivisionPrecision }, func(v int) { decimal.DivisionPrecision = 4 + v%20 }},
	{"decimal.MarshalJSONWithoutQuotes", func() any { return decimal.MarshalJSONWithoutQuotes }, func(v int) { decimal.MarshalJSONWithoutQuotes = v%2 == 0 }},
	{"decimal.ExpMaxIterations", func() any { return decimal.ExpMaxIterations }, func(v int) { decimal.ExpMaxIterations = 500 + v%1000 }},
	{"the flags of the default logger", func() any { return log.Flags() }, func(v int) { log.SetFlags(v % 128) }},
	{"the prefix of the default logger", func() any { return log.Prefix() }, func(v int) { log.SetPrefix(fmt.Sprint("program", v%9, " ")) }},
	{"the environment", func() any { return strings.Join(os.Environ(), "\x00") }, func(v int) { os.Setenv("PROGRAM_SETTING", fmt.Sprint(v)) }},
	{"the arguments", func() any { return strings.Join(os.Args, "\x00") }, nil},
	{"the local time zone", func() any { return time.Local }, nil},
	{"the name of the local time zone", func() any { return time.Local.String() }, nil},
	{"standard input", func() any { return os.Stdin }, nil},
	{"standard output", func() any { return os.Stdout }, nil},
	{"standard error", func() any { return os.Stderr }, nil},
	{"the writer of the default logger", func() any { return log.Writer() }, nil},
	{"the default structured logger", func() any { return slog.Default() }, nil},
	{"the default random generator", func() any { return globalRand.Load() }, nil},
	{"the default settings of sonic", func() any { return sonic.ConfigDefault }, nil},
	{"the standard settings of sonic", func() any { return sonic.ConfigStd }, nil},
	{"the fastest settings of sonic", func() any { return sonic.ConfigFastest }, nil},
	{"the errors that can be asked for", func() any {
		return [8]error{commonutils.ErrDateUnset, commonutils.ErrStartAfterEnd, commonutils.ErrStartEqualsEnd, commonutils.ErrStartAfterTimeNow,
			klines.ErrCanOnlyUpscaleCandles, klines.ErrInvalidInterval, klines.ErrWholeNumberScaling, klines.ErrInsufficientCandleData}
	}, nil},
}

const settable = 6 // the first so many

// settings is the program's own view of what it shares.
type settings struct {
	e    *Env
	want []any
}

func (s *settings) look(when string) {
	for i := range sharedSettings {
		x := &sharedSettings[i]
		got := x.get()
		if got == s.want[i] {
			continue
		}
		s.want[i] = got
		s.e.dirty = true
		switch got.(type) {
		case int, bool:
			s.e.Fail("process changed", "%s: %s is %v, which the program did not set", when, x.name, got)
		default:
			s.e.Fail("process changed", "%s: %s is not what the program set", when, x.name)
		}
	}
	if what := runtime.SimTouched(); what != "" {
		s.e.dirty = true
		s.e.Fail("process changed", "%s: %s by a computation", when, what)
	}
}

// change has the program itself change one of its settings.
func (s *settings) change(v int) {
	if v < 0 {
		v = -v
	}
	i := v % settable
	sharedSettings[i].set(v / settable)
	s.want[i] = sharedSettings[i].get()
	s.e.Fault("the program changes a setting of its own")
}

// mayOpen are the files that anything that knows about time zones or the
// processor may read.
func mayOpen(path string) bool {
	for _, p := range []string{"/usr/share/zoneinfo", "/usr/share/lib/zoneinfo", "/usr/lib/locale/TZ", "/etc/zoneinfo", "/etc/localtime", "/proc/", "/sys/"} {
		if strings.HasPrefix(path, p) {
			return true
		}
	}
	return strings.HasSuffix(path, "/lib/time/zoneinfo.zip")
}

func init() {
	register(&Prop{ID: "C29", New: func() any { return &SharedWorld{} },
		Tune: func(r *Rng, s *Sched) {
			tuneConc(r, s)
			if s.Mean > 200 && r.P(0.5) {
				s.Mean = 20
			}
		},
		Gen: func(r *Rng, big bool) any {
			w := &SharedWorld{Rounds: r.Pick(1, 1, 2), Every: r.Pick(1, 1, 2, 10)}
			for i := r.N(5); i > 0; i-- {
				w.Set = append(w.Set, r.N(700))
			}
			for i := r.N(4); i > 0; i-- {
				w.Change = append(w.Change, r.N(700))
			}
			ds := dataPool(r, 2)
			n, m := r.In(1, 3), r.In(1, 4)
			if big {
				n, m = r.In(1, 5), r.In(2, 8)
			}
			for c := 0; c < n; c++ {
				cl := SharedCaller{}
				for i := 0; i < m; i++ {
					j := genLJob(r, ds, 200)
					for r.P(0.25) {
						j.Hits = append(j.Hits, Hit{At: r.N(max(j.Job.D.N, 1)), Len: r.Pick(1, 1, 5, 300), What: r.N(len(damages)), Fields: r.Pick(31, 15, 8, 16, 1+r.N(31))})
					}
					cl.Jobs = append(cl.Jobs, j)
				}
				for _, j := range genJobs(r, ds, r.N(3), 0.3) {
					cl.Ill = append(cl.Ill, IllStep{Job: j, Ill: r.In(1, illKinds-1), At: r.N(1000)})
				}
				w.Callers = append(w.Callers, cl)
			}
			return w
		},
		Run: func(e *Env, x any) {
			w := x.(*SharedWorld)
			e.only = "process changed"
			disk := &simDisk{e: e, files: map[string]*simFile{}, fds: map[int]*simFD{}, cur: map[uint32]*simLoad{}}
			syscall.SimDisk = disk
			syscall.SimGate = func(op, what string) error {
				if op == "open" && mayOpen(what) {
					return nil
				}
				e.dirty = true
				e.Fail("process changed", "a computation tried to %s %s", op, what)
				return syscall.EACCES
			}
			runtime.SimTouched()
			flags, prefix := log.Flags(), log.Prefix()
			dec := [2]int{decimal.DivisionPrecision, decimal.ExpMaxIterations}
			quotes := decimal.MarshalJSONWithoutQuotes
			e.Defer(func() {
				syscall.SimDisk, syscall.SimGate = nil, nil
				log.SetFlags(flags)
				log.SetPrefix(prefix)
				decimal.DivisionPrecision, decimal.ExpMaxIterations = dec[0], dec[1]
				decimal.MarshalJSONWithoutQuotes = quotes
				os.Unsetenv("PROGRAM_SETTING")
			})
			if len(atImport) > 0 {
				e.dirty = true
				e.Fail("process changed", "importing the library changed %s", strings.Join(atImport, ", "))
				return
			}
			seed := int64(len(w.Callers)*1000 + len(w.Set))
			rand.Seed(seed)
			gc, limit := debug.SetGCPercent(-1), debug.SetMemoryLimit(-1)
			s := &settings{e: e}
			for i := range sharedSettings {
				s.want = append(s.want, sharedSettings[i].get())
			}
			for _, v := range w.Set {
				s.change(v)
			}
			never := make(chan struct{})
			work := 0
			for c := range w.Callers {
				cl := &w.Callers[c]
				st := newStanding()
				work++
				e.Go(fmt.Sprintf("caller%d", c), func() {
					defer func() { work-- }()
					for r := 0; r < clampI(w.Rounds, 1, 5) && !e.Failed(); r++ {
						for k := range cl.Jobs {
							protect(func() { st.work(e, k, &cl.Jobs[k], r) })
							if r == 0 && k < len(cl.Ill) {
								ill := &cl.Ill[k]
								if ill.Ill == sound {
									continue
								}
								e.Fault(illNames[clampI(ill.Ill, 0, illKinds-1)])
								switch ill.Ill {
								case illLive:
									failThenWork(e, ill.Job, ill.At)
								case illStall:
									e.GoIn("waiting", func() { protect(func() { askIll(e, ill, never) }) })
									settle()
								default:
									askIll(e, ill, never)
								}
							}
						}
					}
				})
			}
			looks := 0
			e.Go("program", func() {
				for i := 0; work > 0 && i < 2000 && !e.Failed(); i++ {
					if i%clampI(w.Every, 1, 100) == 0 {
						s.look("while others compute")
						looks++
						if k := looks / 3; looks%3 == 0 && k <= len(w.Change) && k > 0 {
							s.change(w.Change[k-1])
						}
					}
					runtime.Gosched()
				}
			})
			e.Idle()
			close(never)
			e.Idle()
			if e.aborted {
				return
			}
			s.look("afterwards")
			if e.Failed() {
				return
			}
			if g, l := debug.SetGCPercent(-1), debug.SetMemoryLimit(-1); g != gc || l != limit {
				e.dirty = true
				e.Fail("process changed", "afterwards the garbage collector is set up otherwise")
			}
			for i, own := 0, rand.New(rand.NewSource(seed)); i < 3; i++ {
				if rand.Int63() != own.Int63() {
					e.dirty = true
					e.Fail("process changed", "afterwards the program's seeded random numbers go on elsewhere: a computation took some")
					break
				}
			}
			if looks > 3 {
				e.Probe("looked while others computed")
			}
			if work == 0 {
				e.Nontrivial()
			}
		}})
}

func newStanding() *standing {
	return &standing{q: queue.New(), t: map[int]*bst.Tree{}, inst: map[int]any{}, in: map[int]*Input{}, it: map[int]*klines.Item{}, at: map[int]int{}, base: map[int]int{}}
}
