// A simulated disk below the real file reading and decoding code.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
)

type DFault struct {
	Op   string `json:"op"`   // open, stat, read, close
	At   int    `json:"at"`   // the At-th such call of that load
	Kind string `json:"kind"` // EINTR EIO ENOENT EACCES EMFILE ENFILE ESTALE short slow
	N    int    `json:"n"`    // bytes of a short read
}

type DLoad struct {
	File  int      `json:"file"`
	Us    int      `json:"us"`
	F     []DFault `json:"f"`
	Retry int      `json:"retry"` // tries again after an error, without faults
	To    string   `json:"to"`    // item, value (not a pointer), other
}

type DFile struct {
	D    Data   `json:"d"`
	Raw  int    `json:"raw"`            // >0: not JSON but so many bytes
	Tear string `json:"tear"`           // "", cut, zero, junk, missing, empty: what the crash of its writer left
	At   int    `json:"at"`             // where, in thousandths
	Swap int    `json:"swap"`           // >0: replaced by a newer version after so many microseconds
	Size string `json:"size"`           // what stat says: "", zero, less, more
	Form string `json:"form,omitempty"` // "" one history; candles: a plain list of candles; many: a list of histories; wide: one, indented
	Off  int    `json:"off,omitempty"`  // >0: torn so many bytes before the end; <0: torn just behind the -Off-th last closing bracket
}

type DWorld struct {
	Files   []DFile   `json:"files"`
	Callers [][]DLoad `json:"callers"`
}

type simFile struct {
	name     string
	versions [][]byte // contents over time; opening binds to the newest
	missing  bool
	size     string
	items    []*klines.Item
	form     string
	torn     bool
}

type simFD struct {
	f    *simFile
	data []byte
	off  int
	load *simLoad
}

// simLoad is one call of the loading code, on one goroutine.
type simLoad struct {
	e      *Env
	faults []DFault
	count  map[string]int
	opened []*simFD
	fatal  syscall.Errno // an error no retry of the call hides
	sample *simFile      // what the working directory's data/test.json is for this call
}

type simDisk struct {
	e     *Env
	files map[string]*simFile
	fds   map[int]*simFD
	next  int
	cur   map[uint32]*simLoad // by goroutine
}

const simFDBase = 1 << 20

// find is the simulated file of that path, and whether the path is simulated.
func (d *simDisk) find(path string) (*simFile, bool) {
	if l := d.load(); l != nil && l.sample != nil && strings.HasSuffix(path, "data/test.json") {
		return l.sample, true
	}
	return d.files[path], strings.HasPrefix(path, "/sim/")
}

func (d *simDisk) load() *simLoad { return d.cur[simID()] }

func (l *simLoad) fault(op string) *DFault {
	if l == nil {
		return nil
	}
	n := l.count[op]
	l.count[op]++
	for i := range l.faults {
		if f := &l.faults[i]; f.Op == op && f.At == n {
			return f
		}
	}
	return nil
}

var errnos = map[string]syscall.Errno{"EINTR": syscall.EINTR, "EIO": syscall.EIO, "ENOENT": syscall.ENOENT, "EACCES": syscall.EACCES,
	"EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "ESTALE": syscall.ESTALE, "ENOMEM": syscall.ENOMEM, "EISDIR": syscall.EISDIR, "ENXIO": syscall.ENXIO, "ELOOP": syscall.ELOOP}

func (l *simLoad) errno(op string) (syscall.Errno, *DFault) {
	f := l.fault(op)
	if f == nil {
		return 0, nil
	}
	l.e.Fault(op + " " + f.Kind)
	if f.Kind == "slow" {
		time.Sleep(time.Millisecond)
		return 0, nil
	}
	no := errnos[f.Kind]
	if no != 0 && no != syscall.EINTR && op != "stat" && op != "close" {
		l.fatal = no
	}
	return no, f
}

func (d *simDisk) Open(path string, mode int, perm uint32) (int, error, bool) {
	f, ours := d.find(path)
	if !ours {
		return 0, nil, false
	}
	if mode&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0 {
		d.e.dirty = d.e.only != ""
		d.e.Fail("process changed", "a computation tried to create or write %s", path)
		return -1, syscall.EACCES, true
	}
	if d.e.only != "" && f == nil {
		d.e.dirty = true
		d.e.Fail("process changed", "a computation tried to open %s", path)
	}
	l := d.load()
	if l != nil {
		settle()
		if no, _ := l.errno("open"); no != 0 {
			return -1, no, true
		}
	}
	if f, _ = d.find(path); f == nil || f.missing {
		return -1, syscall.ENOENT, true
	}
	d.next++
	fd := simFDBase + d.next
	x := &simFD{f: f, data: f.versions[len(f.versions)-1], load: l}
	d.fds[fd] = x
	if l != nil {
		l.fatal = 0 // whatever went wrong before, this is a new attempt at the whole file
		l.opened = append(l.opened, x)
	}
	return fd, nil, true
}

func (d *simDisk) Read(fd int, p []byte) (int, error, bool) {
	if fd < simFDBase {
		return 0, nil, false
	}
	x := d.fds[fd]
	if x == nil {
		return -1, syscall.EBADF, true
	}
	settle()
	n := len(x.data) - x.off
	if n > len(p) {
		n = len(p)
	}
	no, f := x.load.errnoOr("read")
	if no != 0 {
		return -1, no, true
	}
	if f != nil && f.Kind == "short" && n > 1 {
		n = clampI(f.N, 1, n)
	}
	copy(p, x.data[x.off:x.off+n])
	x.off += n
	return n, nil, true
}

func (l *simLoad) errnoOr(op string) (syscall.Errno, *DFault) {
	if l == nil {
		return 0, nil
	}
	return l.errno(op)
}

func (d *simDisk) Pread(fd int, p []byte, off int64) (int, error, bool) {
	if fd < simFDBase {
		return 0, nil, false
	}
	x := d.fds[fd]
	if x == nil {
		return -1, syscall.EBADF, true
	}
	settle()
	if no, _ := x.load.errnoOr("read"); no != 0 {
		return -1, no, true
	}
	if off >= int64(len(x.data)) {
		return 0, nil, true
	}
	return copy(p, x.data[off:]), nil, true
}

func (d *simDisk) fill(f *simFile, data []byte, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Mode: syscall.S_IFREG | 0o644, Size: int64(len(data)), Nlink: 1, Blksize: 4096}
	switch f.size {
	case "zero":
		st.Size = 0
	case "less":
		st.Size /= 2
	case "more":
		st.Size = st.Size*2 + 100
	}
}

func (d *simDisk) Fstat(fd int, st *syscall.Stat_t) (error, bool) {
	if fd < simFDBase {
		return nil, false
	}
	x := d.fds[fd]
	if x == nil {
		return syscall.EBADF, true
	}
	if no, _ := x.load.errnoOr("stat"); no != 0 && no != syscall.EINTR {
		return no, true
	}
	d.fill(x.f, x.data, st)
	return nil, true
}

func (d *simDisk) Stat(path string, st *syscall.Stat_t) (error, bool) {
	f, ours := d.find(path)
	if !ours {
		return nil, false
	}
	if f == nil || f.missing {
		return syscall.ENOENT, true
	}
	d.fill(f, f.versions[len(f.versions)-1], st)
	return nil, true
}

func (d *simDisk) Seek(fd int, off int64, whence int) (int64, error, bool) {
	if fd < simFDBase {
		return 0, nil, false
	}
	x := d.fds[fd]
	if x == nil {
		return -1, syscall.EBADF, true
	}
	switch whence {
	case 1:
		off += int64(x.off)
	case 2:
		off += int64(len(x.data))
	}
	if off < 0 {
		return -1, syscall.EINVAL, true
	}
	x.off = int(off)
	if x.off > len(x.data) {
		x.off = len(x.data)
	}
	return off, nil, true
}

func (d *simDisk) Close(fd int) (error, bool) {
	if fd < simFDBase {
		return nil, false
	}
	x := d.fds[fd]
	if x == nil {
		return syscall.EBADF, true
	}
	delete(d.fds, fd)
	if no, _ := x.load.errnoOr("close"); no != 0 {
		return no, true
	}
	return nil, true
}

func rawBytes(n int, salt int64) []byte {
	r := NewRng(uint64(salt) + 99)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

func (f *DFile) build(i int) *simFile {
	s := &simFile{name: fmt.Sprintf("/sim/market-%d.json", i), size: f.Size, form: f.Form}
	for v := 0; v < 2; v++ {
		if f.Raw > 0 {
			s.versions = append(s.versions, rawBytes(clampI(f.Raw, 1, 1<<20)+v*37, f.D.Seed+int64(v)))
			s.items = append(s.items, nil)
			continue
		}
		d := f.D
		d.Seed += int64(v)
		it := d.item()
		if d.Seed%3 == 0 {
			it.Symbol, it.Code = "比特币/USDT \"<x>\" \\ \u2028 é\n", "\U0001F4C8"
		}
		if n := len(it.Candles); n > 0 && d.Seed%4 == 0 {
			it.Candles[n/2].Count, it.Candles[n-1].Count = 1<<62+1, -(1<<53 + 1)
			it.Candles[n/3].Open, it.Candles[n/3].Volume = 5e-324, 1.7976931348623157e308
		}
		b, err := json.Marshal(it)
		switch f.Form {
		case "candles":
			b, err = json.Marshal(it.Candles)
		case "many":
			b, err = json.Marshal([]*klines.Item{it, it})
		case "wide":
			b, err = json.MarshalIndent(it, "", "\t")
		case "more":
			// what a venue adds to every candle, and to the whole
			b = bytes.ReplaceAll(b, []byte(`"TimeUnix":`), []byte(`"T":{"a":[1,-2.5e3,null,{"TimeUnix":7}],"\u00e9":"}\"]"},"x":[],"TimeUnix":`))
			b = append(append([]byte(`{"meta":{"Candles":[{"Open":1}],"ok":true},"seq":12345678901234567890,`), b[1:len(b)-1]...), `,"next":null,"Next":""}`...)
		case "lower":
			for _, k := range []string{"Amount", "Count", "Open", "Close", "Low", "High", "Volume", "TimeUnix", "Candles"} {
				b = bytes.ReplaceAll(b, []byte(`"`+k+`":`), []byte(`"`+strings.ToLower(k)+`" : `))
			}
		}
		if err != nil {
			die("json: %v", err)
		}
		s.versions = append(s.versions, b)
		s.items = append(s.items, it)
	}
	if f.Swap <= 0 {
		s.versions, s.items = s.versions[:1], s.items[:1]
	}
	b := s.versions[0]
	at := clampI(f.At, 0, 999) * len(b) / 1000
	if f.Off > 0 {
		at = len(b) - f.Off
	}
	if f.Off < 0 {
		for k := f.Off; k < 0; k++ {
			if j := bytes.LastIndexByte(b[:at0(at, len(b), k == f.Off)], '}'); j >= 0 {
				at = j
			}
		}
		at++
	}
	at = clampI(at, 0, len(b))
	switch f.Tear {
	case "cut":
		s.versions[0], s.torn = append([]byte(nil), b[:at]...), true
	case "zero":
		b = append([]byte(nil), b...)
		for i := at; i < len(b); i++ {
			b[i] = 0
		}
		s.versions[0], s.torn = b, true
	case "junk":
		b = append([]byte(nil), b[:at]...)
		s.versions[0], s.torn = append(b, rawBytes(64, 5)...), true
	case "double":
		s.versions[0], s.torn = append(append([]byte(nil), b...), b[:at]...), at > 0
	case "empty":
		s.versions[0], s.torn = []byte{}, true
	case "pad": // whole, but the crash left the tail of the block behind it
		pads := []string{"\x00", "\x00\x00\x00\x00\x00\x00\x00\x00", strings.Repeat("\x00", 4096-len(b)%4096), " \n\t\r ", "\n", ",", "]", "}", "\x1a", "\ufeff"}
		s.versions[0] = append(append([]byte(nil), b...), pads[mod(f.At, len(pads))]...)
		s.torn = !json.Valid(s.versions[0])
	case "lead":
		leads := []string{"\xef\xbb\xbf", "\x00", " \r\n\t", "\n", ",", "\xff\xfe", "x", "\u00a0"}
		s.versions[0] = append([]byte(leads[mod(f.At, len(leads))]), b...)
		s.torn = !json.Valid(s.versions[0])
	case "missing":
		s.missing = true
	}
	return s
}

func at0(at, n int, first bool) int {
	if first {
		return n
	}
	return at
}

func init() {
	register(&Prop{ID: "C20", New: func() any { return &DWorld{} },
		Gen: func(r *Rng, big bool) any {
			w := &DWorld{}
			for i := r.In(1, 3); i > 0; i-- {
				f := DFile{D: Data{Seed: int64(r.N(1000)), N: r.Pick(0, 1, 3, 10, 40), Kind: r.N(4), Step: 3600}}
				if big {
					f.D.N = r.Pick(1, 10, 100, 400)
				}
				if r.P(0.3) {
					f.Raw = r.Pick(1, 100, 511, 512, 513, 1024, 5000, 40000)
					if r.P(0.1) {
						f.Raw = r.Pick(65535, 65536, 65537, 262145, 1<<20)
					}
				} else {
					f.Form = r.PickS("", "", "candles", "candles", "many", "wide", "more", "lower")
				}
				if r.P(0.3) {
					f.D.Flg = r.Pick(flgHuge, flgTiny, flgZero, flgNoVol, flgHugeVol, flgTicks|flgBelow)
				}
				if r.P(0.35) {
					f.Tear, f.At = r.PickS("cut", "cut", "zero", "junk", "double", "missing", "empty", "pad", "pad", "lead"), r.N(1000)
					if r.P(0.5) {
						f.Off = r.Pick(1, 1, 2, 3, 4, 10, -1, -2, -3, -1-r.N(12))
					}
				} else if r.P(0.25) {
					f.Swap = r.In(1, 3000)
				}
				if r.P(0.2) {
					f.Size = r.PickS("zero", "less", "more")
				}
				w.Files = append(w.Files, f)
			}
			n, m := r.In(1, 3), r.In(1, 4)
			if big {
				n, m = r.In(1, 6), r.In(2, 10)
			}
			for c := 0; c < n; c++ {
				var ls []DLoad
				for i := 0; i < m; i++ {
					l := DLoad{File: r.N(len(w.Files)), Us: r.Pick(0, 0, 100, 1000), Retry: r.Pick(0, 1), To: r.PickS("item", "item", "item", "item", "item", "item", "value", "text", "text", "nil", "nilptr", "ptrptr", "any", "any", "sample", "sample")}
					for k := r.Pick(0, 0, 1, 2, 4); k > 0; k-- {
						f := DFault{Op: r.PickS("read", "read", "read", "open", "stat", "close"), At: r.Pick(0, 0, 1, 2, 5)}
						switch f.Op {
						case "read":
							f.Kind, f.N = r.PickS("short", "short", "short", "EINTR", "EIO", "ESTALE", "slow", "EISDIR", "ENXIO"), r.Pick(1, 7, 100, 512)
						case "open":
							f.Kind, f.At = r.PickS("EINTR", "EMFILE", "EACCES", "EIO", "ENFILE", "ELOOP", "ENOENT", "slow"), 0
						case "stat":
							f.Kind, f.At = r.PickS("EIO", "ENOMEM", "ESTALE"), r.N(2)
						default:
							f.Kind, f.At = "EIO", 0
						}
						l.F = append(l.F, f)
					}
					ls = append(ls, l)
				}
				w.Callers = append(w.Callers, ls)
			}
			return w
		},
		Run: runDisk})
}

func runDisk(e *Env, x any) {
	w := x.(*DWorld)
	if len(w.Files) == 0 {
		return
	}
	d := &simDisk{e: e, files: map[string]*simFile{}, fds: map[int]*simFD{}, cur: map[uint32]*simLoad{}}
	var files []*simFile
	for i := range w.Files {
		f := w.Files[i].build(i)
		files = append(files, f)
		d.files[f.name] = f
		if w.Files[i].Tear != "" {
			e.Fault("file " + w.Files[i].Tear)
		}
		if w.Files[i].Size != "" {
			e.Fault("size misreported")
		}
	}
	syscall.SimDisk = d
	e.Defer(func() { syscall.SimDisk = nil })
	now := make([]int, len(files)) // newest version on disk
	for i := range files {
		if len(files[i].versions) > 1 {
			i, f := i, files[i]
			second := f.versions[1]
			f.versions = f.versions[:1]
			e.Go("writer", func() {
				time.Sleep(time.Duration(clampI(w.Files[i].Swap, 1, 1e6)) * time.Microsecond)
				// replaced in one step, as by a rename
				f.versions = append(f.versions, second)
				now[i] = 1
				e.Fault("file replaced during work")
			})
		}
	}
	done := 0
	for c := range w.Callers {
		loads := w.Callers[c]
		e.Go(fmt.Sprintf("loader%d", c), func() {
			for _, l := range loads {
				if e.Failed() {
					return
				}
				if l.Us > 0 {
					time.Sleep(time.Duration(clampI(l.Us, 0, 1e6)) * time.Microsecond)
				}
				fi := mod(l.File, len(files))
				ok := oneLoad(e, d, files[fi], l.F, l.To)
				if !ok && l.Retry > 0 && !e.Failed() {
					e.Probe("tried again after an error")
					oneLoad(e, d, files[fi], nil, l.To)
				}
			}
			done++
		})
	}
	e.Idle()
	if e.Failed() || e.aborted {
		return
	}
	if done != len(w.Callers) {
		e.Fail("stuck", "%d of %d loaders never finished", len(w.Callers)-done, len(w.Callers))
	}
	if n := len(d.fds); n > 0 {
		e.Fail("descriptor leak", "%d files are still open after all loading is over", n)
	}
	if len(e.faults) > 0 {
		e.Nontrivial()
	}
}

// oneLoad reads a file and decodes it; it reports whether reading succeeded.
func oneLoad(e *Env, d *simDisk, f *simFile, faults []DFault, to string) bool {
	l := &simLoad{e: e, faults: faults, count: map[string]int{}}
	me := simID()
	if to == "sample" && f.form == "candles" && f.items[0] != nil {
		return sampleLoad(e, d, f, l)
	}
	d.cur[me] = l
	data, err := commonutils.ReadFile(f.name)
	delete(d.cur, me)
	e.Event("read %s %d %v", f.name, len(data), err)
	for _, x := range l.opened {
		for _, y := range d.fds {
			if x == y {
				e.Fail("descriptor leak", "%s is still open after it was read (error: %v)", f.name, err)
				return false
			}
		}
	}
	if err != nil {
		if len(data) != 0 {
			e.Fail("read wrong", "reading %s failed (%v) but gave %d bytes", f.name, err, len(data))
		}
		if l.fatal == 0 && !f.missing {
			e.Fail("read wrong", "reading %s failed without a reason: %v", f.name, err)
		} else if l.fatal != 0 && !errors.Is(err, l.fatal) && !(f.missing && errors.Is(err, syscall.ENOENT)) {
			e.Fail("read wrong", "reading %s failed with %v, the disk said %v", f.name, err, l.fatal)
		}
		return false
	}
	if l.fatal != 0 || f.missing {
		e.Fail("read wrong", "reading %s gave %d bytes although the disk said %v", f.name, len(data), l.fatal)
		return false
	}
	if len(l.opened) == 0 {
		e.Fail("read wrong", "reading %s never looked at the disk", f.name)
		return false
	}
	// exactly the bytes of the version that was there when it was opened
	ver := -1
	for _, x := range l.opened {
		if bytes.Equal(x.data, data) {
			for v := range f.versions {
				if len(f.versions[v]) == len(x.data) && bytes.Equal(f.versions[v], x.data) {
					ver = v
				}
			}
		}
	}
	if ver < 0 {
		e.Fail("read wrong", "reading %s gave %d bytes that are not what the file holds (%d bytes)", f.name, len(data), len(f.versions[0]))
		return false
	}
	e.Probe("read whole and intact")
	decode(e, f, ver, data, to)
	return true
}

func decode(e *Env, f *simFile, ver int, data []byte, to string) {
	keep := append([]byte(nil), data...)
	var it klines.Item
	var err error
	var p string
	switch to {
	case "value":
		p = protect(func() { err = commonutils.JSONDecode(data, it) })
		if p != "" || err == nil {
			e.Fail("decode wrong", "decoding into something that is not a pointer: error %v, panic %q", err, p)
		}
		e.Fault("decoded into a value")
		return
	case "nil", "nilptr":
		p = protect(func() {
			if to == "nil" {
				err = commonutils.JSONDecode(data, nil)
			} else {
				err = commonutils.JSONDecode(data, (*klines.Item)(nil))
			}
		})
		if p != "" || err == nil {
			e.Fail("decode wrong", "decoding into nil: error %v, panic %q", err, p)
		}
		e.Fault("decoded into nil")
		return
	case "text":
		var s string
		p = protect(func() { err = commonutils.JSONDecode(data, &s) })
		// (damaged bytes: the JSON library reads some unterminated strings as strings,
		// and noise may be a string)
		if p != "" || err == nil && json.Valid(keep) && f.items[ver] != nil {
			e.Fail("decode wrong", "decoding candles into a string: error %v, panic %q", err, p)
		}
		return
	}
	if to == "any" {
		var x any
		p = protect(func() { err = commonutils.JSONDecode(data, &x) })
		var y any
		if p != "" || !bytes.Equal(keep, data) {
			e.Fail("decode wrong", "decoding %d bytes without a type: panic %q, bytes changed: %v", len(data), p, !bytes.Equal(keep, data))
		} else if err == nil && !json.Valid(keep) && f.items[ver] == nil {
			return // noise: the JSON library reads some unterminated strings as strings
		} else if err == nil && !json.Valid(keep) {
			e.Fail("decode wrong", "%d bytes of damaged JSON were accepted", len(data))
		} else if f.items[ver] != nil && (ver > 0 || !f.torn) {
			if json.Unmarshal(keep, &y) != nil || err != nil || !reflect.DeepEqual(x, y) {
				e.Fail("decode wrong", "decoding %d bytes without a type: error %v, %s", len(data), err, anyDiff(x, y))
			} else {
				e.Probe("decoded without a type")
			}
		}
		return
	}
	var list []*klines.Candle
	var flatList []klines.Candle
	var many []*klines.Item
	p = protect(func() {
		switch {
		case f.form == "candles" && len(keep)%2 == 0:
			err = commonutils.JSONDecode(data, &list)
			it.Candles = list
		case f.form == "candles":
			err = commonutils.JSONDecode(data, &flatList)
			for i := range flatList {
				it.Candles = append(it.Candles, &flatList[i])
			}
		case f.form == "many":
			err = commonutils.JSONDecode(data, &many)
			if len(many) == 2 && many[0] != nil && many[1] != nil {
				it = *many[1]
				if err == nil && !bytes.Equal(flatten(many[0]), flatten(many[1])) {
					p = "two equal histories came out different"
				}
			}
		case to == "ptrptr":
			var q *klines.Item
			err = commonutils.JSONDecode(data, &q)
			if q != nil {
				it = *q
			}
		default:
			err = commonutils.JSONDecode(data, &it)
		}
	})
	if p != "" {
		e.Fail("panic:decode", "decoding %d bytes panicked: %s", len(data), p)
		return
	}
	if !bytes.Equal(keep, data) {
		e.Fail("decode wrong", "decoding changed the bytes it was given")
		return
	}
	valid := json.Valid(data)
	want := f.items[ver]
	if want == nil || ver == 0 && f.torn {
		if err == nil && !valid {
			e.Fail("decode wrong", "%d bytes of damaged JSON were accepted", len(data))
		}
		e.Probe("damaged file refused")
		return
	}
	if err != nil {
		e.Fail("decode wrong", "decoding %d bytes: %v", len(data), err)
		return
	}
	// the result is the caller's own: the buffer may be reused
	for i := range data {
		data[i] = 'x'
	}
	if len(want.Candles) == 0 && len(it.Candles) == 0 {
		w := *want
		w.Candles, it.Candles = nil, nil
		want = &w
	}
	if f.form == "candles" {
		want = &klines.Item{Candles: want.Candles}
	}
	if !bytes.Equal(flatten(&it), flatten(want)) {
		e.Fail("decode wrong", "decoded market data differs: %s", diffPath(&it, flatten(want)))
		return
	}
	e.Probe("decoded intact")
}

func anyDiff(x, y any) string {
	if reflect.TypeOf(x) != reflect.TypeOf(y) {
		return fmt.Sprintf("got a %T, want a %T", x, y)
	}
	switch a := x.(type) {
	case map[string]any:
		for k, v := range y.(map[string]any) {
			if !reflect.DeepEqual(a[k], v) {
				return k + ": " + anyDiff(a[k], v)
			}
		}
	case []any:
		for i, v := range y.([]any) {
			if i < len(a) && !reflect.DeepEqual(a[i], v) {
				return fmt.Sprintf("%d: %s", i, anyDiff(a[i], v))
			}
		}
	}
	return fmt.Sprintf("got %.80v, want %.80v", x, y)
}

// sampleLoad loads the history that comes with the program. It has no error
// to return: it panics instead.
func sampleLoad(e *Env, d *simDisk, f *simFile, l *simLoad) bool {
	me := simID()
	l.sample = f
	d.cur[me] = l
	var it *klines.Item
	p := protect(func() { it = utils.GetTestKlineItem() })
	delete(d.cur, me)
	e.Event("sample %s %v", f.name, p == "")
	for _, x := range l.opened {
		for _, y := range d.fds {
			if x == y {
				e.Fail("descriptor leak", "the sample history's file is still open after it was loaded (panic: %q)", p)
				return false
			}
		}
	}
	bad := l.fatal != 0 || f.missing || len(l.opened) == 0
	ver := 0
	if !bad {
		data := l.opened[len(l.opened)-1].data
		for v := range f.versions {
			if bytes.Equal(f.versions[v], data) {
				ver = v
			}
		}
		bad = !json.Valid(data)
		if !bad && ver == 0 && f.torn {
			return false // whatever the noise says
		}
	}
	switch {
	case bad && p == "":
		e.Fail("sample wrong", "the sample history was loaded (%d candles) although its file is missing, damaged or unreadable (%v)", len(it.Candles), l.fatal)
	case !bad && p != "":
		e.Fail("sample wrong", "loading the sample history from an intact file failed: %s", p)
	case !bad:
		got := &klines.Item{Candles: it.Candles}
		want := &klines.Item{Candles: f.items[ver].Candles}
		if len(got.Candles)+len(want.Candles) > 0 && !bytes.Equal(flatten(got), flatten(want)) {
			e.Fail("sample wrong", "the sample history differs from its file: %s", diffPath(got, flatten(want)))
			return false
		}
		if it.Exchange == "" || it.Interval <= 0 {
			e.Fail("sample wrong", "the sample history is of exchange %q, interval %v", it.Exchange, it.Interval)
			return false
		}
		// it is the caller's own
		for _, c := range it.Candles {
			*c = klines.Candle{Open: -1}
		}
		it.Interval = 0
		e.Probe("sample history loaded")
		return true
	}
	return false
}
