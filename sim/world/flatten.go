package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"time"
)

// flatten turns any result into canonical bytes: values, not addresses.
// NaNs compare equal to each other; +0 and -0 do not differ.
type flat struct {
	b    []byte
	want int // report the path of the value covering this offset
	path []string
	hit  string
}

func flatten(v any) []byte {
	f := &flat{want: -1}
	f.val(reflect.ValueOf(v), 0)
	return f.b
}

// diffPath names the first place where v differs from other.
func diffPath(v any, other []byte) string {
	b := flatten(v)
	n := len(b)
	if len(other) < n {
		n = len(other)
	}
	at := n
	for i := 0; i < n; i++ {
		if b[i] != other[i] {
			at = i
			break
		}
	}
	f := &flat{want: at}
	f.val(reflect.ValueOf(v), 0)
	ref := ""
	if s := at - at%9; s+9 <= len(other) && f.hit != "" {
		_ = s
	}
	return fmt.Sprintf("at %s%s (%d vs %d bytes)", f.hit, ref, len(b), len(other))
}

func (f *flat) put(tag byte, x uint64) {
	start := len(f.b)
	f.b = append(f.b, tag)
	f.b = binary.LittleEndian.AppendUint64(f.b, x)
	if f.want >= start && f.want < len(f.b) && f.hit == "" {
		f.hit = ""
		for _, p := range f.path {
			f.hit += p
		}
		if tag == 'f' {
			f.hit += fmt.Sprintf(" = %v", math.Float64frombits(x))
		} else {
			f.hit += fmt.Sprintf(" = %c:%d", tag, int64(x))
		}
	}
}

func (f *flat) push(s string) {
	if f.want >= 0 {
		f.path = append(f.path, s)
	}
}
func (f *flat) pop() {
	if f.want >= 0 {
		f.path = f.path[:len(f.path)-1]
	}
}

var timeT = reflect.TypeOf(time.Time{})

func (f *flat) val(v reflect.Value, depth int) {
	if depth > 12 {
		f.put('x', 0)
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		f.put('n', 0)
	case reflect.Bool:
		if v.Bool() {
			f.put('b', 1)
		} else {
			f.put('b', 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f.put('i', uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		f.put('u', v.Uint())
	case reflect.Float32, reflect.Float64:
		x := v.Float()
		if x == 0 {
			x = 0
		}
		if math.IsNaN(x) {
			f.put('f', 0x7ff8000000000001)
		} else if x == 0 {
			f.put('f', 0)
		} else {
			f.put('f', math.Float64bits(x))
		}
	case reflect.String:
		s := v.String()
		f.put('s', uint64(len(s)))
		f.put('S', hashS(s))
	case reflect.Slice, reflect.Array:
		f.put('l', uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			f.push(fmt.Sprintf("[%d]", i))
			f.val(v.Index(i), depth+1)
			f.pop()
		}
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			f.put('n', 0)
			return
		}
		f.val(v.Elem(), depth+1)
	case reflect.Struct:
		if v.Type() == timeT {
			// the instant only: the zone a time is shown in is not part of a result
			if v.CanInterface() {
				t := v.Interface().(time.Time)
				f.put('t', uint64(t.Unix()))
				f.put('t', uint64(t.Nanosecond()))
			} else {
				f.put('t', 0)
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f.push("." + v.Type().Field(i).Name)
			f.val(v.Field(i), depth+1)
			f.pop()
		}
	case reflect.Map:
		f.put('m', uint64(v.Len()))
	default:
		f.put('?', uint64(v.Kind()))
	}
}

func sameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// scribble overwrites every settable value reachable from v (a caller using a
// result it was given as its own memory).
func scribble(v reflect.Value, depth int, seen map[uintptr]bool) {
	if depth > 6 {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1, seen)
		}
	case reflect.Ptr:
		if !v.IsNil() && !seen[v.Pointer()] {
			seen[v.Pointer()] = true
			scribble(v.Elem(), depth+1, seen)
		}
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1, seen)
		}
	case reflect.Struct:
		if v.Type() == timeT {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(86400*365, 0)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), depth+1, seen)
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(-1.0e9 - 0.125)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(-77)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(77)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

func scribbleAll(v any) { scribble(reflect.ValueOf(v), 0, map[uintptr]bool{}) }

// growAll appends to one of the slices in a result, in place where there is
// room behind it, as append does for the owner of the slice.
func growAll(v any, k int) bool {
	var all []reflect.Value
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 4 {
			return
		}
		switch v.Kind() {
		case reflect.Slice:
			if v.CanInterface() && v.Cap() > v.Len() {
				all = append(all, v)
			}
			for i := 0; i < v.Len() && i < 4; i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			if v.Type() == timeT {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		}
	}
	for _, x := range v.([]any) {
		walk(reflect.ValueOf(x), 0)
	}
	if len(all) == 0 {
		return false
	}
	s := all[mod(k, len(all))]
	for n := 0; n < 3 && s.Cap() > s.Len(); n++ {
		x := reflect.New(s.Type().Elem()).Elem()
		scribble(x, 0, map[uintptr]bool{})
		s = reflect.Append(s, x)
	}
	return true
}
