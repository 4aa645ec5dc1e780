package core

import (
	"reflect"
	"time"
	"unsafe"
)

// H is a running 64-bit hash.
type H uint64

// NewH starts a hash.
func NewH() *H { h := H(0xcbf29ce484222325); return &h }

// U adds a word.
func (h *H) U(v uint64) *H {
	*h = H(mix(uint64(*h)*0x9e3779b97f4a7c15 + v + 0x7f4a7c15))
	return h
}

// I adds an int.
func (h *H) I(v int) *H { return h.U(uint64(v)) }

// Bool adds a bool.
func (h *H) Bool(v bool) *H {
	if v {
		return h.U(1)
	}
	return h.U(2)
}

// B adds bytes.
func (h *H) B(b []byte) *H {
	h.U(uint64(len(b)))
	for len(b) >= 8 {
		h.U(uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 |
			uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56)
		b = b[8:]
	}
	var v uint64
	for i, c := range b {
		v |= uint64(c) << (8 * i)
	}
	return h.U(v)
}

// S adds a string.
func (h *H) S(s string) *H { return h.B([]byte(s)) }

// Deep adds the whole object graph reachable from v, private fields included.
// Functions contribute only their nil-ness.
func (h *H) Deep(v any) *H {
	w := walker{h: h, ids: map[unsafe.Pointer]int{}}
	w.walk(reflect.ValueOf(v))
	return h
}

// Sum is the hash value.
func (h *H) Sum() uint64 { return uint64(*h) }

type walker struct {
	h   *H
	ids map[unsafe.Pointer]int
}

func (w *walker) walk(v reflect.Value) {
	h := w.h
	if !v.IsValid() {
		h.U(0x1111)
		return
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.Bool:
		h.Bool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		h.U(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		h.U(v.Uint())
	case reflect.Float32, reflect.Float64:
		h.U(uint64(int64(v.Float() * 1e6)))
	case reflect.String:
		h.S(v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		h.Bool(v.IsNil())
	case reflect.Slice:
		h.U(uint64(v.Len()))
		if v.Len() == 0 {
			return
		}
		if t.Elem().Kind() == reflect.Uint8 {
			h.B(v.Bytes())
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Map:
		var sum uint64
		it := v.MapRange()
		for it.Next() {
			sub := NewH()
			w2 := walker{h: sub, ids: w.ids}
			w2.walk(it.Key())
			w2.walk(it.Value())
			sum += sub.Sum()
		}
		h.U(uint64(v.Len())).U(sum)
	case reflect.Interface:
		if v.IsNil() {
			h.U(0x2222)
			return
		}
		h.S(v.Elem().Type().String())
		w.walk(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			h.U(0x3333)
			return
		}
		if p := t.Elem().PkgPath(); p == "os" || p == "sync" || p == "reflect" {
			h.U(0x4444)
			return
		}
		p := v.UnsafePointer()
		if id, ok := w.ids[p]; ok {
			h.U(0x5555).I(id)
			return
		}
		w.ids[p] = len(w.ids)
		w.walk(v.Elem())
	case reflect.Struct:
		if t.PkgPath() == "time" && t.Name() == "Time" && v.CanInterface() {
			tm := v.Interface().(time.Time)
			h.U(uint64(tm.UnixNano()))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i))
		}
	default:
		h.U(0x6666)
	}
}
