package main

import (
	"bytes"
	"fmt"

	"github.com/dargueta/disko"
	core "github.com/dargueta/disko/zzverif/core"
)

// Contents and repetitions: behaviour that depends on which bytes are stored,
// or on how often something has been done.

// Special versions for pat: constant contents, and the content already there.
const (
	vZero = 1000 + iota
	vOnes
	vNewline
	vSame
	vPair = 1 << 20 // from here on: the two bytes of v - vPair in turn
)

// bytePairs: every value of two bytes, written in every way and stored.
func bytePairs(x *core.X) {
	b := core.Pick(x, "block size", 2, 1, 8)
	flags := core.Pick(x, "flags", rw, rw|app, rw|syn)
	how := x.Choose(4, "written")
	first := x.Choose(256, "first byte")
	x.Begin()
	e := newEnv(x, b, 4, 4, flags, true)
	e.limit = 1000
	if !e.open() {
		return
	}
	for second := 0; second < 256; second++ {
		v := vPair + first + second<<8
		e.do(op{k: opSeek})
		switch how {
		case 0:
			e.do(op{k: opWrite, n: 2, v: v})
		case 1:
			e.do(op{k: opWriteString, n: 2, v: v})
		case 2:
			if flags&app != 0 {
				return
			}
			e.do(op{k: opWriteAt, n: 3, off: 1, v: v})
		case 3:
			p := []byte{byte(first), byte(second)}
			at := 0
			if flags&app != 0 {
				at = len(e.data)
			}
			e.unsync(at, at+2)
			e.x.T()
			n, err := e.s.ReadFrom(bytes.NewReader(p))
			x.Assert(n == 2 && err == nil, "ReadFrom(% x) = %d, %v", p, n, err)
			e.write(at, p)
			e.pos = int64(at + 2)
		}
		e.do(op{k: opReadAt, n: 5, off: int64(max(0, len(e.data)-4))})
		if second%64 == 63 {
			e.do(op{k: opSync})
		}
	}
	var w bytes.Buffer
	e.do(op{k: opSeek})
	x.T()
	n, err := e.s.WriteTo(&w)
	x.Assert(err == nil && int(n) == len(e.data) && bytes.Equal(w.Bytes(), e.data), "WriteTo gave % x, %d, %v; want % x", w.Bytes(), n, err, e.data)
	e.pos = int64(len(e.data))
	e.final()
}

var bytePairsPart = &core.Part{Name: "byte-pairs", Mode: core.DFS, Bounds: "every value of two bytes, written by Write, WriteString, WriteAt and ReadFrom, read by ReadAt and WriteTo; block sizes 1, 2, 8", Body: bytePairs}

const contentsText = "writes and bulk copies of zeros, 0xFF, newlines or what is already there, over files and storage of a pattern, zeros or 0xFF; block sizes 1, 4 and 512"

// byteFor is the byte a write of version v stores at pos.
func (e *env) byteFor(v, pos int) byte {
	if v == vSame {
		if pos < len(e.data) {
			return e.data[pos]
		}
		return 0
	}
	return pat(v, pos)
}

func contents(faults bool, flags ...disko.IOFlags) func(x *core.X) {
	return func(x *core.X) {
		b := core.Pick(x, "block size", 1, 4, 512)
		initial := core.Pick(x, "initial content", 0, vZero, vOnes)
		behind := core.Pick(x, "storage behind the end", byte(garbage), 0)
		flag := flags[x.Choose(len(flags), "flags")]
		size := core.Pick(x, "file size", 3*b, 2*b-1)
		var m []func(e *env)
		for _, v := range []int{1, vZero, vOnes, vNewline, vSame} {
			m = append(m, func(e *env) { e.do(op{k: opWriteAt, n: b, off: int64(b), v: v}) })
			m = append(m, func(e *env) { e.do(op{k: opWrite, n: 2 * b, v: v}) })
		}
		m = append(m,
			func(e *env) { e.do(op{k: opWriteAt, n: b + 1, off: int64(max(0, b-1)), v: vZero}) },
			func(e *env) { e.do(op{k: opWriteAt, n: b, off: int64(len(e.data)) + int64(b), v: vZero}) },
			func(e *env) { e.do(op{k: opWriteString, n: b, v: vZero}) },
			func(e *env) { e.do(op{k: opTruncate, off: int64(b)}) },
			func(e *env) { e.do(op{k: opTruncate, off: int64(4 * b)}) },
			func(e *env) { e.do(op{k: opSync}) },
			func(e *env) { e.do(op{k: opSeek}) },
			func(e *env) { e.do(op{k: opRead, n: b + 1}) })
		if !faults {
			for _, v := range []int{vZero, vNewline} {
				m = append(m, func(e *env) {
					p := make([]byte, 2*b)
					for i := range p {
						p[i] = pat(v, i)
					}
					e.readFrom(&source{x: x, data: p, failAt: -1})
				})
			}
			m = append(m, func(e *env) { e.writeTo(&sink{x: x}) })
		}
		first := x.Choose(len(m), "first operation")
		x.Begin()
		e := newEnv(x, b, 3, size, flag, true)
		for i := range e.store {
			e.store[i] = behind
			if i < size {
				e.store[i] = pat(initial, i)
				e.data[i] = e.store[i]
				e.synced[i] = int(e.store[i])
			}
		}
		e.faults = faults
		if !e.open() {
			return
		}
		x.Step(e.state, e.final)
		for f := m[first]; ; f = m[x.Choose(len(m), "")] {
			f(e)
			x.Outcome(core.NewH().B(e.data).B(e.store).I(int(e.pos)).Sum())
			x.Step(e.state, e.final)
		}
	}
}

const cycleText = "cycles of one or two operations out of 18 (thorough: up to three), repeated 600 times (single ones: 70000 times), every write with new content; block sizes x blocks 1x2, 4x3"

func cycleMenu(b int) []func(e *env, i int) {
	do := func(f func(i int) op) func(e *env, i int) {
		return func(e *env, i int) { e.do(f(i)) }
	}
	fix := func(o op) func(e *env, i int) { return do(func(int) op { return o }) }
	v := func(o op) func(e *env, i int) {
		return do(func(i int) op { o.v = 1 + i; return o })
	}
	return []func(e *env, i int){
		fix(op{k: opSync}), fix(op{k: opSeek}), fix(op{k: opSeek, whence: 2}), fix(op{k: opSeek, off: 1, whence: 1}),
		fix(op{k: opRead, n: 1}), fix(op{k: opRead, n: b + 1}), fix(op{k: opReadAt, n: b, off: int64(b)}),
		v(op{k: opWriteAt, n: 1, off: int64(b)}), v(op{k: opWriteAt, n: b + 1}), v(op{k: opWriteString, n: 1}),
		fix(op{k: opTruncate}), fix(op{k: opTruncate, off: int64(b + 1)}), fix(op{k: opTruncate, off: int64(3 * b)}),
		func(e *env, i int) { // a write, starting over before the file becomes large
			if e.pos > 40 {
				e.do(op{k: opSeek})
			}
			if len(e.data) > 60 {
				e.do(op{k: opTruncate, off: 1})
			}
			e.do(op{k: opWrite, n: b, v: 1 + i})
		},
		func(e *env, i int) { e.do(op{k: opTruncate, off: int64(len(e.data)%40 + 1)}) },
		func(e *env, i int) {
			if e.pos > 60 {
				e.do(op{k: opSeek})
			}
			if len(e.data) > 60 {
				e.do(op{k: opTruncate})
			}
			p := payload(b + 1)
			p[0] ^= byte(i)
			e.readFrom(&source{x: e.x, data: p, failAt: -1})
		},
		func(e *env, i int) { e.writeTo(&sink{x: e.x}) },
		fix(op{k: opWrite}),
	}
}

// cycles repeats short sequences of operations many times.
func cycles(faults, thorough bool, flags ...disko.IOFlags) func(x *core.X) {
	return func(x *core.X) {
		g := []scaleGeo{{1, 2}, {4, 3}}[x.Choose(2, "geometry")]
		flag := flags[x.Choose(len(flags), "flags")]
		m := cycleMenu(g.bsize)
		a := x.Choose(len(m), "first operation")
		b := x.Choose(len(m)+1, "second operation")
		c := len(m)
		if thorough && b < len(m) {
			c = x.Choose(len(m)+1, "third operation")
		}
		x.Begin()
		reps := 600
		if b == len(m) && g.bsize == 1 && !faults {
			reps = 70000
		}
		e := newEnv(x, g.bsize, g.blocks, g.bsize*g.blocks, flag, true)
		e.limit = 500
		if !e.open() {
			return
		}
		for i := 0; i < reps; i++ {
			if faults && i%2 == 1 {
				e.failFetch, e.failFlush = 1, 1
			}
			for _, k := range []int{a, b, c} {
				if k == len(m) {
					break
				}
				m[k](e, i)
				if e.pos > 100 {
					e.do(op{k: opSeek})
				}
				if len(e.data) > 200 {
					e.do(op{k: opTruncate, off: 3})
				}
			}
			e.failFetch, e.failFlush = 0, 0
			if i%50 == 49 {
				e.do(op{k: opSync})
				if e.readable() {
					e.do(op{k: opReadAt, n: len(e.data) + 1})
				}
			}
		}
		e.final()
		x.OutcomeS(fmt.Sprint(g, flag, a, b, c))
	}
}

// reopened: a file is opened, changed and closed again and again, over the
// same or a new cache.
func reopened(x *core.X) {
	b := core.Pick(x, "block size", 1, 4)
	flag := core.Pick(x, "flags", rw, rw|app, rw|trunc, rw|syn)
	fresh := x.Bool("a new cache every time")
	m := cycleMenu(b)
	a := x.Choose(len(m), "first operation")
	k := x.Choose(len(m)+1, "second operation")
	x.Begin()
	e := newEnv(x, b, 3, 2*b, flag, true)
	e.limit = 500
	for i := 0; i < 300; i++ {
		if fresh {
			cache := newEnv(x, b, e.nblk, 0, flag, true)
			cache.store, cache.data, cache.synced, cache.limit = e.store, e.data, e.synced, e.limit
			e = cache
		}
		if len(e.data) > 60 {
			e.data, e.synced = e.data[:1], e.synced[:1]
		}
		if !e.open() {
			return
		}
		m[a](e, i)
		if k < len(m) {
			m[k](e, i)
		}
		e.final()
	}
	x.OutcomeS(fmt.Sprint(b, flag, fresh, a, k))
}
