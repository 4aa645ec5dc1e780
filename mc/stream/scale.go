package main

import (
	"fmt"

	"github.com/dargueta/disko"
	core "github.com/dargueta/disko/zzverif/core"
)

// Large files and large transfers, for behaviour that depends on amounts of
// data the exhaustive parts do not reach.

type scaleGeo struct{ bsize, blocks int }

var scaleGeos = []scaleGeo{{512, 128}, {1, 300}, {3, 1400}, {512, 129}, {1, 5000}, {4096, 17}, {65536, 2}, {128, 8200}, {300000, 2}, {16, 4100}}

const scaleText = "(block size, blocks) [{512 128} {1 300} {3 1400} {512 129} {1 5000} {4096 17} {65536 2} {128 8200} {300000 2} {16 4100}], files filling them, one byte or more than a block shorter, or empty"

// scaleOps lists operations in terms of the capacity f.
func scaleOps(b, f int, bulk bool) []func(e *env) {
	one := func(o op) func(e *env) { return func(e *env) { e.do(o) } }
	two := func(a, b op) func(e *env) { return func(e *env) { e.do(a); e.do(b) } }
	m := []func(e *env){
		one(op{k: opWrite, n: f, v: 1}),
		one(op{k: opWrite, n: f + 1, v: 1}),
		one(op{k: opRead, n: f + 5}),
		one(op{k: opSync}),
		one(op{k: opTruncate, off: int64(f / 2)}),
		one(op{k: opTruncate, off: 1}),
		one(op{k: opTruncate, off: int64(2*f + 1)}),
		one(op{k: opTruncate}),
		one(op{k: opWriteAt, n: f - b, off: int64(b/2 + 1), v: 2}),
		one(op{k: opWriteAt, n: 3, off: int64(2 * f), v: 2}),
		one(op{k: opWriteAt, n: b + 2, off: int64(f - b - 1), v: 3}),
		one(op{k: opWriteString, n: f - 1, v: 4}),
		two(op{k: opSeek, whence: 2}, op{k: opWrite, n: f, v: 5}),
		two(op{k: opSeek, off: int64(f), whence: 2}, op{k: opWrite, n: 2, v: 5}),
		two(op{k: opSeek, off: int64(b + 1)}, op{k: opRead, n: f}),
	}
	if bulk {
		for _, style := range []int{0, 2, 3} {
			n := f + 1
			if style == 3 {
				n = min(n, 20000)
			}
			m = append(m, func(e *env) { e.readFrom(&source{x: e.x, data: payload(n), style: style, failAt: -1}) })
		}
		m = append(m, func(e *env) { e.writeTo(&sink{x: e.x}) },
			func(e *env) { e.do(op{k: opSeek, off: int64(b + 1)}); e.writeTo(&sink{x: e.x}) },
			func(e *env) { e.readFrom(&source{x: e.x, data: payload(f), failAt: f - 1, withErr: true}) })
	}
	return m
}

func scale(geos, ops int, bulk bool, flags ...disko.IOFlags) func(x *core.X) {
	return func(x *core.X) {
		g := scaleGeos[x.Choose(geos, "geometry")]
		flag := flags[x.Choose(len(flags), "flags")]
		f := g.bsize * g.blocks
		size := core.Pick(x, "file size", f, f-1, f-g.bsize-1, 0)
		m := scaleOps(g.bsize, f, bulk)
		ks := make([]int, ops)
		for i := range ks {
			ks[i] = x.Choose(len(m), "operation")
		}
		x.Begin()
		e := newEnv(x, g.bsize, g.blocks, size, flag, true)
		e.limit = 9*g.blocks + 9
		if !e.open() {
			return
		}
		for _, k := range ks {
			m[k](e)
		}
		e.final()
		x.OutcomeS(fmt.Sprint(g, flag, size, ks))
	}
}

// scaleFaults: the n-th block access of a large operation fails.
func scaleFaults(geos int) func(x *core.X) {
	return func(x *core.X) {
		g := scaleGeos[x.Choose(geos, "geometry")]
		flag := core.Pick(x, "flags", rw, rw|syn, wo|app)
		f := g.bsize * g.blocks
		size := core.Pick(x, "file size", f, f-1, 0)
		m := scaleOps(g.bsize, f, false)
		k := x.Choose(len(m), "operation")
		at := []int{1, 2, g.blocks / 2, g.blocks - 1, g.blocks}
		n := at[x.Choose(len(at), "which access fails")]
		flush := x.Bool("a block write fails")
		x.Begin()
		e := newEnv(x, g.bsize, g.blocks, size, flag, true)
		e.limit = 9*g.blocks + 9
		if !e.open() {
			return
		}
		x.Logf("access %d fails (block write: %v)", n, flush)
		if flush {
			e.failFlush = n
		} else {
			e.failFetch = n
		}
		m[k](e)
		e.do(op{k: opSync})
		e.failFlush, e.failFetch = 0, 0
		e.final()
		x.OutcomeS(fmt.Sprint(g, flag, size, k, n, flush))
	}
}
