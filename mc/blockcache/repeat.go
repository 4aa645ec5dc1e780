package main

import (
	"fmt"

	core "github.com/dargueta/disko/zzverif/core"
)

// Contents and repetitions: behaviour that depends on which bytes are stored,
// or on how often something has been done.

// Special versions for pat: constant contents, and the content already there.
const (
	vZero = 1000 + iota
	vOnes
	vDeleted
	vSame
	vPair = 1 << 20 // from here on: the two bytes of v - vPair in turn
)

const contentsText = "blocks filled with zeros, 0xFF, 0xE5 or what they already hold, over storage which holds a pattern, zeros or 0xFF"

func contentMenu(bs, n int, resizes bool) []op {
	var m []op
	for _, s := range []int{0, n - 1} {
		for _, v := range []int{1, vZero, vOnes, vDeleted, vSame} {
			m = append(m, op{kind: opWrite, start: s, len: bs, v: v})
		}
		m = append(m, op{kind: opModify, start: s, len: 1, v: vZero}, op{kind: opModify, start: s, len: 1, v: vOnes}, op{kind: opMark, start: s, len: 1})
		if n == 1 {
			break
		}
	}
	m = append(m, op{kind: opWrite, start: 0, len: n*bs - bs/2, v: vZero}, op{kind: opFlush}, op{kind: opRead, len: n * bs}, op{kind: opData})
	if resizes {
		m = append(m, op{kind: opResize, len: n + 1}, op{kind: opResize, len: max(1, n-1)})
	}
	return m
}

// contents explores histories of writes of special contents.
func contents(resizes, faults bool) func(x *core.X) {
	return func(x *core.X) {
		g := []geo{{1, 2}, {4, 2}, {3, 9}, {512, 2}}[x.Choose(4, "geometry")]
		initial := []int{0, vZero, vOnes}[x.Choose(3, "initial content")]
		m := contentMenu(g.bs, g.n, resizes)
		x.Config()
		first := x.Choose(len(m), "first operation")
		x.Begin()
		e := newEnv(x, g.bs, g.n)
		for i := range e.store {
			e.store[i] = pat(initial, i)
		}
		copy(e.content, e.store)
		e.faults, e.flushCheck = faults, !faults
		fin := func() {
			if faults {
				faultFinal(e)
			} else {
				bothFinal(e)
			}
		}
		x.Step(e.state, fin)
		n := g.n
		for o := m[first]; ; o = m[x.Choose(len(m), "")] {
			e.do(o)
			x.Outcome(core.NewH().B(e.content).B(e.store).Sum())
			if e.n != n {
				n = e.n
				m = contentMenu(g.bs, n, resizes)
			}
			x.Step(e.state, fin)
		}
	}
}

// bytePairs: blocks with every value of two bytes, in storage and written.
func bytePairs(x *core.X) {
	bs := core.Pick(x, "block size", 2, 1, 8)
	write := x.Bool("written")
	first := x.Choose(256, "first byte")
	x.Begin()
	if !write {
		for b := 0; b < 256; b++ {
			v := vPair + first + b<<8
			e := newEnv(x, bs, 2)
			for i := range e.store {
				e.store[i] = pat(v, i)
			}
			copy(e.content, e.store)
			e.readBack()
			e.do(op{kind: opMark, start: 0, len: 1})
			bothFinal(e)
		}
		return
	}
	e := newEnv(x, bs, 2)
	e.flushCheck = true
	for b := 0; b < 256; b++ {
		v := vPair + first + b<<8
		e.do(op{kind: opWrite, start: 0, len: bs, v: v})
		e.do(op{kind: opFlush})
		e.do(op{kind: opModify, start: 1, len: 1, v: v})
		e.do(op{kind: opRead, start: 0, len: 2 * bs})
		e.do(op{kind: opFlush})
	}
	bothFinal(e)
}

var bytePairsPart = &core.Part{Name: "byte-pairs", Mode: core.DFS, Bounds: "blocks of 1, 2 and 8 bytes with every value of two bytes, in storage at first, written, or modified in place", Body: bytePairs}

func cycleText(thorough bool) string {
	if thorough {
		return "cycles of up to three operations, repeated 600 times (up to two on a small cache: 70000 times), every write with new content"
	}
	return "cycles of one or two operations, repeated 600 times (single ones on a small cache: 70000 times), every write with new content"
}

func cycleMenu(bs, n int) []op {
	m := []op{
		{kind: opFlush}, {kind: opData},
		{kind: opRead, len: bs}, {kind: opRead, start: n - 1, len: 1}, {kind: opRead, len: n * bs},
		{kind: opWrite, len: bs, v: 1}, {kind: opWrite, start: n - 1, len: 1, v: 1}, {kind: opWrite, len: n * bs, v: 1},
		{kind: opModify, start: 0, len: 1, v: 1}, {kind: opModify, start: n - 1, len: 1, v: 1}, {kind: opModify, len: n, v: 1},
		{kind: opMark, start: n - 1, len: 1}, {kind: opMark, len: n},
		{kind: opSlice, start: n - 1, len: 1}, {kind: opRead}, {kind: opWrite},
	}
	for _, r := range []int{0, 1, 2} { // grow, shrink, to one block
		m = append(m, op{kind: opResize, start: r})
	}
	return m
}

// cycles repeats short sequences of operations many times.
func cycles(faults, thorough bool) func(x *core.X) {
	return func(x *core.X) {
		g := []geo{{1, 2}, {3, 9}}[x.Choose(2, "geometry")]
		m := cycleMenu(g.bs, g.n)
		a := x.Choose(len(m), "first operation")
		b := x.Choose(len(m)+1, "second operation")
		c := len(m)
		if thorough && b < len(m) {
			c = x.Choose(len(m)+1, "third operation")
		}
		failing := false
		if faults {
			failing = x.Bool("every second access fails")
		}
		x.Begin()
		reps := 600
		if c == len(m) && g.n == 2 && !faults && (b == len(m) || thorough) {
			reps = 70000
		}
		e := newEnv(x, g.bs, g.n)
		e.flushCheck = !faults
		step := func(k, i int) {
			o := cycleMenu(g.bs, max(1, e.n))[k] // positions follow the size
			switch {
			case o.kind == opResize:
				o = op{kind: opResize, len: []int{e.n + 1, max(1, e.n-1), 1}[o.start]}
				if o.len > 12 {
					o.len = 2
				}
			case o.v != 0:
				o.v += i
			}
			e.do(o)
		}
		for i := 0; i < reps; i++ {
			if failing && i%2 == 1 {
				e.failFetch, e.failFlush = 1, 1
			}
			step(a, i)
			if b < len(m) {
				step(b, i)
			}
			if c < len(m) {
				step(c, i)
			}
			e.failFetch, e.failFlush = 0, 0
			if failing && i%50 == 49 {
				faultFinal(e)
			}
		}
		if faults {
			faultFinal(e)
		} else {
			bothFinal(e)
		}
		x.OutcomeS(fmt.Sprint(g, a, b, c, failing))
	}
}
