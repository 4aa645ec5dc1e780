package main

import (
	"errors"
	"fmt"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	core "github.com/dargueta/disko/zzverif/core"
)

// Large caches, for behaviour that depends on amounts of data or on numbers of
// blocks that the exhaustive parts do not reach.

var (
	scaleGeos = []geo{{1, 65}, {2, 257}, {512, 40}, {3, 1025}, {4096, 9}, {1, 4097}, {512, 300}, {16, 4100}, {65536, 3}, {2, 65537}, {1 << 20, 2}}
	// scaleFills are the states from which the operations start.
	scaleFills = []string{"untouched", "everything read", "everything written by one WriteAt", "every block written on its own", "every second block written", "only the last block written", "one byte less than everything written", "the upper half modified through a slice"}
)

const scaleActions = 16

func (e *env) scaleFill(k int) {
	all := e.n * e.bs
	switch k {
	case 1:
		e.do(op{kind: opRead, len: all})
	case 2:
		e.do(op{kind: opWrite, len: all, v: 1})
	case 3, 4:
		for b := 0; b < e.n; b += k - 2 {
			e.do(op{kind: opWrite, start: b, len: e.bs, v: 1})
		}
	case 5:
		e.do(op{kind: opWrite, start: e.n - 1, len: e.bs, v: 1})
	case 6:
		if all > 1 {
			e.do(op{kind: opWrite, len: all - 1, v: 1})
		}
	case 7:
		e.do(op{kind: opModify, start: e.n / 2, len: e.n - e.n/2, v: 1})
	}
}

func (e *env) scaleAct(k int) {
	all := e.n * e.bs
	if e.n < 2 {
		k = min(k, 3)
	}
	switch k {
	case 0:
		e.do(op{kind: opFlush})
	case 1:
		if all > 0 {
			e.do(op{kind: opRead, len: all})
		}
	case 2:
		if all > 0 {
			e.do(op{kind: opWrite, len: all, v: 2})
		}
	case 3:
		e.do(op{kind: opData})
	case 4:
		e.do(op{kind: opRead, start: 1, len: all - e.bs - e.bs/2})
	case 5:
		e.do(op{kind: opWrite, start: 1, len: all - e.bs - e.bs/2, v: 3})
	case 6:
		e.do(op{kind: opModify, len: e.n, v: 4})
	case 7:
		e.do(op{kind: opMark, len: e.n})
	case 8:
		e.do(op{kind: opSlice, start: e.n / 3, len: e.n - e.n/3})
	case 9:
		e.do(op{kind: opWrite, start: e.n - 2, len: e.bs + 1, v: 5})
	case 10:
		e.do(op{kind: opMark, start: e.n - 1, len: 1})
	case 11:
		e.do(op{kind: opResize, len: e.n - 1})
	case 12:
		e.do(op{kind: opResize, len: e.n + 1})
	case 13:
		e.do(op{kind: opResize, len: e.n / 2})
	case 14:
		if 2*e.n <= maxBlocks {
			e.do(op{kind: opResize, len: 2 * e.n})
		}
	case 15:
		e.do(op{kind: opResize, len: 1})
	}
}

// scaleFinal is bothFinal with a bounded number of accesses.
func (e *env) scaleFinal() {
	look := func() {
		if e.n == 0 {
			return
		}
		e.do(op{kind: opRead, start: 0, len: e.n * e.bs})
		for _, b := range []int{0, 1, 7, 8, 63, 64, 255, 256, 4095, 4096, e.n / 2, e.n - 2, e.n - 1} {
			if b >= 0 && b < e.n {
				e.do(op{kind: opSlice, start: b, len: 1})
			}
		}
	}
	e.faults, e.failFetch, e.failFlush = false, 0, 0
	look()
	e.flushBack()
	look()
	e.do(op{kind: opData})
}

// scale explores short histories over large caches: a fill state, then `ops`
// operations out of the first `actions`.
func scale(ops, actions int, flushCheck bool) func(x *core.X) {
	return func(x *core.X) {
		g := scaleGeos[x.Choose(len(scaleGeos), "geometry")]
		fill := x.Choose(len(scaleFills), "fill")
		ks := make([]int, ops)
		for i := range ks {
			ks[i] = x.Choose(actions, "operation")
		}
		x.Begin()
		x.Logf("block size %d, %d blocks, %s", g.bs, g.n, scaleFills[fill])
		e := newEnv(x, g.bs, g.n)
		e.flushCheck = flushCheck
		e.scaleFill(fill)
		for _, k := range ks {
			e.scaleAct(k)
		}
		e.scaleFinal()
		x.OutcomeS(fmt.Sprint(g, fill, ks))
	}
}

// scaleFaults: the k-th block access of a large operation fails.
func scaleFaults(x *core.X) {
	g := scaleGeos[x.Choose(len(scaleGeos)-2, "geometry")]
	fill := x.Choose(len(scaleFills), "fill")
	k := x.Choose(scaleActions, "operation")
	at := []int{1, 2, g.n / 2, g.n - 1, g.n}
	flush := x.Bool("a block write fails")
	n := at[x.Choose(len(at), "which access fails")]
	x.Begin()
	x.Logf("block size %d, %d blocks, %s", g.bs, g.n, scaleFills[fill])
	e := newEnv(x, g.bs, g.n)
	e.scaleFill(fill)
	x.Logf("access %d fails (block write: %v)", n, flush)
	if flush {
		e.failFlush = n
	} else {
		e.failFetch = n
	}
	e.scaleAct(k)
	e.scaleAct(0)
	e.scaleFinal()
	x.OutcomeS(fmt.Sprint(g, fill, k, n, flush))
}

// scaleBounds: accesses past the end of large caches.
func scaleBounds(x *core.X) {
	g := scaleGeos[x.Choose(len(scaleGeos), "geometry")]
	fill := x.Choose(len(scaleFills), "fill")
	x.Begin()
	x.Logf("block size %d, %d blocks, %s", g.bs, g.n, scaleFills[fill])
	e := newEnv(x, g.bs, g.n)
	e.scaleFill(fill)
	refuse := func(what string, err error) {
		x.Assert(errors.Is(err, disko.ErrArgumentOutOfRange), "%s on a cache of %d blocks of %d bytes: %v", what, g.n, g.bs, err)
	}
	big := make([]byte, g.bs*(g.n+2))
	fetches, flushes := e.fetches, len(e.flushLog)
	for _, s := range []int{0, 1, 7, 8, 255, 256, g.n / 2, g.n - 1, g.n, g.n + 1} {
		if s > g.n+1 {
			continue
		}
		room := max(0, (g.n-s)*g.bs)
		for _, l := range []int{room + 1, room + g.bs, room + g.bs + 1} {
			if l > len(big) {
				continue
			}
			x.T()
			for i := range big[:l] {
				big[i] = 0xAB
			}
			_, err := e.cache.ReadAt(big[:l], c.LogicalBlock(s))
			refuse(fmt.Sprintf("ReadAt(%d bytes, %d)", l, s), err)
			x.Assert(big[0] == 0xAB && big[l-1] == 0xAB, "a refused ReadAt(%d bytes, %d) changed the buffer", l, s)
			_, err = e.cache.WriteAt(big[:l], c.LogicalBlock(s))
			refuse(fmt.Sprintf("WriteAt(%d bytes, %d)", l, s), err)
			refuse(fmt.Sprintf("CheckBounds(%d, %d)", s, l), e.cache.CheckBounds(c.LogicalBlock(s), uint(l)))
		}
		for _, k := range []int{max(0, g.n-s) + 1, max(0, g.n-s) + 2, g.n + 1, 2 * g.n} {
			if s+k <= g.n {
				continue
			}
			x.T()
			p, err := e.cache.GetSlice(c.LogicalBlock(s), uint(k))
			refuse(fmt.Sprintf("GetSlice(%d, %d)", s, k), err)
			x.Assert(len(p) == 0, "a refused GetSlice returned %d bytes", len(p))
			refuse(fmt.Sprintf("MarkBlockRangeDirty(%d, %d)", s, k), e.cache.MarkBlockRangeDirty(c.LogicalBlock(s), uint(k)))
		}
		if s < g.n {
			x.Assert(e.cache.CheckBounds(c.LogicalBlock(s), uint(room)) == nil, "CheckBounds(%d, %d) refused a valid access to %d blocks", s, room, g.n)
		}
	}
	x.Assert(e.fetches == fetches && len(e.flushLog) == flushes, "refused accesses touched the storage")
	e.flushCheck = true
	e.do(op{kind: opFlush})
	e.scaleFinal()
	x.OutcomeS(fmt.Sprint(g, fill))
}

// scaleStreams: the same over streams and slices.
func scaleStreams(x *core.X) {
	kind := wrapKind(x.Choose(3, "wrapper"))
	g := scaleGeos[x.Choose(len(scaleGeos), "geometry")]
	rel := core.Pick(x, "relative size", 0, -1, 100)
	style := x.Choose(4, "style")
	fill := x.Choose(4, "fill")
	grow := x.Choose(4, "size change")
	x.Begin()
	if style > 0 && g.bs*g.n > 1<<18 && style < 3 {
		x.Abandon() // single-byte reads
	}
	e := newStreamEnv(x, kind, g.bs, g.n, max(0, g.bs*g.n+rel), style, true, true, false)
	x.Logf("wrapper %d, block size %d, %d blocks, stream of %d bytes, fill %d, size change %d", kind, g.bs, e.n, g.bs*g.n+rel, fill, grow)
	write := func(b, n, v int) {
		lo := b * e.bs
		buf := make([]byte, n)
		for i := range buf {
			buf[i] = pat(v, lo+i)
		}
		k, err := e.cache.WriteAt(buf, c.LogicalBlock(b))
		if e.ok("WriteAt", err) {
			x.Assert(k == n, "WriteAt returned %d of %d", k, n)
			copy(e.content[lo:], buf)
			for i := b; i*e.bs < lo+n; i++ {
				e.pending[i] = true
			}
		}
	}
	if e.n == 0 {
		x.Abandon()
	}
	switch fill {
	case 1:
		write(0, e.n*e.bs, 1)
	case 2:
		for b := 0; b < e.n; b += 2 {
			write(b, e.bs, 1)
		}
	case 3:
		write(e.n-1, 1, 1)
	}
	e.final()
	if kind != wrapSlice {
		switch grow {
		case 1:
			e.resizeTo(e.n + 1)
		case 2:
			e.resizeTo(2 * e.n)
		case 3:
			e.resizeTo((e.n + 1) / 2)
		}
		e.final()
		if e.n > 1 {
			write(e.n-2, e.bs+1, 3)
		}
	}
	e.final()
	x.OutcomeS(fmt.Sprint(kind, g, rel, style, fill, grow))
}

const scaleText = "caches of (block size, blocks) [{1 65} {2 257} {512 40} {3 1025} {4096 9} {1 4097} {512 300} {16 4100} {65536 3} {2 65537} {1048576 2}], 8 initial states (untouched, loaded, written as a whole, block by block, alternating, ...)"
