package main

import (
	"bytes"
	"fmt"

	c "github.com/dargueta/disko/file_systems/common"
	bc "github.com/dargueta/disko/file_systems/common/blockcache"
	core "github.com/dargueta/disko/zzverif/core"
)

type geo struct{ bs, n int }

// histories builds a body exploring operation histories over the geometries.
func histories(gs []geo, full bool, versions int, resizes []int, faults, flushCheck bool, final func(e *env)) func(x *core.X) {
	return histories2(gs, full, versions, resizes, faults, flushCheck, false, final)
}

// histories2: the caches may be without a resize callback.
func histories2(gs []geo, full bool, versions int, resizes []int, faults, flushCheck, fixed bool, final func(e *env)) func(x *core.X) {
	return func(x *core.X) {
		g := gs[x.Choose(len(gs), "geometry")]
		x.Logf("block size %d, %d blocks", g.bs, g.n)
		m := menu(g.bs, g.n, full, versions, resizes)
		x.Config()
		first := x.Choose(len(m), "first operation")
		x.Begin()
		e := newEnv(x, g.bs, g.n)
		if fixed {
			e.fixed = true
			e.cache = bc.New(uint(g.bs), uint(g.n), e.fetch, e.flush, nil)
		}
		e.faults, e.flushCheck = faults, flushCheck
		fin := func() { final(e) }
		x.Step(e.state, fin)
		e.do(m[first])
		x.Step(e.state, fin)
		n := g.n
		for {
			if e.n != n {
				n = e.n
				m = menu(g.bs, n, full, versions, resizes)
			}
			e.do(m[x.Choose(len(m), "")])
			x.Outcome(core.NewH().B(e.content).B(e.store).Sum())
			x.Step(e.state, fin)
		}
	}
}

func readFinal(e *env)  { e.readBack() }
func flushFinal(e *env) { e.flushBack() }
func bothFinal(e *env)  { e.readBack(); e.flushBack(); e.readBack() }
func faultFinal(e *env) { e.flushBack(); e.readBack() }

func pick(t bool, quick, thorough int) int {
	if t {
		return thorough
	}
	return quick
}

func main() {
	small := []geo{{1, 2}, {2, 2}, {1, 3}}
	mid := []geo{{3, 2}, {2, 3}, {4, 2}}
	large := []geo{{1, 9}, {5, 8}, {8, 17}, {128, 3}, {512, 2}, {16, 33}, {7, 65}}
	fixed := "block sizes x block counts "
	core.Main(
		core.Property{ID: "C01", Parts: func(t bool) []*core.Part {
			return []*core.Part{
				{Name: "reachable-small", Mode: core.BFS, Depth: pick(t, 8, 12), Bounds: fixed + fmt.Sprint(small) + ", every operation with every start and length, 2 write versions, all reachable states to the depth", Body: histories(small, true, 2, nil, false, false, readFinal)},
				{Name: "histories-mid", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: fixed + fmt.Sprint(mid) + ", every operation with every start and length, every history to the depth", Body: histories(mid, true, 1, nil, false, false, readFinal)},
				{Name: "histories-large", Mode: core.DFS, Depth: 2, Bounds: fixed + fmt.Sprint(large) + ", operations at structural positions, every history to the depth", Body: histories(large, false, 1, nil, false, false, readFinal)},
				{Name: "stacked", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: "a cache whose storage is another cache with a different block size (callbacks re-enter the implementation), every history to the depth", Body: stacked(readFinal)},
				{Name: "held-slices", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: "slices from GetSlice and Data kept while other operations (also resizes that grow the cache, after which they are fetched anew) happen, then modified and marked, or moved inside the cache; block sizes x block counts [{2 2} {1 3} {3 9}]", Body: heldSlices},
				{Name: "scale", Mode: core.DFS, Bounds: scaleText + fmt.Sprintf(", then every sequence of %d of 11 operations", 2), Body: scale(2, 11, false)},
				{Name: "far-blocks", Mode: core.DFS, Bounds: farBounds, Body: far(false)},
				bytePairsPart,
				{Name: "contents", Mode: core.BFS, Depth: pick(t, 5, 7), Bounds: contentsText + "; block sizes x block counts [{1 2} {4 2} {3 9} {512 2}]", Body: contents(false, false)},
				{Name: "cycles", Mode: core.DFS, Bounds: cycleText(t), Body: cycles(false, t)},
			}
		}},
		core.Property{ID: "C02", Parts: func(t bool) []*core.Part {
			return []*core.Part{
				{Name: "reachable-small", Mode: core.BFS, Depth: pick(t, 8, 12), Bounds: fixed + fmt.Sprint(small) + ", every operation, storage compared after every block write (crash point) and every flush", Body: histories(small, true, 2, nil, false, true, flushFinal)},
				{Name: "reachable-resize", Mode: core.BFS, Depth: pick(t, 7, 9), Bounds: "block sizes x block counts [{1 2} {2 1} {1 0}], every operation and resizes to 0-3 blocks", Body: histories([]geo{{1, 2}, {2, 1}, {1, 0}}, true, 1, []int{0, 1, 2, 3}, false, true, flushFinal)},
				{Name: "histories-mid", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: fixed + fmt.Sprint(mid) + ", every history to the depth", Body: histories(mid, true, 1, nil, false, true, flushFinal)},
				{Name: "histories-large", Mode: core.DFS, Depth: 2, Bounds: fixed + fmt.Sprint(large) + ", operations at structural positions", Body: histories(large, false, 1, nil, false, true, flushFinal)},
				{Name: "stacked", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: "a cache whose storage is another cache with a different block size (callbacks re-enter the implementation), every history to the depth", Body: stacked(flushFinal)},
				{Name: "scale", Mode: core.DFS, Bounds: scaleText + fmt.Sprintf(", then every sequence of %d of 16 operations", pick(t, 1, 2)), Body: scale(pick(t, 1, 2), scaleActions, true)},
				{Name: "far-blocks", Mode: core.DFS, Bounds: farBounds, Body: far(false)},
				bytePairsPart,
				{Name: "contents", Mode: core.BFS, Depth: pick(t, 5, 7), Bounds: contentsText + "; block sizes x block counts [{1 2} {4 2} {3 9} {512 2}], with resizes", Body: contents(true, false)},
				{Name: "cycles", Mode: core.DFS, Bounds: cycleText(t), Body: cycles(false, t)},
			}
		}},
		core.Property{ID: "C03", Parts: boundsParts},
		core.Property{ID: "C04", Parts: func(t bool) []*core.Part {
			return []*core.Part{
				{Name: "faults-reachable", Mode: core.BFS, Depth: pick(t, 6, 8), Budget: 2, Bounds: "block sizes x block counts [{1 2} {2 2}], every operation and resizes to 0-3 blocks, every placement of at most 2 faults (error, error with garbage in the buffer, torn block)", Body: histories([]geo{{1, 2}, {2, 2}}, true, 1, []int{1, 3}, true, false, faultFinal)},
				{Name: "faults-histories", Mode: core.DFS, Depth: pick(t, 3, 3), Budget: pick(t, 1, 3), Bounds: fixed + fmt.Sprint(mid) + ", every history to the depth, every placement of faults", Body: histories(mid, true, 1, []int{0, 2, 4}, true, false, faultFinal)},
				{Name: "faults-large", Mode: core.DFS, Depth: 2, Budget: 1, Bounds: "larger caches, operations at structural positions, every placement of one fault", Body: histories([]geo{{3, 9}, {5, 17}}, false, 1, []int{7, 8, 9, 18}, true, false, faultFinal)},
				{Name: "faults-scale", Mode: core.DFS, Bounds: scaleText + ", then one of 16 operations, with the first, second, middle, last but one or last block access failing (a torn block for writes)", Body: scaleFaults},
				{Name: "contents", Mode: core.BFS, Depth: pick(t, 3, 5), Budget: 1, Bounds: contentsText + "; block sizes x block counts [{1 2} {4 2} {3 9} {512 2}], with resizes", Body: contents(true, true)},
				{Name: "cycles", Mode: core.DFS, Bounds: cycleText(t) + "; also with every second access failing", Body: cycles(true, t)},
			}
		}},
		core.Property{ID: "C05", Parts: func(t bool) []*core.Part {
			return []*core.Part{
				{Name: "resize-reachable", Mode: core.BFS, Depth: pick(t, 5, 8), Budget: 1, Bounds: "block sizes x block counts [{1 1} {2 1} {1 2} {1 0} {2 2}], every operation and resizes to 0-3 blocks, at most one refused resize or fault", Body: histories([]geo{{1, 1}, {2, 1}, {1, 2}, {1, 0}, {2, 2}}, true, 1, []int{0, 1, 2, 3}, true, false, bothFinal)},
				{Name: "resize-bytes", Mode: core.DFS, Depth: 2, Budget: 1, Bounds: "caches of 1-33 blocks, resizes over every byte boundary of the block maps, operations at structural positions", Body: histories([]geo{{1, 7}, {2, 8}, {1, 9}, {3, 16}, {2, 1}, {512, 2}}, false, 1, []int{0, 1, 7, 8, 9, 15, 16, 17, 24, 33, 64, 65}, true, false, bothFinal)},
				{Name: "scale", Mode: core.DFS, Bounds: scaleText + fmt.Sprintf(", then every sequence of %d of 16 operations", pick(t, 1, 2)), Body: scale(pick(t, 1, 2), scaleActions, true)},
				{Name: "fixed", Mode: core.BFS, Depth: pick(t, 5, 7), Bounds: "caches without a resize callback: block sizes x block counts [{1 2} {2 1} {1 0} {2 2}], every operation and resizes to 0-3 blocks", Body: histories2([]geo{{1, 2}, {2, 1}, {1, 0}, {2, 2}}, true, 1, []int{0, 1, 2, 3}, false, true, true, bothFinal)},
				{Name: "resize-chains", Mode: core.DFS, Depth: pick(t, 5, 6), Bounds: "chains of resizes with single writes and flushes", Body: resizeChains},
				{Name: "contents", Mode: core.BFS, Depth: pick(t, 5, 7), Bounds: contentsText + "; block sizes x block counts [{1 2} {4 2} {3 9} {512 2}], with resizes", Body: contents(true, false)},
				{Name: "cycles", Mode: core.DFS, Bounds: cycleText(t), Body: cycles(false, t)},
			}
		}},
		core.Property{ID: "C06", Parts: streamParts},
	)
}

// resizeChains explores long chains of resizes with few other operations.
func resizeChains(x *core.X) {
	bs := core.Pick(x, "block size", 1, 4)
	n := core.Pick(x, "blocks", 1, 8, 9)
	x.Begin()
	e := newEnv(x, bs, n)
	e.flushCheck = true
	x.Step(e.state, func() { bothFinal(e) })
	for {
		switch k := x.Choose(5+7, "operation"); k {
		case 0:
			e.do(op{kind: opFlush})
		case 1:
			e.do(op{kind: opData})
		case 2:
			if e.n > 0 {
				e.do(op{kind: opWrite, start: e.n - 1, len: bs, v: 1})
			}
		case 3:
			if e.n > 0 {
				e.do(op{kind: opWrite, start: 0, len: 1, v: 2})
			}
		case 4:
			if e.n > 0 {
				e.do(op{kind: opRead, start: e.n - 1, len: bs})
			}
		default:
			e.do(op{kind: opResize, len: []int{0, 1, 2, 7, 8, 9, 17}[k-5]})
		}
		x.Step(e.state, func() { bothFinal(e) })
	}
}

// stacked: the storage of one cache is another cache.
func stacked(final func(e *env)) func(x *core.X) {
	return func(x *core.X) {
		lower := newEnv(x, core.Pick(x, "lower block size", 4, 2), 4)
		bs := 2
		n := 3
		m := menu(bs, n, true, 1, nil)
		x.Config()
		first := x.Choose(len(m), "first operation")
		x.Begin()
		e := newEnv(x, bs, n)
		copy(e.store, lower.content)
		copy(e.content, lower.content)
		per := lower.bs / bs
		e.cache = bc.New(uint(bs), uint(n), func(b c.LogicalBlock, buf []byte) error {
			if err := e.fetch(b, buf); err != nil {
				return err
			}
			tmp := make([]byte, lower.bs)
			if _, err := lower.cache.ReadAt(tmp, b/c.LogicalBlock(per)); err != nil {
				return err
			}
			copy(buf, tmp[int(b)%per*bs:])
			return nil
		}, func(b c.LogicalBlock, buf []byte) error {
			if err := e.flush(b, buf); err != nil {
				return err
			}
			s, err := lower.cache.GetSlice(b/c.LogicalBlock(per), 1)
			if err != nil {
				return err
			}
			copy(s[int(b)%per*bs:], buf)
			copy(lower.content[int(b)*bs:], buf)
			lower.pending[int(b)/per] = true
			if err := lower.cache.MarkBlockRangeDirty(b/c.LogicalBlock(per), 1); err != nil {
				return err
			}
			return lower.cache.Flush()
		}, nil)
		fin := func() {
			final(e)
			lower.do(op{kind: opFlush})
			lower.readBack()
		}
		x.Step(nil, fin)
		e.do(m[first])
		x.Step(nil, fin)
		for {
			e.do(m[x.Choose(len(m), "")])
			lower.do(op{kind: opRead, start: 1, len: lower.bs})
			x.Step(nil, fin)
		}
	}
}

// heldSlices: a slice into the cache stays valid, and shows the content, until
// the cache is resized.
func heldSlices(x *core.X) {
	g := []geo{{2, 2}, {1, 3}, {3, 9}}[x.Choose(3, "geometry")]
	x.Logf("block size %d, %d blocks", g.bs, g.n)
	x.Config()
	const ops = 18
	first := x.Choose(ops, "first operation")
	x.Begin()
	e := newEnv(x, g.bs, g.n)
	e.flushCheck = true
	var held []byte
	from, version := 0, 0
	fin := func() { bothFinal(e) }
	x.Step(nil, fin)
	for k := first; ; k = x.Choose(ops, "") {
		last := e.n - 1
		switch k {
		case 0, 1, 2: // hold one block, the last one, or two
			from = []int{0, last, last - 1}[k]
			count := []int{1, 1, 2}[k]
			s, err := e.cache.GetSlice(c.LogicalBlock(from), uint(count))
			x.Logf("hold GetSlice(%d, %d): %v", from, count, err)
			x.Assert(err == nil, "GetSlice(%d, %d): %v", from, count, err)
			held = s
		case 3:
			s, err := e.cache.Data()
			x.Logf("hold Data(): %v", err)
			x.Assert(err == nil, "Data(): %v", err)
			held, from = s, 0
		case 4, 5: // modify all or the first byte of what is held, then mark it
			if held == nil {
				x.Abandon()
			}
			version++
			n := len(held)
			if k == 5 {
				n = 1
			}
			x.Logf("modify %d held bytes and mark them", n)
			for i := 0; i < n; i++ {
				held[i] = pat(7+version, from*e.bs+i)
				e.content[from*e.bs+i] = held[i]
			}
			count := (n + e.bs - 1) / e.bs
			err := e.cache.MarkBlockRangeDirty(c.LogicalBlock(from), uint(count))
			x.Assert(err == nil, "MarkBlockRangeDirty(%d, %d): %v", from, count, err)
			for b := from; b < from+count; b++ {
				e.pending[b] = true
			}
		case 6:
			e.do(op{kind: opFlush})
		case 7:
			e.do(op{kind: opWrite, start: 0, len: 1, v: 1})
		case 8:
			e.do(op{kind: opWrite, start: last, len: e.bs, v: 2})
		case 9:
			e.do(op{kind: opRead, start: 0, len: e.n * e.bs})
		case 10:
			e.do(op{kind: opRead, start: last, len: 1})
		case 11:
			e.do(op{kind: opMark, start: last, len: 1})
		case 12:
			e.do(op{kind: opData})
		case 13, 14:
			e.do(op{kind: opResize, len: max(2, e.n+1-2*(k-13))})
			held = nil
		case 15, 16, 17: // move blocks inside the cache, source and destination overlapping
			data, err := e.cache.Data()
			x.Assert(err == nil, "Data(): %v", err)
			size := (e.n-1)*e.bs + (e.bs - 1) // the last block partially
			var n int
			from, to := 0, 1
			switch k {
			case 15:
				n, err = e.cache.WriteAt(data[:(e.n-1)*e.bs], 1)
				size = (e.n - 1) * e.bs
			case 16:
				from, to = 1, 0
				size -= e.bs
				n, err = e.cache.WriteAt(data[e.bs:e.bs+size], 0)
			case 17:
				from, to = 0, 1
				size -= e.bs
				n, err = e.cache.ReadAt(data[e.bs:e.bs+size], 0)
			}
			x.Logf("move %d bytes of the cache's own data from block %d to %d: %d, %v", size, from, to, n, err)
			x.Assert(err == nil && n == size, "moving %d bytes of the cache's own data: %d, %v", size, n, err)
			copy(e.content[to*e.bs:to*e.bs+size], e.content[from*e.bs:])
			count := (size + e.bs - 1) / e.bs
			if k == 17 {
				err = e.cache.MarkBlockRangeDirty(1, uint(count))
				x.Assert(count == 0 || err == nil, "MarkBlockRangeDirty(1, %d): %v", count, err)
			}
			for b := to; b < to+count; b++ {
				e.pending[b] = true
			}
		}
		if held != nil {
			lo := from * e.bs
			x.Assert(bytes.Equal(held, e.content[lo:lo+len(held)]), "a slice held since block %d was requested shows % x, the content is % x", from, held, e.content[lo:lo+len(held)])
		}
		x.Step(nil, fin)
	}
}
