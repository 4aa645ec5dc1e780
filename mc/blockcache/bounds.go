package main

import (
	"bytes"
	"errors"
	"math"
	"math/big"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	core "github.com/dargueta/disko/zzverif/core"
)

func boundsParts(t bool) []*core.Part {
	return []*core.Part{
		{Name: "ranges", Mode: core.DFS, Bounds: map[bool]string{false: "block sizes {1,2,3,4,512}, {0,1,2,3,8,9,17} blocks", true: "block sizes {1,2,3,4,5,7,8,16,128,512}, 0-17 and 64 blocks"}[t] + ", cold/warm/dirty/resized caches, every access kind, every start and length around every boundary up to the largest representable values", Body: bounds(t)},
		{Name: "block-counts", Mode: core.DFS, Bounds: "block sizes 1-9, 127-129, 511-513, 4096, 2^31-1..2^31+1; byte counts 0-4200, around every multiple of large powers of two and the largest values", Body: minBlocks},
		{Name: "bounds-scale", Mode: core.DFS, Bounds: scaleText + ", accesses past the end by a byte, a block, and more", Body: scaleBounds},
		{Name: "refusal-in-history", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: "2-block caches: an out-of-range access at every point of every history to the depth has no effect", Body: refusals},
	}
}

var bigValues = []uint64{
	1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<33 + 1,
	1<<62 - 1, 1 << 62, 1<<63 - 2, 1<<63 - 1, 1 << 63, 1<<63 + 1,
	math.MaxUint64 - 2, math.MaxUint64 - 1, math.MaxUint64,
}

// around returns interesting block numbers or counts for a cache.
func around(bs, n uint64) []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	add := func(v uint64) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for i := uint64(0); i <= min(n, 9)+2; i++ {
		add(i)
	}
	for d := uint64(0); d < 5; d++ {
		add(n + 2 - min(d, n+2))
		add(n/2 + d)
	}
	for _, v := range bigValues {
		add(v)
		add(v/bs - 1)
		add(v / bs)
		add(v/bs + 1)
		add(v - n)
		add(v - n + 1)
	}
	// Values which wrap around to something small when multiplied by bs.
	q := math.MaxUint64/bs + 1
	for d := uint64(0); d <= 2; d++ {
		add(q + d)
		add(q - d)
	}
	return out
}

// aroundBytes returns interesting byte counts.
func aroundBytes(bs, n uint64) []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	add := func(v uint64) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for b := uint64(0); b <= n+1; b++ {
		if b > 4 && b+3 < n {
			continue
		}
		for d := uint64(0); d < 3; d++ {
			add(b*bs + d)
			if b > 0 {
				add(b*bs - d)
			}
		}
	}
	for _, v := range bigValues {
		for d := uint64(0); d < 3; d++ {
			add(v - d)
			add(v/bs*bs - d)
			add(v/bs*bs + d)
		}
	}
	return out
}

func ceilDiv(a, b uint64) uint64 {
	q := new(big.Int).Add(new(big.Int).SetUint64(a), new(big.Int).SetUint64(b-1))
	q.Div(q, new(big.Int).SetUint64(b))
	return q.Uint64()
}

func bounds(t bool) func(x *core.X) {
	sizes, counts := []int{2, 1, 3, 4, 512}, []int{2, 0, 1, 3, 8, 9, 17}
	if t {
		sizes = []int{2, 1, 3, 4, 5, 7, 8, 16, 128, 512}
		counts = []int{2, 0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 64}
	}
	return func(x *core.X) { boundsBody(x, sizes, counts) }
}

func boundsBody(x *core.X, sizes, counts []int) {
	bs := core.Pick(x, "block size", sizes...)
	n := core.Pick(x, "blocks", counts...)
	prep := x.Choose(4, "cold/warm/dirty/resized")
	access := x.Choose(5, "CheckBounds/GetSlice/MarkDirty/ReadAt/WriteAt")
	x.Begin()
	e := newEnv(x, bs, n)
	switch prep {
	case 1:
		e.do(op{kind: opData})
	case 2:
		if n > 0 {
			e.do(op{kind: opWrite, start: n - 1, len: 1, v: 1})
		}
	case 3:
		e.do(op{kind: opResize, len: 20})
		e.do(op{kind: opResize, len: n})
	}
	starts := around(uint64(bs), uint64(n))
	start := starts[x.Choose(len(starts), "start")]
	var length uint64 // in bytes
	var blocks uint64
	switch access {
	case 0:
		l := aroundBytes(uint64(bs), uint64(n))
		length = l[x.Choose(len(l), "bytes")]
		blocks = ceilDiv(length, uint64(bs))
	case 1, 2:
		l := around(uint64(bs), uint64(n))
		blocks = l[x.Choose(len(l), "count")]
	default:
		limit := uint64((n + 2) * bs)
		var l []uint64
		for _, v := range aroundBytes(uint64(bs), uint64(n)) {
			if v <= limit {
				l = append(l, v)
			}
		}
		length = l[x.Choose(len(l), "bytes")]
		blocks = ceilDiv(length, uint64(bs))
	}
	want := start < uint64(n) && blocks <= uint64(n)-start
	x.Logf("block size %d, %d blocks: access kind %d at block %d, %d bytes / %d blocks: expect accepted=%v", bs, n, access, start, length, blocks, want)
	x.T()

	before := e.state()
	e.fetches, e.resizes, e.flushLog = 0, 0, nil
	buf := make([]byte, 0)
	if access == 3 || access == 4 {
		buf = make([]byte, length)
		for i := range buf {
			buf[i] = pat(3, i)
		}
	}
	orig := append([]byte(nil), buf...)
	var err error
	count := -1
	var slice []byte
	switch access {
	case 0:
		err = e.cache.CheckBounds(c.LogicalBlock(start), uint(length))
	case 1:
		slice, err = e.cache.GetSlice(c.LogicalBlock(start), uint(blocks))
	case 2:
		err = e.cache.MarkBlockRangeDirty(c.LogicalBlock(start), uint(blocks))
	case 3:
		count, err = e.cache.ReadAt(buf, c.LogicalBlock(start))
	case 4:
		count, err = e.cache.WriteAt(buf, c.LogicalBlock(start))
	}
	x.OutcomeS(errString(err))
	if want {
		x.Assert(err == nil, "access kind %d to block %d, %d bytes / %d blocks of a cache of %d blocks of %d bytes was refused: %v", access, start, length, blocks, n, bs, err)
		switch access {
		case 1:
			x.Assert(uint64(len(slice)) == blocks*uint64(bs), "GetSlice(%d, %d) returned %d bytes", start, blocks, len(slice))
		case 3:
			x.Assert(count == len(buf) && bytes.Equal(buf, e.content[start*uint64(bs):start*uint64(bs)+length]), "ReadAt returned %d, % x", count, buf)
		case 4:
			x.Assert(count == len(buf), "WriteAt returned %d of %d", count, len(buf))
			copy(e.content[start*uint64(bs):], buf)
		}
		x.Assert(len(e.flushLog) == 0 && e.resizes == 0, "the access wrote to or resized the storage")
		e.readBack()
		return
	}
	x.Assert(err != nil, "access kind %d to block %d, %d bytes / %d blocks of a cache of %d blocks of %d bytes was accepted", access, start, length, blocks, n, bs)
	x.Assert(errors.Is(err, disko.ErrArgumentOutOfRange), "the refused access returned %v", err)
	x.Assert(count <= 0, "a refused access reported %d bytes", count)
	x.Assert(len(slice) == 0, "a refused GetSlice returned %d bytes", len(slice))
	x.Assert(bytes.Equal(buf, orig), "a refused access changed the buffer")
	x.Assert(e.fetches == 0 && len(e.flushLog) == 0 && e.resizes == 0, "a refused access touched the storage")
	x.Assert(e.state() == before, "a refused access changed the cache")
}

func errString(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func minBlocks(x *core.X) {
	bs := core.Pick(x, "block size", uint64(1), 2, 3, 4, 5, 6, 7, 8, 9, 127, 128, 129, 511, 512, 513, 4096, 1<<31-1, 1<<31, 1<<31+1)
	x.Begin()
	e := newEnv(x, 1, 1)
	if bs < 1<<20 {
		e = newEnv(x, int(bs), 1)
	} else {
		e = newEnvNoData(x, bs)
	}
	check := func(v uint64) {
		x.T()
		got := e.cache.GetMinBlocksForSize(uint(v))
		x.Assert(uint64(got) == ceilDiv(v, bs), "GetMinBlocksForSize(%d) with %d-byte blocks returned %d, expected %d", v, bs, got, ceilDiv(v, bs))
	}
	if x.Choose(2, "") == 0 {
		for v := uint64(0); v < 4200; v++ {
			check(v)
		}
	}
	for sh := 0; sh < 64; sh++ {
		p := uint64(1) << sh
		for d := uint64(0); d < 3; d++ {
			check(p + d)
			check(p - d)
			check(p/bs*bs + d)
			check(p/bs*bs - d)
		}
	}
	for d := uint64(0); d < 600; d++ {
		check(math.MaxUint64 - d)
	}
	for _, v := range bigValues {
		for d := uint64(0); d < 3; d++ {
			check(v/bs*bs + d)
			check(v/bs*bs - d)
		}
	}
}

// refusals: a refused access inside a history changes nothing.
func refusals(x *core.X) {
	bs := core.Pick(x, "block size", 2, 3)
	n := 2
	x.Begin()
	e := newEnv(x, bs, n)
	m := menu(bs, n, true, 1, []int{1, 2, 3})
	x.Step(e.state, func() { bothFinal(e) })
	for {
		if e.n != n {
			n = e.n
			m = menu(bs, n, true, 1, []int{1, 2, 3})
		}
		e.do(m[x.Choose(len(m), "")])
		before := e.state()
		e.fetches, e.flushLog = 0, nil
		n := e.n
		b := make([]byte, n*bs+1)
		var errs [6]error
		_, errs[0] = e.cache.ReadAt(b, 0)
		_, errs[1] = e.cache.WriteAt(b, 0)
		_, errs[2] = e.cache.GetSlice(c.LogicalBlock(n), 1)
		errs[3] = e.cache.MarkBlockRangeDirty(c.LogicalBlock(n-1), 2)
		_, errs[4] = e.cache.WriteAt(b[:1], c.LogicalBlock(n))
		_, errs[5] = e.cache.ReadAt(b[:bs+1], c.LogicalBlock(n-1))
		for i, err := range errs {
			x.Assert(errors.Is(err, disko.ErrArgumentOutOfRange), "out-of-range access %d returned %v", i, err)
		}
		x.Assert(e.fetches == 0 && len(e.flushLog) == 0 && e.state() == before, "an out-of-range access had an effect")
		x.Step(e.state, func() { bothFinal(e) })
	}
}
