package main

import (
	"math"

	"github.com/dargueta/disko"
	bs "github.com/dargueta/disko/file_systems/common/basicstream"
	bc "github.com/dargueta/disko/file_systems/common/blockcache"
	core "github.com/dargueta/disko/zzverif/core"
)

// fixed: the storage under the stream cannot grow, or cannot be resized at all.
func fixed(cs []cfg, menu func(c cfg) []op) func(x *core.X) {
	return func(x *core.X) {
		c := cs[x.Choose(len(cs), "configuration")]
		kind := x.Choose(3, "storage")
		m := menu(c)
		x.Config()
		first := x.Choose(len(m), "first operation")
		x.Begin()
		e := newEnv(x, c.bsize, c.blocks, c.size, c.flags, true)
		switch kind {
		case 0:
			x.Logf("a cache without a resize callback")
			e.cache = bc.New(uint(c.bsize), uint(c.blocks), e.fetch, e.flush, nil)
			e.fixed = true
		case 1:
			x.Logf("a cache around a slice")
			e.cache = bc.WrapSlice(e.store, uint(c.bsize))
			e.fixed = true
		case 2:
			x.Logf("storage that can shrink, but not grow")
			e.limit = c.blocks
		}
		if !e.open() {
			return
		}
		blocks := e.cache.TotalBlocks()
		step := func() {
			x.Assert(!e.fixed || e.cache.TotalBlocks() == blocks, "the cache of %d blocks has %d blocks now", blocks, e.cache.TotalBlocks())
			x.Step(e.state, e.final)
		}
		step()
		o := m[first]
		for {
			e.do(o)
			x.Outcome(core.NewH().B(e.data).B(e.store).I(int(e.pos)).Sum())
			step()
			o = m[x.Choose(len(m), "")]
		}
	}
}

// creation: streams of every size over a cache.
func creation(x *core.X) {
	bsize := core.Pick(x, "block size", 1, 2, 3, 512)
	blocks := x.Choose(4, "blocks")
	x.Begin()
	capacity := bsize * blocks
	flags := core.Pick(x, "flags", allFlags()...)
	for _, size := range []int64{math.MinInt64, -1 << 32, -512, -2, -1, 0, 1, int64(capacity) - 1, int64(capacity), int64(capacity) + 1, int64(capacity) + int64(bsize), 1 << 32, 1<<32 + 1, 1<<32 + int64(capacity), math.MaxInt64} {
		e := newEnv(x, bsize, blocks, min(max(int(size), 0), capacity), flags, true)
		if size >= 0 && size <= int64(capacity) {
			if e.open() {
				e.final()
			}
			continue
		}
		x.T()
		s, err := bs.New(size, e.cache, flags)
		x.Assert(err != nil, "a stream of %d bytes over %d blocks of %d bytes was created: %v", size, blocks, bsize, s)
		x.Assert(e.writes+e.resizes == 0, "the refused creation of a stream of %d bytes changed the storage", size)
		x.Assert(flags&disko.O_TRUNC == 0 || e.cache.TotalBlocks() == uint(blocks), "the refused creation of a stream of %d bytes changed the cache", size)
	}
}
