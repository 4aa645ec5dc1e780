package main

import (
	"fmt"
	"math"

	"github.com/dargueta/disko"
	core "github.com/dargueta/disko/zzverif/core"
)

type cfg struct {
	bsize, blocks, size int
	flags               disko.IOFlags
}

const (
	rw    = disko.O_RDWR
	ro    = disko.O_RDONLY
	wo    = disko.O_WRONLY
	app   = disko.O_APPEND
	syn   = disko.O_SYNC
	trunc = disko.O_TRUNC
)

// sizes lists every storage/file size combination of a block size.
func cfgs(bsizes []int, maxBlocks int, flags ...disko.IOFlags) []cfg {
	var out []cfg
	for _, f := range flags {
		for _, b := range bsizes {
			for n := 0; n <= maxBlocks; n++ {
				for s := 0; s <= n*b; s++ {
					out = append(out, cfg{b, n, s, f})
				}
			}
		}
	}
	return out
}

// menus

func full(limit int, versions int) []op {
	m := []op{{k: opSync}}
	for n := 0; n <= limit; n++ {
		m = append(m, op{k: opRead, n: n})
		for v := 1; v <= versions; v++ {
			m = append(m, op{k: opWrite, n: n, v: v})
		}
		for off := 0; off <= limit; off++ {
			m = append(m, op{k: opReadAt, n: n, off: int64(off)})
			if off+n <= limit {
				m = append(m, op{k: opWriteAt, n: n, off: int64(off), v: 1 + versions})
			}
		}
		m = append(m, op{k: opTruncate, off: int64(n)})
		m = append(m, op{k: opSeek, off: int64(n)})
	}
	m = append(m, op{k: opWriteString, n: 2, v: versions + 2})
	for _, d := range []int64{-2, -1, 0, 1, 2} {
		m = append(m, op{k: opSeek, off: d, whence: 1}, op{k: opSeek, off: d, whence: 2})
	}
	m = append(m, op{k: opSeek, off: -1}, op{k: opSeek, whence: 3}, op{k: opSeek, whence: -1})
	return m
}

// medium has fewer lengths than full.
func medium(b int, limit int) []op {
	m := []op{{k: opSync}}
	seen := map[int]bool{}
	for _, n := range []int{0, 1, b - 1, b, b + 1, 2 * b, 2*b + 1, limit} {
		if n < 0 || n > limit || seen[n] {
			continue
		}
		seen[n] = true
		m = append(m, op{k: opRead, n: n}, op{k: opWrite, n: n, v: 1})
		m = append(m, op{k: opTruncate, off: int64(n)})
		m = append(m, op{k: opSeek, off: int64(n)})
		for _, off := range []int{0, 1, b - 1, b, b + 1, 2 * b} {
			m = append(m, op{k: opWriteAt, n: n, off: int64(off), v: 2}, op{k: opReadAt, n: n, off: int64(off)})
		}
	}
	m = append(m, op{k: opSeek, off: -1, whence: 1}, op{k: opSeek, whence: 2}, op{k: opSeek, off: 1, whence: 2}, op{k: opSeek, off: -1, whence: 2})
	m = append(m, op{k: opWriteString, n: b, v: 3})
	for _, o := range badOffsets {
		m = append(m, op{k: opBadOffset, off: o})
	}
	return m
}

var badOffsets = []int64{-1, math.MinInt64, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 2, math.MaxInt64 - 3, math.MaxInt64 - 4, 1 << 62, 1 << 40, -1 << 31}

// holes: shrink, grow, seek past the end, write.
func holes(limit int) []op {
	m := []op{{k: opSync}}
	for n := 0; n <= limit; n++ {
		m = append(m, op{k: opTruncate, off: int64(n)})
		if n < limit {
			m = append(m, op{k: opWriteAt, n: 1, off: int64(n), v: 1})
		}
	}
	m = append(m, op{k: opSeek, off: 1, whence: 2}, op{k: opSeek, off: int64(limit - 1)}, op{k: opWrite, n: 1, v: 2}, op{k: opRead, n: limit})
	return m
}

// aligned: structural positions of large blocks.
func aligned(b, blocks int) []op {
	m := []op{{k: opSync}}
	var pos []int
	seen := map[int]bool{}
	for _, p := range []int{0, 1, b - 1, b, b + 1, 2*b - 1, 2 * b, 2*b + 1, 8*b - 1, 8 * b, 8*b + 1, (blocks - 1) * b, blocks*b - 1, blocks * b, blocks*b + 1} {
		if p >= 0 && !seen[p] {
			seen[p] = true
			pos = append(pos, p)
		}
	}
	for _, p := range pos {
		m = append(m, op{k: opTruncate, off: int64(p)}, op{k: opSeek, off: int64(p)})
		for _, n := range []int{1, b - 1, b, b + 1, 2 * b} {
			if n < 1 {
				continue
			}
			m = append(m, op{k: opWriteAt, n: n, off: int64(p), v: 1}, op{k: opReadAt, n: n, off: int64(p)})
		}
	}
	for _, n := range []int{1, b - 1, b, b + 1, 2*b + 1, 9 * b} {
		m = append(m, op{k: opWrite, n: n, v: 2}, op{k: opRead, n: n})
	}
	m = append(m, op{k: opSeek, whence: 2}, op{k: opSeek, off: 1, whence: 1})
	return m
}

// history explores operation histories over the configurations.
func history(cs []cfg, menu func(c cfg) []op, faults bool) func(x *core.X) {
	return func(x *core.X) {
		c := cs[x.Choose(len(cs), "configuration")]
		m := menu(c)
		x.Config()
		first := x.Choose(len(m), "first operation")
		x.Begin()
		e := newEnv(x, c.bsize, c.blocks, c.size, c.flags, true)
		e.faults = faults
		if !e.open() {
			return
		}
		x.Step(e.state, e.final)
		o := m[first]
		for {
			e.do(o)
			x.Outcome(core.NewH().B(e.data).B(e.store).I(int(e.pos)).Sum())
			x.Step(e.state, e.final)
			o = m[x.Choose(len(m), "")]
		}
	}
}

func faultSizes(t bool) []int {
	if t {
		return []int{2, 3, 4}
	}
	return []int{2, 3}
}

func pick(t bool, quick, thorough int) int {
	if t {
		return thorough
	}
	return quick
}

func allFlags() []disko.IOFlags {
	var out []disko.IOFlags
	for _, acc := range []disko.IOFlags{ro, wo, rw} {
		for _, a := range []disko.IOFlags{0, app} {
			for _, s := range []disko.IOFlags{0, syn} {
				for _, t := range []disko.IOFlags{0, trunc} {
					out = append(out, acc|a|s|t)
				}
			}
		}
	}
	return out
}

func main() {
	m := func(limit, versions int) func(c cfg) []op {
		ops := full(limit, versions)
		return func(c cfg) []op { return ops }
	}
	med := func(c cfg) []op { return medium(c.bsize, 4*c.bsize) }
	hol := func(limit int) func(c cfg) []op {
		ops := holes(limit)
		return func(c cfg) []op { return ops }
	}
	ali := func(c cfg) []op { return aligned(c.bsize, max(c.blocks, 1)) }
	large := func(t bool) []cfg {
		var out []cfg
		sizes, counts := []int{7, 512}, []int{0, 1, 9}
		if t {
			sizes, counts = []int{7, 16, 128, 512}, []int{0, 1, 2, 9, 17}
		}
		for _, b := range sizes {
			for _, n := range counts {
				out = append(out, cfg{b, n, n * b, rw})
				if n > 0 {
					out = append(out, cfg{b, n, n*b - 1, rw}, cfg{b, n, (n-1)*b + 1, rw})
				}
			}
		}
		return out
	}
	withFlags := func(cs []cfg, f disko.IOFlags) []cfg {
		out := append([]cfg(nil), cs...)
		for i := range out {
			out[i].flags = f
		}
		return out
	}
	large8 := func(t bool) []cfg {
		cs := withFlags(large(t), rw|syn)
		if t {
			cs = append(cs, large(t)...)
		}
		return cs
	}
	core.Main(
		core.Property{ID: "C07", Parts: func(t bool) []*core.Part {
			return []*core.Part{
				{Name: "reachable", Mode: core.BFS, Depth: pick(t, 5, 6), Bounds: "1- and 2-byte blocks, storage of 0-2 blocks, every file size, every operation with every offset and length up to 4 bytes, all reachable states to the depth", Body: history(cfgs([]int{1, 2}, 2, rw), m(4, 1), false)},
				{Name: "histories", Mode: core.DFS, Depth: pick(t, 2, 3), Bounds: "block sizes 1-5 (read-write) and 2-3 (append, synchronous), storage of 0-2 blocks, every file size, operations around block boundaries and invalid offsets, every history to the depth", Body: history(append(cfgs([]int{1, 2, 3, 4, 5}, 2, rw), cfgs([]int{2, 3}, pick(t, 2, 3), rw|app, rw|syn)...), med, false)},
				{Name: "large-blocks", Mode: core.DFS, Depth: 2, Bounds: "block sizes 7 and 512 (thorough: also 16, 128), storage of 0-9 (17) blocks, operations at structural positions", Body: history(large(t), ali, false)},
				{Name: "scale", Mode: core.DFS, Bounds: scaleText + fmt.Sprintf("; every sequence of %d large operations", pick(t, 1, 2)), Body: scale(10, pick(t, 1, 2), false, rw)},
				{Name: "far-offsets", Mode: core.DFS, Bounds: "a file of a little over 4 GiB (blocks of 64 KiB): reads, writes and seeks on both sides of offsets 2^16, 2^24, 2^31, 2^32 and at the end", Body: farBody},
				bytePairsPart,
				{Name: "contents", Mode: core.BFS, Depth: pick(t, 4, 5), Bounds: contentsText, Body: contents(false, rw, rw|app)},
				{Name: "cycles", Mode: core.DFS, Bounds: cycleText, Body: cycles(false, t, rw)},
				{Name: "fixed-storage", Mode: core.BFS, Depth: pick(t, 4, 5), Bounds: "storage that cannot be resized (no resize callback; a slice), or not grow: 1- and 2-byte blocks, 0-2 blocks, every file size, plain, appending and synchronous, every operation up to 4 bytes", Body: fixed(cfgs([]int{1, 2}, 2, rw, rw|app, wo|syn), m(4, 1))},
				{Name: "creation", Bounds: "1- to 512-byte blocks, 0-3 blocks, 15 sizes from -2^63 to 2^63-1, every open mode", Body: creation},
				{Name: "reopened", Mode: core.DFS, Bounds: "files opened, changed by one or two operations out of 18 and closed, 300 times, over the same cache or a new one each time", Body: reopened},
			}
		}},
		core.Property{ID: "C08", Parts: func(t bool) []*core.Part {
			return []*core.Part{
				{Name: "reachable", Mode: core.BFS, Depth: pick(t, 5, 6), Bounds: "1- and 2-byte blocks, storage of 0-2 blocks, every file size, read-write, every operation up to 4 bytes; storage compared after every block write, sync and close", Body: history(cfgs([]int{1, 2}, 2, rw), m(4, 1), false)},
				{Name: "sync-reachable", Mode: core.BFS, Depth: pick(t, 4, 5), Bounds: "as above, opened for synchronous writing (also write-only and appending): storage compared after every write and truncation", Body: history(cfgs([]int{1, 2}, 2, rw|syn, wo|syn, rw|app|syn), m(4, 1), false)},
				{Name: "histories", Mode: core.DFS, Depth: pick(t, 2, 3), Bounds: "block sizes 3-4, storage of 0-2 blocks, operations around block boundaries", Body: history(cfgs([]int{3, 4}, pick(t, 2, 3), rw, wo, wo|app, rw|syn), med, false)},
				{Name: "large-blocks", Mode: core.DFS, Depth: 2, Bounds: "block sizes 7 and 512 (thorough: also 16, 128), storage of 0-9 (17) blocks, operations at structural positions, synchronous (thorough: and plain)", Body: history(large8(t), ali, false)},
				{Name: "scale", Mode: core.DFS, Bounds: scaleText + fmt.Sprintf("; every sequence of %d large operations", pick(t, 1, 2)), Body: scale(10, pick(t, 1, 2), false, rw|syn, rw, rw|app|syn)},
				{Name: "sync-order", Mode: core.DFS, Depth: pick(t, 4, 5), Bounds: "3-block files, histories of single writes, truncations and syncs", Body: history([]cfg{{2, 3, 6, rw}, {3, 2, 5, rw}, {2, 3, 5, rw | app}}, hol(6), false)},
				{Name: "contents", Mode: core.BFS, Depth: pick(t, 4, 5), Bounds: contentsText, Body: contents(false, rw, rw|syn)},
				{Name: "cycles", Mode: core.DFS, Bounds: cycleText, Body: cycles(false, t, rw, wo|syn)},
				{Name: "reopened", Mode: core.DFS, Bounds: "files opened, changed by one or two operations out of 18 and closed, 300 times, over the same cache or a new one each time", Body: reopened},
			}
		}},
		core.Property{ID: "C09", Parts: func(t bool) []*core.Part {
			return []*core.Part{
				{Name: "flags", Mode: core.DFS, Depth: pick(t, 2, 3), Bounds: fmt.Sprintf("all %d combinations of access mode, append, synchronous and truncate; 1-3-byte blocks, storage of 0-2 blocks, every file size, every operation up to 3 bytes", len(allFlags())), Body: history(cfgs([]int{1, 2, 3}, 2, allFlags()...), m(3, 1), false)},
				{Name: "append-reachable", Mode: core.BFS, Depth: pick(t, 5, 6), Bounds: "append mode (read-write and write-only): all reachable states", Body: history(cfgs([]int{2}, 2, rw|app, wo|app), m(4, 1), false)},
				{Name: "scale", Mode: core.DFS, Bounds: scaleText + " (quick: the first 4); every large operation in every open mode", Body: scale(pick(t, 4, 10), 1, true, allFlags()...)},
				{Name: "bulk", Mode: core.DFS, Bounds: "ReadFrom and WriteTo in every open mode", Body: bulkFlags},
				{Name: "contents", Mode: core.BFS, Depth: pick(t, 4, 5), Bounds: contentsText, Body: contents(false, rw|app, wo, ro)},
				{Name: "cycles", Mode: core.DFS, Bounds: cycleText, Body: cycles(false, t, rw|app, wo, ro)},
			}
		}},
		core.Property{ID: "C10", Parts: func(t bool) []*core.Part {
			return []*core.Part{
				{Name: "holes-reachable", Mode: core.BFS, Depth: pick(t, 6, 7), Bounds: "block sizes 1-4, storage of 0-3 blocks, every file size, garbage in unused storage; truncations, writes at every offset up to 6, seeks past the end", Body: history(cfgs([]int{1, 2, 3, 4}, 2, rw), hol(6), false)},
				{Name: "holes", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: "block sizes 2, 3, 5, 8, storage of 0-2 blocks, offsets up to 11, plain/append/synchronous", Body: history(cfgs([]int{2, 3, 5, 8}, 2, rw, rw|app, rw|syn), hol(11), false)},
				{Name: "write-only", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: "write-only streams, checked in storage", Body: history(cfgs([]int{2, 3}, 2, wo, wo|app), hol(7), false)},
				{Name: "large-holes", Mode: core.DFS, Depth: 2, Bounds: "block sizes 7-512, structural positions", Body: history(large(t), ali, false)},
				{Name: "scale", Mode: core.DFS, Bounds: scaleText + fmt.Sprintf("; every sequence of %d large operations", pick(t, 1, 2)), Body: scale(10, pick(t, 1, 2), false, rw, wo)},
				{Name: "far-growth", Mode: core.DFS, Bounds: "a small file grown to a little over 4 GiB by truncation, positioned and sequential writes", Body: farGrow},
				{Name: "contents", Mode: core.BFS, Depth: pick(t, 4, 5), Bounds: contentsText, Body: contents(false, rw)},
				{Name: "cycles", Mode: core.DFS, Bounds: cycleText, Body: cycles(false, t, rw)},
			}
		}},
		core.Property{ID: "C11", Parts: bulkParts},
		core.Property{ID: "C12", Parts: func(t bool) []*core.Part {
			return []*core.Part{
				{Name: "faults-reachable", Mode: core.BFS, Depth: pick(t, 4, 5), Budget: pick(t, 1, 2), Bounds: "1- and 2-byte blocks, storage of 0-2 blocks, every operation up to 4 bytes, every placement of one (thorough: two) load/store/resize faults", Body: history(cfgs([]int{1, 2}, 2, rw), m(4, 1), true)},
				{Name: "faults", Mode: core.DFS, Depth: pick(t, 2, 3), Budget: pick(t, 1, 2), Bounds: "block sizes 2-4, storage of 0-3 blocks, plain/append/synchronous/write-only, every placement of faults", Body: history(cfgs(faultSizes(t), 2, rw, rw|app, rw|syn, wo, rw|trunc), med, true)},
				{Name: "faults-scale", Mode: core.DFS, Bounds: scaleText + " (quick: the first 5); every large operation with the first, second, middle, last but one or last block access failing", Body: scaleFaults(pick(t, 5, 10))},
				{Name: "fault-chains", Mode: core.DFS, Depth: pick(t, 4, 4), Budget: 1, Bounds: "longer histories of writes, truncations and syncs with one fault", Body: history([]cfg{{2, 2, 3, rw}, {2, 2, 4, rw | syn}, {3, 1, 2, rw}}, hol(5), true)},
				{Name: "contents", Mode: core.BFS, Depth: pick(t, 2, 3), Budget: 1, Bounds: contentsText, Body: contents(true, rw, rw|syn)},
				{Name: "cycles", Mode: core.DFS, Bounds: cycleText + "; every second cycle with failing block accesses", Body: cycles(true, t, rw, rw|syn)},
			}
		}},
	)
}
