package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	stdtesting "testing"

	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
	fixtures "github.com/dargueta/disko/testing"
	"github.com/dargueta/disko/utilities/compression"
	core "github.com/dargueta/disko/zzverif/core"
)

// The fixtures report to a *testing.T. A real one, whose outcome can be
// observed, is a subtest of a test that runs in the background for as long as
// this process does.

var (
	requests = make(chan func(*stdtesting.T))
	started  bool
)

func startTesting() {
	if started {
		return
	}
	started = true
	go stdtesting.Main(
		func(string, string) (bool, error) { return true, nil },
		[]stdtesting.InternalTest{{Name: "T", F: func(parent *stdtesting.T) {
			for f := range requests {
				parent.Run("t", f)
			}
		}}},
		nil, nil,
	)
}

// inTest runs f as a test of its own. failed says whether that test is marked
// as failed, and stopped whether f was ended early by it. A panic in f goes
// on in the caller.
func inTest(f func(t *stdtesting.T)) (failed, stopped bool) {
	startTesting()
	done := make(chan struct{})
	var panicked any
	stopped = true
	requests <- func(t *stdtesting.T) {
		defer close(done)
		defer func() {
			if panicked = recover(); panicked != nil {
				stopped = false
				if os.Getenv("MC_STACK") != "" {
					debug.PrintStack()
				}
			}
			failed = t.Failed()
		}()
		f(t)
		stopped = false
	}
	<-done
	if panicked != nil {
		panic(panicked)
	}
	return
}

func pat(v, i int) byte { return byte(i*7 + i>>8*3 + v*31 + 1) }

func pattern(v, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = pat(v, i)
	}
	return b
}

type geometry struct{ bs, n, slack int }

var geometries = []geometry{{4, 3, 0}, {1, 4, 3}, {3, 2, 1}, {512, 2, 512}, {4, 1, 0}, {2, 5, 0}}

// cacheEnv is a cache made by CreateDefaultCache and what it should hold.
type cacheEnv struct {
	x        *core.X
	t        *stdtesting.T
	g        geometry
	writable bool
	backing  []byte // what the cache was given
	stored   []byte // what it should contain
	cache    *blockcache.BlockCache
	content  []byte
	dirty    []bool
	failed   bool
}

func newCacheEnv(x *core.X, t *stdtesting.T, g geometry, writable bool) *cacheEnv {
	e := &cacheEnv{x: x, t: t, g: g, writable: writable}
	e.backing = pattern(0, g.bs*g.n+g.slack)
	e.stored = bytes.Clone(e.backing)
	e.content = bytes.Clone(e.backing[:g.bs*g.n])
	e.dirty = make([]bool, g.n)
	x.T()
	e.cache = fixtures.CreateDefaultCache(uint(g.bs), uint(g.n), writable, e.backing, t)
	x.Logf("CreateDefaultCache(%d, %d, writable=%v, %d bytes)", g.bs, g.n, writable, len(e.backing))
	e.check("creation")
	return e
}

func (e *cacheEnv) check(what string) {
	e.x.Assert(bytes.Equal(e.backing, e.stored), "after %s the backing data is %x, want %x", what, e.backing, e.stored)
	e.x.Assert(e.t.Failed() == e.failed, "after %s the test is failed: %v, want %v", what, e.t.Failed(), e.failed)
	e.x.Assert(e.cache.BytesPerBlock() == uint(e.g.bs) && e.cache.TotalBlocks() == uint(e.g.n) && e.cache.Size() == int64(e.g.bs*e.g.n),
		"after %s the cache has %d blocks of %d bytes (%d)", what, e.cache.TotalBlocks(), e.cache.BytesPerBlock(), e.cache.Size())
}

func (e *cacheEnv) state() uint64 {
	h := core.NewH().B(e.content).B(e.stored).Bool(e.failed)
	for _, d := range e.dirty {
		h.Bool(d)
	}
	return h.Deep(e.cache).Sum()
}

type cacheOp struct {
	kind       string
	start, len int // len in bytes for read and write, else in blocks
	v          int
}

func (o cacheOp) String() string { return fmt.Sprintf("%s(%d, %d, v%d)", o.kind, o.start, o.len, o.v) }

func cacheMenu(g geometry) []cacheOp {
	ops := []cacheOp{{kind: "flush"}, {kind: "data"}, {kind: "load"}, {kind: "grow"}, {kind: "shrink"}}
	for s := 0; s < g.n; s++ {
		for _, n := range []int{1, g.n - s} {
			ops = append(ops, cacheOp{"read", s, n * g.bs, 0}, cacheOp{"write", s, n * g.bs, 1}, cacheOp{"write", s, n*g.bs - g.bs/2, 2}, cacheOp{"modify", s, n, 3})
			if n == g.n-s {
				break
			}
		}
	}
	return append(ops, cacheOp{"read", 0, g.n*g.bs + 1, 0}, cacheOp{"read", g.n, 1, 0}, cacheOp{"write", g.n - 1, 2 * g.bs, 1}, cacheOp{"write", g.n, 1, 1})
}

func (e *cacheEnv) do(o cacheOp) {
	x, bs := e.x, e.g.bs
	x.T()
	from := o.start * bs
	switch o.kind {
	case "read":
		b := make([]byte, o.len)
		n, err := e.cache.ReadAt(b, c.LogicalBlock(o.start))
		if from+o.len > len(e.content) {
			x.Assert(err != nil, "%v beyond the end succeeded", o)
		} else {
			x.Assert(err == nil && n == o.len && bytes.Equal(b, e.content[from:from+o.len]), "%v gives %d, %v, %x, want %x", o, n, err, b, e.content[from:from+o.len])
		}
	case "write":
		b := pattern(o.v, o.len)
		n, err := e.cache.WriteAt(b, c.LogicalBlock(o.start))
		if from+o.len > len(e.content) {
			x.Assert(err != nil, "%v beyond the end succeeded", o)
		} else {
			x.Assert(err == nil && n == o.len, "%v gives %d, %v", o, n, err)
			copy(e.content[from:], b)
			for i := o.start; i*bs < from+o.len; i++ {
				e.dirty[i] = true
			}
		}
	case "modify":
		s, err := e.cache.GetSlice(c.LogicalBlock(o.start), uint(o.len))
		x.Assert(err == nil && bytes.Equal(s, e.content[from:from+o.len*bs]), "GetSlice for %v gives %x, %v", o, s, err)
		s[0], s[len(s)-1] = pat(o.v, 0), pat(o.v, 1)
		e.content[from+len(s)-1], e.content[from] = pat(o.v, 1), pat(o.v, 0)
		if len(s) == 1 {
			e.content[from] = pat(o.v, 1)
		}
		x.Assert(e.cache.MarkBlockRangeDirty(c.LogicalBlock(o.start), uint(o.len)) == nil, "MarkBlockRangeDirty for %v fails", o)
		for i := range o.len {
			e.dirty[o.start+i] = true
		}
	case "data":
		d, err := e.cache.Data()
		x.Assert(err == nil && bytes.Equal(d, e.content), "Data gives %x, %v, want %x", d, err, e.content)
	case "load":
		err := e.cache.LoadAll()
		x.Assert(err == nil, "LoadAll gives %v", err)
	case "grow":
		x.Assert(e.cache.Resize(uint(e.g.n+1)) != nil, "the image was grown")
	case "shrink":
		if e.g.n > 1 {
			x.Assert(e.cache.Resize(uint(e.g.n-1)) != nil, "the image was shrunk")
		}
	case "flush":
		any := false
		for _, d := range e.dirty {
			any = any || d
		}
		err := e.cache.Flush()
		switch {
		case !any:
			x.Assert(err == nil, "Flush without changes gives %v", err)
		case e.writable:
			x.Assert(err == nil, "Flush gives %v", err)
			copy(e.stored, e.content)
			clear(e.dirty)
		default:
			x.Assert(err != nil, "Flush of changes to a read-only image succeeded")
			e.failed = true
		}
	}
	x.Logf("%v", o)
	e.check(o.String())
}

func (e *cacheEnv) final() {
	e.do(cacheOp{"read", 0, len(e.content), 0})
	e.do(cacheOp{kind: "flush"})
	e.do(cacheOp{kind: "data"})
}

func cacheHistories(x *core.X) {
	g := geometries[x.Choose(len(geometries), "geometry")]
	writable := x.Bool("writable")
	ops := cacheMenu(g)
	x.Config()
	first := x.Choose(len(ops), "first operation")
	x.Begin()
	failed := false
	_, stopped := inTest(func(t *stdtesting.T) {
		e := newCacheEnv(x, t, g, writable)
		x.Step(e.state, e.final)
		for o := ops[first]; ; o = ops[x.Choose(len(ops), "")] {
			e.do(o)
			failed = e.failed
			x.Outcome(core.NewH().B(e.content).B(e.stored).Bool(failed).Sum())
			x.Step(e.state, e.final)
		}
	})
	x.Assert(!stopped, "a cache operation ended the test (failed: %v)", failed)
}

var largeGeometries = []geometry{{512, 257, 0}, {65537, 2, 5}, {2, 65537, 1}, {1024, 130, 1024}, {3, 257, 0}, {1, 70001, 0}, {8192, 40, 0}, {1 << 20, 3, 0}}

// largeCaches: every part of a large image is read, changed and flushed.
func largeCaches(x *core.X) {
	g := largeGeometries[x.Choose(len(largeGeometries), "geometry")]
	writable := x.Bool("writable")
	blocks := []int{0, 1, g.n / 2, g.n - 1}
	for _, b := range []int{127, 128, 255, 256, 32768, 65535, 65536} {
		if b < g.n {
			blocks = append(blocks, b)
		}
	}
	x.Begin()
	failed, stopped := inTest(func(t *stdtesting.T) {
		e := newCacheEnv(x, t, g, writable)
		switch x.Choose(3, "how") {
		case 0: // one block at a time
			for i, b := range blocks {
				e.do(cacheOp{"read", b, g.bs, 0})
				e.do(cacheOp{"write", b, g.bs, i + 1})
				e.do(cacheOp{kind: "flush"})
			}
		case 1: // changes in many places, and one flush
			for i, b := range blocks {
				e.do(cacheOp{"write", b, g.bs, i + 1})
			}
		case 2: // everything
			e.do(cacheOp{"write", 0, g.bs * g.n, 1})
		}
		e.final()
	})
	x.Logf("%d blocks of %d bytes: failed %v", g.n, g.bs, failed)
	x.Assert(failed == !writable && !stopped, "a cache of %d blocks of %d bytes, writable %v: failed %v, stopped %v", g.n, g.bs, writable, failed, stopped)
}

// randomImages: images nobody supplied.
// (Each assertion about randomness fails by chance with a probability below
// one in a billion.)
func randomImages(x *core.X) {
	bs := core.Pick(x, "block size", 1, 2, 3, 4, 16, 100, 512, 1024, 4096, 65536)
	n := core.Pick(x, "blocks", 0, 1, 2, 3, 7, 64, 100, 257)
	x.Begin()
	var a, b []byte
	x.T()
	failed, stopped := inTest(func(t *stdtesting.T) {
		a = fixtures.CreateRandomImage(uint(bs), uint(n), t)
		b = fixtures.CreateRandomImage(uint(bs), uint(n), t)
	})
	x.Logf("CreateRandomImage(%d, %d): %d bytes", bs, n, len(a))
	x.Assert(!failed && !stopped, "CreateRandomImage(%d, %d) fails the test", bs, n)
	x.Assert(len(a) == bs*n && len(b) == bs*n, "CreateRandomImage(%d, %d) gives %d bytes", bs, n, len(a))
	if bs*n >= 32 {
		x.Assert(!bytes.Equal(a, b), "two random images of %d blocks of %d bytes are the same", n, bs)
	}
	for i := 0; i+32 <= len(a); i += 32 {
		x.Assert(!bytes.Equal(a[i:i+32], make([]byte, 32)), "32 bytes from %d of %d are not random", i, len(a))
	}
	if n == 0 {
		return
	}
	if len(a) <= 1<<20 {
		// No byte is always the same.
		varies := make([]bool, len(a))
		for range 8 {
			for i := range b {
				varies[i] = varies[i] || a[i] != b[i]
			}
			inTest(func(t *stdtesting.T) { b = fixtures.CreateRandomImage(uint(bs), uint(n), t) })
			x.Assert(len(b) == len(a), "CreateRandomImage(%d, %d) gives %d bytes", bs, n, len(b))
		}
		for i, v := range varies {
			x.Assert(v, "byte %d of %d random ones is always %#x", i, len(a), a[i])
		}
	}
	writable := x.Bool("writable")
	x.T()
	failed, stopped = inTest(func(t *stdtesting.T) {
		cache := fixtures.CreateDefaultCache(uint(bs), uint(n), writable, nil, t)
		x.Assert(cache.Size() == int64(bs*n), "a cache of %d blocks of %d bytes has %d", n, bs, cache.Size())
		b := make([]byte, bs)
		var image []byte
		for i := range n {
			k, err := cache.ReadAt(b, c.LogicalBlock(i))
			x.Assert(k == bs && err == nil, "reading block %d gives %d, %v", i, k, err)
			image = append(image, b...)
		}
		d, err := cache.Data()
		x.Assert(err == nil && bytes.Equal(d, image), "random image read as a whole differs (%v)", err)
		for i := 0; i+32 <= len(d); i += 32 {
			x.Assert(!bytes.Equal(d[i:i+32], make([]byte, 32)), "32 bytes from %d of the image are not random", i)
		}
		if writable {
			k, err := cache.WriteAt(b, 0)
			x.Assert(k == bs && err == nil, "writing gives %d, %v", k, err)
		}
		x.Assert(cache.Flush() == nil, "Flush fails")
	})
	x.Assert(!failed && !stopped, "a random image with %d blocks of %d bytes fails the test", n, bs)
}

// images: compressed images of every sort, and the stream they become.

func compress(data []byte) []byte {
	var b bytes.Buffer
	if _, err := compression.CompressImage(bytes.NewReader(data), &b); err != nil {
		panic(fmt.Sprint("harness error: ", err))
	}
	return b.Bytes()
}

func content(kind, n int) []byte {
	switch kind {
	case 0:
		return make([]byte, n)
	case 1:
		return bytes.Repeat([]byte{0xff}, n)
	}
	return pattern(kind, n)
}

func loadImages(x *core.X) {
	size := core.Pick(x, "sector size", 1, 2, 128, 512, 1024)
	sectors := core.Pick(x, "sectors", 1, 2, 3, 9, 80, 720)
	x.Begin()
	data := content(core.Pick(x, "content", 0, 1, 2), size*sectors)
	packed := compress(data)
	before := bytes.Clone(packed)
	damage := core.Pick(x, "damage", "", "empty", "truncated", "flipped", "garbage", "fewer sectors", "more sectors", "other sector size")
	asked, askedSize := sectors, size
	switch damage {
	case "empty":
		packed = nil
	case "truncated":
		packed = packed[:len(packed)/2]
	case "flipped":
		packed[len(packed)-6] ^= 1
	case "garbage":
		packed = content(3, len(packed))
	case "fewer sectors":
		asked--
	case "more sectors":
		asked++
	case "other sector size":
		askedSize++
	}
	x.T()
	failed, stopped := inTest(func(t *stdtesting.T) {
		stream := fixtures.LoadDiskImage(t, packed, uint(askedSize), uint(asked))
		if damage != "" {
			return
		}
		x.Assert(stream != nil && !t.Failed(), "LoadDiskImage gives %v, failed: %v", stream, t.Failed())
		got, err := io.ReadAll(stream)
		x.Assert(err == nil && bytes.Equal(got, data), "LoadDiskImage(%d × %d) reads %d bytes (%v) which differ", size, sectors, len(got), err)
		// Every sector is where it belongs, and changes alone.
		want := bytes.Clone(data)
		for _, i := range []int{0, sectors / 2, sectors - 1} {
			b := pattern(9+i, size)
			at, err := stream.Seek(int64(i*size), io.SeekStart)
			x.Assert(err == nil && at == int64(i*size), "Seek to sector %d gives %d, %v", i, at, err)
			n, err := stream.Write(b)
			x.Assert(n == size && err == nil, "writing sector %d gives %d, %v", i, n, err)
			copy(want[i*size:], b)
			_, err = stream.Seek(0, io.SeekStart)
			x.Assert(err == nil, "Seek to the start gives %v", err)
			got, err = io.ReadAll(stream)
			x.Assert(err == nil && bytes.Equal(got, want), "after writing sector %d of %d the image reads wrong (%v)", i, sectors, err)
		}
		// Nothing beyond the end.
		n, err := stream.Write([]byte{1})
		x.Assert(n == 0 && err != nil, "writing past the end gives %d, %v", n, err)
		at, err := stream.Seek(-1, io.SeekEnd)
		x.Assert(err == nil && at == int64(len(data)-1), "Seek to the last byte gives %d, %v", at, err)
		n, err = stream.Write([]byte{1, 2})
		x.Assert(n < 2 && err != nil, "writing past the end gives %d, %v", n, err)
		at, err = stream.Seek(0, io.SeekEnd)
		x.Assert(err == nil && at == int64(len(data)), "the size has changed to %d (%v)", at, err)
		x.Assert(bytes.Equal(packed, before), "the compressed image has changed")
	})
	x.Logf("LoadDiskImage(%d × %d), %q: failed %v, stopped %v", size, sectors, damage, failed, stopped)
	x.OutcomeS(damage, fmt.Sprint(failed, stopped))
	if damage == "" {
		x.Assert(!failed && !stopped, "LoadDiskImage(%d × %d) fails the test", size, sectors)
	} else {
		x.Assert(failed && stopped, "LoadDiskImage(%d × %d) with a wrong image (%s): failed %v, stopped %v", size, sectors, damage, failed, stopped)
	}
}

// everyDamage: all truncations and single-bit changes of a small image.
func everyDamage(x *core.X) {
	data := content(x.Choose(3, "content"), 512)
	packed := compress(data)
	i := x.Choose(len(packed), "position")
	x.Begin()
	bit := x.Choose(9, "bit")
	if bit == 8 {
		packed = packed[:i]
	} else {
		packed[i] ^= 1 << bit
	}
	x.T()
	same := false
	failed, stopped := inTest(func(t *stdtesting.T) {
		stream := fixtures.LoadDiskImage(t, packed, 128, 4)
		got, err := io.ReadAll(stream)
		same = err == nil && bytes.Equal(got, data)
	})
	x.Logf("position %d, change %d: failed %v, stopped %v", i, bit, failed, stopped)
	x.OutcomeS(fmt.Sprint(failed, stopped, same))
	x.Assert(same && !failed && !stopped || failed && stopped, "a damaged image (byte %d, change %d) is accepted", i, bit)
}

func parts(thorough bool) []*core.Part {
	depth := 4
	if thorough {
		depth = 6
	}
	return []*core.Part{
		{Name: "default caches", Mode: core.BFS, Depth: depth, Bounds: fmt.Sprintf("all histories of %d operations on writable and read-only caches of 1..5 blocks, with and without surplus backing data, up to equal states", depth), Body: cacheHistories},
		{Name: "large caches", Bounds: "8 geometries of up to 70001 blocks or of blocks of up to 1 MiB, given the backing data, writable and read-only: blocks at both ends, in the middle and at powers of two", Body: largeCaches},
		{Name: "random images", Bounds: "10 block sizes and 8 numbers of blocks, as images and under caches", Body: randomImages},
		{Name: "disk images", Bounds: "5 sector sizes, 6 numbers of sectors, 3 contents; intact, damaged, empty, or of another size", Body: loadImages},
		{Name: "damaged images", Bounds: "all truncations and all single-bit changes of three compressed images", Body: everyDamage},
	}
}

func main() {
	core.Main(core.Property{ID: "C42", Parts: parts, Assumptions: []string{
		"The fixtures are run inside real tests of the testing package, whose outcome is observed.",
	}})
}
