package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	c "github.com/dargueta/disko/file_systems/common"
	bc "github.com/dargueta/disko/file_systems/common/blockcache"
	core "github.com/dargueta/disko/zzverif/core"
)

// memStream is a seekable stream over a growable (or fixed) byte slice whose
// answers are chosen by the explorer.
type memStream struct {
	x       *core.X
	data    []byte
	pos     int64
	fixed   bool // writes past the end are short
	style   int  // how reads are split by default: 0 full, 1 one byte, 2 data with EOF, 3 two halves
	faults  bool
	hit     bool  // an injected error happened
	err     error // the injected error
	short   bool  // a silent short write happened
	calls   int
	writes  int
	touched map[int64]bool
}

func (s *memStream) guard() {
	s.calls++
	s.x.Assert(s.calls < 2000000, "more than 2000000 calls on the stream in one execution")
}

// fail records an injected error and returns it.
func (s *memStream) fail(err error) error {
	s.hit = true
	s.err = err
	return err
}

func (s *memStream) Seek(off int64, whence int) (int64, error) {
	s.guard()
	if s.faults && s.x.Deviate(2, "seek fault") == 1 {
		return 0, s.fail(errInjected)
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off, nil
}

// readErr is an ordinary error or one which resembles an end-of-file.
func readErr(k int) error {
	if k >= 6 {
		return io.ErrUnexpectedEOF
	}
	return errInjected
}

func (s *memStream) Read(p []byte) (int, error) {
	s.guard()
	if len(p) == 0 {
		return 0, nil
	}
	avail := int64(len(s.data)) - s.pos
	if s.faults {
		switch k := s.x.Deviate(8, "read fault/short read"); k {
		case 1, 6:
			return 0, s.fail(readErr(k))
		case 2, 7: // error after one byte
			if avail > 0 && len(p) > 1 {
				p[0] = s.data[s.pos]
				s.pos++
				return 1, s.fail(readErr(k))
			}
			return 0, s.fail(readErr(k))
		case 3: // one byte only
			if avail > 0 {
				p = p[:1]
			}
		case 4: // all but one byte
			if avail > 0 && len(p) > 1 {
				p = p[:len(p)-1]
			}
		case 5: // nothing, no error
			return 0, nil
		}
	}
	if avail <= 0 {
		return 0, io.EOF
	}
	switch s.style {
	case 1:
		p = p[:1]
	case 3:
		p = p[:(len(p)+1)/2]
	}
	n := copy(p, s.data[s.pos:])
	s.pos += int64(n)
	if s.style == 2 && s.pos == int64(len(s.data)) {
		return n, io.EOF
	}
	return n, nil
}

func (s *memStream) Write(p []byte) (int, error) {
	s.guard()
	s.writes++
	if s.faults {
		switch s.x.Deviate(4, "write fault") {
		case 1:
			return 0, s.fail(errInjected)
		case 2: // error after half
			n := s.put(p[:len(p)/2])
			return n, s.fail(errInjected)
		case 3: // short write without an error
			s.short = true
			return s.put(p[:len(p)-1]), nil
		}
	}
	n := s.put(p)
	if n < len(p) {
		s.short = true
		return n, io.ErrShortWrite
	}
	return n, nil
}

func (s *memStream) put(p []byte) int {
	end := s.pos + int64(len(p))
	if end > int64(len(s.data)) {
		if s.fixed {
			end = max(int64(len(s.data)), s.pos)
			p = p[:end-s.pos]
		} else {
			s.data = append(s.data, make([]byte, end-int64(len(s.data)))...)
		}
	}
	n := 0
	if s.pos < int64(len(s.data)) {
		n = copy(s.data[s.pos:], p)
	}
	s.pos += int64(n)
	return n
}

// growStream is a memStream with Truncate.
type growStream struct {
	memStream
	refuse bool
}

func (s *growStream) Truncate(size int64) error {
	s.guard()
	s.x.Assert(size >= 0 && size < 1<<26, "the stream was truncated to %d bytes", size)
	if s.faults && s.x.Deviate(2, "truncate fault") == 1 {
		return s.fail(errInjected)
	}
	if k := size - int64(len(s.data)); k > 0 {
		s.data = append(s.data, make([]byte, k)...)
	}
	s.data = s.data[:size]
	return nil
}

type wrapKind int

const (
	wrapExact    wrapKind = iota // WrapStream
	wrapInferred                 // WrapStreamWithInferredSize
	wrapSlice                    // WrapSlice
)

type streamEnv struct {
	x       *core.X
	cache   *bc.BlockCache
	mem     *memStream
	slice   []byte // wrapSlice
	bs, n   int
	content []byte
	tail    []byte // stream content beyond the cache
	pending map[int]bool
	resizable,
	canTruncate bool
	resized bool
	iter    int // changes what is written
	fill    int // special content to write instead (0: none)
}

func (e *streamEnv) byteFor(v, pos int) byte {
	switch e.fill {
	case 0:
		return pat(v+e.iter, pos)
	case vSame:
		return e.content[pos]
	}
	return pat(e.fill, pos)
}

func (e *streamEnv) bytes() []byte {
	if e.mem != nil {
		return e.mem.data
	}
	return e.slice
}

func newStreamEnv(x *core.X, kind wrapKind, bs, blocks, size, style int, truncator, allow, fixed bool) *streamEnv {
	data := make([]byte, size)
	for i := range data {
		data[i] = pat(0, i)
	}
	e := &streamEnv{x: x, bs: bs, n: blocks, pending: map[int]bool{}, resizable: allow && truncator, canTruncate: truncator}
	var s io.ReadWriteSeeker
	if kind != wrapSlice {
		if truncator {
			g := &growStream{memStream: memStream{x: x, data: data, style: style, fixed: fixed}}
			e.mem = &g.memStream
			s = g
		} else {
			e.mem = &memStream{x: x, data: data, style: style, fixed: fixed}
			s = e.mem
		}
		e.mem.pos = int64(size / 2) // the initial position must not matter
	}
	switch kind {
	case wrapExact:
		e.cache = bc.WrapStream(s, uint(bs), uint(blocks), allow)
	case wrapInferred:
		e.n = size / bs
		e.cache = bc.WrapStreamWithInferredSize(s, uint(bs), allow)
	case wrapSlice:
		e.slice = data
		e.n = size / bs
		e.resizable = false
		e.cache = bc.WrapSlice(data, uint(bs))
	}
	x.T()
	x.Assert(int(e.cache.TotalBlocks()) == e.n && int(e.cache.BytesPerBlock()) == bs && e.cache.Size() == int64(e.n*bs),
		"a wrapper of %d bytes has %d blocks of %d bytes, size %d; expected %d blocks", size, e.cache.TotalBlocks(), e.cache.BytesPerBlock(), e.cache.Size(), e.n)
	e.content = make([]byte, e.n*bs)
	copy(e.content, data)
	if size > e.n*bs {
		e.tail = append([]byte(nil), data[e.n*bs:]...)
	}
	return e
}

func (e *streamEnv) ok(what string, err error) bool {
	if e.mem != nil && e.mem.hit {
		e.x.Assert(err != nil, "%s reported success although the stream failed", what)
		e.x.Assert(errors.Is(err, e.mem.err), "the error of %s does not carry the stream's error: %v", what, err)
		return false
	}
	if e.mem != nil && e.mem.short {
		e.x.Assert(err != nil, "%s reported success although a block was not stored completely", what)
		return false
	}
	e.x.Assert(err == nil, "%s failed: %v", what, err)
	return true
}

// do applies operation k of the small stream menu.
func (e *streamEnv) do(k int) {
	x := e.x
	x.T()
	if e.mem != nil {
		e.mem.hit, e.mem.short = false, false
	}
	switch {
	case k == 0:
		x.Logf("Flush()")
		err := e.cache.Flush()
		if e.ok("Flush", err) {
			e.checkStream(true)
			clear(e.pending)
		}
	case k == 1:
		x.Logf("Data()")
		d, err := e.cache.Data()
		if e.ok("Data", err) {
			x.Assert(bytes.Equal(d, e.content), "Data() returned % x, expected % x", d, e.content)
		}
	case k >= 2 && k < 6: // Resize(k-2)
		e.resizeTo(k - 2)
	default:
		k -= 6
		kind, b := k%4, k/4
		if b >= e.n {
			x.Logf("access past the end refused")
			_, err := e.cache.ReadAt(make([]byte, 1), c.LogicalBlock(b))
			x.Assert(err != nil, "a read of block %d of %d succeeded", b, e.n)
			return
		}
		lo := b * e.bs
		switch kind {
		case 0: // read to the end
			buf := make([]byte, (e.n-b)*e.bs)
			x.Logf("ReadAt(%d bytes, block %d)", len(buf), b)
			n, err := e.cache.ReadAt(buf, c.LogicalBlock(b))
			if e.ok("ReadAt", err) {
				x.Assert(n == len(buf) && bytes.Equal(buf, e.content[lo:]), "ReadAt of block %d returned %d, % x, expected % x", b, n, buf, e.content[lo:])
			}
		case 1, 2: // write one block / one byte more or less
			l := e.bs
			if kind == 2 {
				l = min(e.bs+1, (e.n-b)*e.bs)
			}
			buf := make([]byte, l)
			for i := range buf {
				buf[i] = e.byteFor(kind, lo+i)
			}
			x.Logf("WriteAt(%d bytes, block %d)", l, b)
			n, err := e.cache.WriteAt(buf, c.LogicalBlock(b))
			if e.ok("WriteAt", err) {
				x.Assert(n == l, "WriteAt returned %d of %d", n, l)
				copy(e.content[lo:], buf)
				for i := b; i*e.bs < lo+l; i++ {
					e.pending[i] = true
				}
			}
		case 3: // modify through a slice
			x.Logf("GetSlice(%d, 1), modify, MarkBlockRangeDirty", b)
			s, err := e.cache.GetSlice(c.LogicalBlock(b), 1)
			if !e.ok("GetSlice", err) {
				return
			}
			x.Assert(bytes.Equal(s, e.content[lo:lo+e.bs]), "GetSlice(%d, 1) returned % x, expected % x", b, s, e.content[lo:lo+e.bs])
			for i := range s {
				s[i] = e.byteFor(5, lo+i)
			}
			copy(e.content[lo:], s)
			err = e.cache.MarkBlockRangeDirty(c.LogicalBlock(b), 1)
			if e.ok("MarkBlockRangeDirty", err) {
				e.pending[b] = true
			}
		}
	}
}

func (e *streamEnv) resizeTo(want int) {
	x := e.x
	x.Logf("Resize(%d)", want)
	err := e.cache.Resize(uint(want))
	if !e.resizable {
		x.Assert(err != nil, "a cache which must not be resized was resized")
		x.Assert(int(e.cache.TotalBlocks()) == e.n, "a refused resize changed the size")
		return
	}
	if e.ok("Resize", err) {
		nc := make([]byte, want*e.bs)
		copy(nc, e.content)
		for b := e.n; b < want; b++ {
			e.pending[b] = true
		}
		for b := want; b < e.n; b++ {
			delete(e.pending, b)
		}
		e.content, e.n = nc, want
		e.tail, e.resized = nil, true
	}
	x.Assert(int(e.cache.TotalBlocks()) == e.n, "after Resize(%d) the cache has %d blocks, expected %d", want, e.cache.TotalBlocks(), e.n)
}

// checkStream compares the stream with the cache after a successful flush.
func (e *streamEnv) checkStream(flushed bool) {
	d := e.bytes()
	padded := make([]byte, len(e.content))
	copy(padded, d)
	e.x.Assert(bytes.Equal(padded, e.content), "after a flush the stream holds % x, the cache % x", d, e.content)
	// Modified blocks are stored completely.
	for b := range e.pending {
		e.x.Assert(len(d) >= (b+1)*e.bs, "after a flush the stream has %d bytes; block %d was modified", len(d), b)
	}
	if len(e.tail) > 0 {
		e.x.Assert(len(d) == len(e.content)+len(e.tail) && bytes.Equal(d[len(e.content):], e.tail), "bytes past the end of the cache changed to % x", d[len(e.content):])
	}
	if e.resized {
		e.x.Assert(len(d) == len(e.content), "after a resize and a flush the stream has %d bytes, the cache %d", len(d), len(e.content))
	}
}

func (e *streamEnv) final() {
	if e.mem != nil {
		e.mem.faults = false
	}
	e.do(0)
	e.do(1)
	e.do(0)
}

func streamParts(t bool) []*core.Part {
	body := func(faults bool, kinds []wrapKind) func(x *core.X) {
		return func(x *core.X) {
			kind := kinds[x.Choose(len(kinds), "WrapStream/WrapStreamWithInferredSize/WrapSlice")]
			bs := core.Pick(x, "block size", 2, 1, 3, 5)
			blocks := core.Pick(x, "blocks", 2, 3, 1)
			rel := core.Pick(x, "stream size relative to the cache", 0, -1, 1, -bs, bs)
			size := max(blocks*bs+rel, 0)
			truncator, allow, fixed, style := false, false, false, 0
			if kind != wrapSlice {
				truncator = x.Bool("stream supports Truncate")
				allow = x.Bool("allow resizing")
				style = x.Choose(4, "reads: full / single bytes / data with EOF / halves")
			}
			x.Begin()
			e := newStreamEnv(x, kind, bs, blocks, size, style, truncator, allow, fixed)
			x.Logf("wrap kind %d, block size %d, %d blocks, stream of %d bytes, truncator=%v allow=%v style=%d", kind, bs, e.n, size, truncator, allow, style)
			if e.mem != nil {
				e.mem.faults = faults
			}
			x.Step(nil, e.final)
			for {
				e.do(x.Choose(6+4*3, "operation"))
				x.Outcome(core.NewH().B(e.content).B(e.bytes()).Sum())
				x.Step(nil, e.final)
			}
		}
	}
	all := []wrapKind{wrapExact, wrapInferred, wrapSlice}
	return []*core.Part{
		{Name: "stream-histories", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: "WrapStream, WrapStreamWithInferredSize, WrapSlice; block sizes {1,2,3,5}, 1-3 blocks, streams shorter/equal/longer by a byte or block, 4 read-splitting styles, with/without Truncate and permission; every history of 18 operations to the depth", Body: body(false, all)},
		{Name: "stream-faults", Mode: core.DFS, Depth: pick(t, 2, 3), Budget: pick(t, 1, 2), Bounds: "as above with every placement of stream faults (seek/read/write/truncate errors, errors after partial transfers, silent short writes, short reads, empty reads)", Body: body(true, all[:2])},
		{Name: "stream-large", Mode: core.DFS, Depth: 2, Bounds: "512- and 128-byte blocks, 9 and 17 blocks", Body: largeStreams},
		{Name: "stream-scale", Mode: core.DFS, Bounds: "streams and slices: " + scaleText + ", relative sizes 0, -1, +100, 4 read-splitting styles, resizes by one block, to the double and the half", Body: scaleStreams},
		{Name: "fixed-stream", Mode: core.DFS, Depth: 2, Bounds: "caches larger than a stream that cannot grow: a block that cannot be stored completely is reported", Body: fixedStream},
		{Name: "contents", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: "streams and slices of patterns, zeros or 0xFF; blocks written with a pattern, zeros, 0xFF or what they already hold", Body: streamContents},
		{Name: "cycles", Mode: core.DFS, Bounds: fmt.Sprintf("cycles of one or two operations, repeated %d times, every write with new content", pick(t, 600, 5000)), Body: streamCycles(pick(t, 600, 5000))},
		{Name: "far-blocks", Mode: core.DFS, Bounds: "streams; " + farBounds, Body: far(true)},
	}
}

func largeStreams(x *core.X) {
	kind := wrapKind(x.Choose(3, "wrapper"))
	bs := core.Pick(x, "block size", 512, 128, 4096)
	blocks := core.Pick(x, "blocks", 9, 17)
	rel := core.Pick(x, "relative size", 0, -1, 100)
	style := x.Choose(4, "style")
	x.Begin()
	e := newStreamEnv(x, kind, bs, blocks, blocks*bs+rel, style, true, true, false)
	ks := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 6 + 4*7, 7 + 4*7, 6 + 4*8 + 1, 6 + 4*8 + 2, 6 + 4*8 + 3, 6 + 4*16 + 1}
	x.Step(nil, e.final)
	for {
		e.do(ks[x.Choose(len(ks), "operation")])
		x.Step(nil, e.final)
	}
}

// fixedStream: a cache that is larger than a stream that cannot grow.
func fixedStream(x *core.X) {
	bs := core.Pick(x, "block size", 2, 3, 4)
	size := x.Choose(3*bs+1, "stream size")
	x.Begin()
	e := newStreamEnv(x, wrapExact, bs, 3, size, 0, false, false, true)
	x.Step(nil, nil)
	for {
		e.do(x.Choose(6+4*3, "operation"))
		x.Step(nil, nil)
	}
}

func streamContents(x *core.X) {
	kind := wrapKind(x.Choose(3, "wrapper"))
	bs := core.Pick(x, "block size", 1, 4, 512)
	rel := core.Pick(x, "relative size", 0, -1, 3)
	initial := core.Pick(x, "initial content", 0, vZero, vOnes)
	x.Begin()
	e := newStreamEnv(x, kind, bs, 2, max(0, 2*bs+rel), 0, true, true, false)
	d := e.bytes()
	for i := range d {
		d[i] = pat(initial, i)
	}
	copy(e.content, d)
	e.tail = append([]byte(nil), d[min(len(d), len(e.content)):]...)
	x.Logf("wrapper %d, block size %d, relative size %d, initial content %d", kind, bs, rel, initial)
	fills := []int{0, vZero, vOnes, vSame}
	x.Step(nil, e.final)
	for {
		k := x.Choose(4+4*4, "operation")
		switch {
		case k < 2:
			e.do(k)
		case k < 4:
			e.resizeTo(max(1, e.n+1-2*(k-2)))
		default:
			k -= 4
			e.fill = fills[k%4]
			e.iter += 11
			x.Logf("content %d:", e.fill)
			e.do([]int{6 + 1, 6 + 2, 6 + 4 + 1, 6 + 3}[k/4])
		}
		x.Outcome(core.NewH().B(e.content).B(e.bytes()).Sum())
		x.Step(nil, e.final)
	}
}

func streamCycles(reps int) func(x *core.X) {
	return func(x *core.X) {
		kind := wrapKind(x.Choose(3, "wrapper"))
		bs := core.Pick(x, "block size", 1, 4)
		blocks := core.Pick(x, "blocks", 2, 9)
		rel := core.Pick(x, "relative size", 0, -1)
		const ops = 6 + 4*2 + 3
		a := x.Choose(ops, "first operation")
		b := x.Choose(ops+1, "second operation")
		x.Begin()
		e := newStreamEnv(x, kind, bs, blocks, blocks*bs+rel, 0, true, true, false)
		step := func(k int) {
			switch {
			case k == 2 && e.n > 20:
				e.resizeTo(1)
			case k == 2:
				e.resizeTo(e.n + 1)
			case k == 3:
				e.resizeTo(max(1, e.n-1))
			case k >= 6+4*2 && e.n > 2: // the last block
				e.do(6 + 4*(e.n-1) + k - (6 + 4*2))
			default:
				e.do(k)
			}
		}
		for i := 0; i < reps; i++ {
			e.iter = i
			step(a)
			if b < ops {
				step(b)
			}
			if i%100 == 99 {
				e.final()
			}
		}
		x.OutcomeS(fmt.Sprint(kind, bs, blocks, rel, a, b))
	}
}
