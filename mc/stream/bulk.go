package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/dargueta/disko"
	core "github.com/dargueta/disko/zzverif/core"
)

var errPeer = errors.New("injected reader/writer fault")

// peerErrs are the errors a failing reader or writer may report. Some resemble
// an end-of-file or are used by the standard library for its own purposes.
var peerErrs = []error{errPeer, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer}

// source is a reader whose splitting of the data is chosen.
type source struct {
	x       *core.X
	data    []byte
	pos     int
	style   int // default splitting: 0 as much as possible, 1 single bytes, 2 data together with EOF, 3 chunks of 3
	deviate bool
	failAt  int   // fail with errPeer at this offset (-1: never)
	err     error // the failure (nil: errPeer)
	withErr bool  // deliver the last data together with the error
	empties int
	calls   int
	hit     bool
}

func (s *source) failure() error {
	if s.err == nil {
		return errPeer
	}
	return s.err
}

func (s *source) Read(p []byte) (int, error) {
	s.calls++
	s.x.Assert(s.calls < 100000, "more than 100000 reads from the source")
	if len(p) == 0 {
		return 0, nil
	}
	end := len(s.data)
	if s.failAt >= 0 {
		end = s.failAt
	}
	n := min(len(p), end-s.pos)
	switch s.style {
	case 1:
		n = min(n, 1)
	case 3:
		n = min(n, 3)
	}
	if s.deviate && n > 0 {
		switch s.x.Deviate(4, "read splitting") {
		case 1:
			n = 1
		case 2:
			n = max(1, n-1)
		case 3:
			return 0, nil
		}
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	atEnd := s.pos == end
	if s.failAt >= 0 && atEnd && (n == 0 || s.withErr) {
		s.hit = true
		return n, s.failure()
	}
	if s.failAt < 0 && atEnd && (n == 0 || s.style == 2) {
		return n, io.EOF
	}
	return n, nil
}

// sink is a writer which may be short or fail.
type sink struct {
	x       *core.X
	got     []byte
	deviate bool
	hit     bool
	calls   int
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	s.x.Assert(s.calls < 100000, "more than 100000 writes to the destination")
	if s.deviate && len(p) > 0 {
		k := s.x.Deviate(5, "write fault")
		if k > 0 {
			s.hit = true
		}
		switch k {
		case 1:
			return 0, errPeer
		case 2:
			n := len(p) / 2
			s.got = append(s.got, p[:n]...)
			return n, errPeer
		case 3: // short without an error
			n := len(p) - 1
			s.got = append(s.got, p[:n]...)
			return n, nil
		case 4: // everything, and an error
			s.got = append(s.got, p...)
			return len(p), errPeer
		}
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

func payload(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = pat(4, i)
	}
	return b
}

// readFrom performs ReadFrom on the stream and compares with the model.
func (e *env) readFrom(src *source) {
	x := e.x
	x.T()
	e.hit, e.refused = false, false
	start := int(e.pos)
	if e.appending() {
		start = len(e.data)
	}
	x.Logf("ReadFrom(%d bytes, style %d, failing at %d) at %d of %d", len(src.data), src.style, src.failAt, start, len(e.data))
	e.unsync(start, start+len(src.data))
	n, err := e.s.ReadFrom(src)
	if !e.writable() {
		x.Assert(err != nil && n == 0, "ReadFrom on a read-only stream returned %d, %v", n, err)
		e.check("ReadFrom")
		return
	}
	if e.hit || e.refused || src.hit {
		x.Assert(err != nil, "ReadFrom reported success although the source or the storage failed")
		switch {
		case src.hit && !e.hit && !e.refused:
			x.Assert(errors.Is(err, src.failure()), "ReadFrom returned %v instead of the source's error", err)
		case e.hit && !src.hit:
			x.Assert(errors.Is(err, errInjected), "ReadFrom returned %v instead of the storage's error", err)
		}
		x.Assert(int(n) <= src.pos, "ReadFrom reported %d bytes, the source delivered %d", n, src.pos)
		if !e.hit && !e.refused {
			x.Assert(int(n) == src.pos, "ReadFrom reported %d bytes, the source delivered %d before failing", n, src.pos)
			if n > 0 {
				e.write(start, src.data[:n])
				e.pos = int64(start) + n
			} else if e.s.Tell() == int64(start) {
				e.pos = int64(start)
			}
			e.check("ReadFrom")
			return
		}
		done := int(e.s.Tell()) - start
		x.Assert(done >= 0 && done <= src.pos && int(n) >= done || e.s.Tell() == e.pos, "the failed ReadFrom reported %d bytes, moved the position by %d, the source delivered %d", n, done, src.pos)
		if done > 0 {
			e.write2(start, src.data[:done])
		}
		e.failedWrite("ReadFrom", start+max(done, 0), src.data[max(done, 0):src.pos])
		e.pos = e.s.Tell()
		return
	}
	x.Assert(err == nil && int(n) == len(src.data), "ReadFrom of %d bytes returned %d, %v", len(src.data), n, err)
	e.write(start, src.data)
	if n > 0 || e.s.Tell() == int64(start) {
		e.pos = int64(start) + n
	}
	e.check("ReadFrom")
	if e.synchronous() && n > 0 {
		e.storageMatches("ReadFrom")
	}
}

// write2 is write without shrinking what failedWrite compares.
func (e *env) write2(off int, b []byte) { e.write(off, b) }

func (e *env) writeTo(dst *sink) {
	x := e.x
	x.T()
	e.hit, e.refused = false, false
	start := int(e.pos)
	want := e.data[min(start, len(e.data)):]
	x.Logf("WriteTo at %d of %d", start, len(e.data))
	n, err := e.s.WriteTo(dst)
	x.Assert(int(n) == len(dst.got), "WriteTo reported %d bytes, the destination took %d", n, len(dst.got))
	if !e.readable() {
		x.Assert(err != nil && n == 0, "WriteTo on a write-only stream returned %d, %v", n, err)
		e.check("WriteTo")
		return
	}
	x.Assert(len(dst.got) <= len(want), "WriteTo wrote %d bytes, %d are left", len(dst.got), len(want))
	e.match("WriteTo", dst.got, min(start, len(e.data)))
	if e.hit || dst.hit {
		x.Assert(err != nil, "WriteTo reported success although the destination or the storage failed")
		if dst.hit {
			x.Assert(errors.Is(err, errPeer) || err == io.ErrShortWrite, "WriteTo returned %v", err)
		} else {
			x.Assert(errors.Is(err, errInjected), "WriteTo returned %v instead of the storage's error", err)
		}
		p := e.s.Tell()
		x.Assert(p >= e.pos+n && p <= int64(max(len(e.data), start)), "after a failed WriteTo of %d bytes the position moved from %d to %d", n, e.pos, p)
		e.pos = p
		return
	}
	x.Assert(err == nil && len(dst.got) == len(want), "WriteTo of %d bytes returned %d, %v", len(want), n, err)
	e.pos += n
	e.check("WriteTo")
}

func bulkParts(t bool) []*core.Part {
	lens := []int{0, 1, 2, 3, 4, 5, 7, 8, 9}
	return []*core.Part{
		{Name: "read-from", Mode: core.DFS, Budget: pick(t, 2, 3), Bounds: "block sizes 1-5 and 512, 0-2 blocks, every file size, every start position, 0-9 and 511-513, 1024-1025 bytes, 4 default splittings with up to 2 deviations (1 byte, all but one, empty read), a failure at every offset with or without data", Body: func(x *core.X) {
			e := bulkEnv(x, []int{1, 2, 3, 5}, []disko.IOFlags{rw, rw | app, wo | syn})
			n := lens[x.Choose(len(lens), "bytes")]
			src := &source{x: x, data: payload(n), style: x.Choose(4, "splitting"), deviate: true, failAt: x.Choose(n+2, "failure") - 1}
			if src.failAt >= 0 {
				src.withErr = x.Bool("data with error")
				src.err = core.Pick(x, "error", peerErrs...)
			}
			e.readFrom(src)
			e.final()
		}},
		{Name: "read-from-large", Mode: core.DFS, Budget: 1, Bounds: "lengths around the internal buffer size, block sizes 3, 128, 512", Body: func(x *core.X) {
			b := core.Pick(x, "block size", 512, 3, 128)
			rel := core.Pick(x, "initial size", 0, 1, b, b+1)
			n := core.Pick(x, "bytes", 0, 1, 510, 511, 512, 513, 1023, 1024, 1025, 1536)
			style := x.Choose(4, "splitting")
			x.Begin()
			e := newEnv(x, b, 2, rel, rw, true)
			e.limit = 3000
			e.open()
			if style == 1 || style == 3 {
				// keep the number of choice points small
				src := &source{x: x, data: payload(n), style: style, failAt: -1}
				e.readFrom(src)
			} else {
				fail := core.Pick(x, "failure", -1, 0, 1, 511, 512, 513)
				src := &source{x: x, data: payload(n), style: style, deviate: true, failAt: min(fail, n)}
				e.readFrom(src)
			}
			e.final()
		}},
		{Name: "read-from-faults", Mode: core.DFS, Budget: pick(t, 1, 2), Bounds: "every placement of storage faults during ReadFrom", Body: func(x *core.X) {
			e := bulkEnv(x, []int{1, 2, 3}, []disko.IOFlags{rw, rw | app, rw | syn})
			n := lens[x.Choose(len(lens), "bytes")]
			src := &source{x: x, data: payload(n), style: x.Choose(4, "splitting"), failAt: -1}
			e.faults = true
			e.readFrom(src)
			e.final()
		}},
		{Name: "write-to", Mode: core.DFS, Budget: pick(t, 2, 3), Bounds: "block sizes 1-5, 0-2 blocks, every file size and start position, every destination failure (error, partial, short without error, complete with error)", Body: func(x *core.X) {
			e := bulkEnv(x, []int{1, 2, 3, 5}, []disko.IOFlags{rw, ro})
			dst := &sink{x: x, deviate: true}
			e.writeTo(dst)
			e.writeTo(&sink{x: x})
			e.final()
		}},
		{Name: "write-to-faults", Mode: core.DFS, Budget: pick(t, 1, 2), Bounds: "every placement of storage faults during WriteTo", Body: func(x *core.X) {
			e := bulkEnv(x, []int{1, 2, 3}, []disko.IOFlags{rw, ro})
			e.faults = true
			e.writeTo(&sink{x: x})
			e.faults = false
			e.hit = false
			e.writeTo(&sink{x: x})
			e.final()
		}},
		{Name: "scale", Mode: core.DFS, Bounds: scaleText + fmt.Sprintf("; every sequence of %d large operations including bulk copies", pick(t, 1, 2)), Body: scale(10, pick(t, 1, 2), true, rw, rw|app)},
		{Name: "stream-to-stream", Mode: core.DFS, Budget: 1, Bounds: "copies between two streams with block sizes 1-4, 512, 4096, 32768 and 65536 in both directions, every size and start position", Body: streamToStream},
		bytePairsPart,
		{Name: "contents", Mode: core.BFS, Depth: pick(t, 3, 4), Bounds: contentsText, Body: contents(false, rw, rw|app)},
		{Name: "cycles", Mode: core.DFS, Bounds: cycleText, Body: cycles(false, t, rw, rw|app)},
		{Name: "copy-chains", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: "histories mixing bulk copies with other operations", Body: func(x *core.X) {
			e := bulkEnv(x, []int{2, 3}, []disko.IOFlags{rw, rw | app})
			x.Step(e.state, e.final)
			for {
				switch k := x.Choose(9, "operation"); k {
				case 0, 1, 2:
					e.readFrom(&source{x: x, data: payload([]int{1, 3, 4}[k]), failAt: -1, style: k})
				case 3:
					e.writeTo(&sink{x: x})
				case 4:
					e.do(op{k: opSeek, off: 1})
				case 5:
					e.do(op{k: opSeek, off: 1, whence: 2})
				case 6:
					e.do(op{k: opTruncate, off: 3})
				case 7:
					e.do(op{k: opWriteAt, n: 2, off: 1, v: 2})
					if e.appending() {
						break
					}
				case 8:
					e.do(op{k: opSync})
				}
				x.Step(e.state, e.final)
			}
		}},
	}
}

func bulkEnv(x *core.X, sizes []int, flags []disko.IOFlags) *env {
	b := sizes[x.Choose(len(sizes), "block size")]
	blocks := x.Choose(3, "blocks")
	size := x.Choose(blocks*b+1, "file size")
	pos := x.Choose(size+3, "position")
	f := flags[x.Choose(len(flags), "flags")]
	x.Begin()
	e := newEnv(x, b, blocks, size, f, true)
	e.open()
	e.do(op{k: opSeek, off: int64(pos)})
	return e
}

func streamToStream(x *core.X) {
	sizes := []int{1, 2, 3, 4, 512, 4096, 32768, 65536}
	b1 := sizes[x.Choose(len(sizes), "source block size")]
	b2 := sizes[x.Choose(len(sizes), "destination block size")]
	var size, pos, size2, pos2 int
	if b1 < 512 {
		size = x.Choose(2*b1+1, "source size")
	} else {
		size = core.Pick(x, "source size", 0, 1, b1-1, b1, b1+1, 2*b1)
	}
	pos = core.Pick(x, "source position", 0, 1, size)
	if b2 < 512 {
		size2 = x.Choose(2*b2+1, "destination size")
	} else {
		size2 = core.Pick(x, "destination size", 0, 1, b2-1, b2, b2+1, 2*b2)
	}
	pos2 = core.Pick(x, "destination position", 0, 1, size2, size2+1)
	if m := max(b1, b2); m > 512 && min(b1, b2) < 512 && min(b1, b2) > 1 || m > 4096 && min(b1, b2) == 1 && (size > 3 && size2 > 3 || pos > 1 || pos2 > 1) {
		x.Abandon()
	}
	way := x.Choose(2, "ReadFrom/WriteTo")
	x.Begin()
	a := newEnv(x, b1, (size+b1-1)/b1, size, ro, true)
	a.open()
	b := newEnv(x, b2, (size2+b2-1)/b2, size2, rw, true)
	b.limit = 5000 + 5*max(b1, b2)
	b.open()
	a.do(op{k: opSeek, off: int64(pos)})
	b.do(op{k: opSeek, off: int64(pos2)})
	want := append([]byte(nil), a.data[min(pos, size):]...)
	var n int64
	var err error
	x.T()
	a.hit, b.hit = false, false
	b.unsync(pos2, pos2+len(want))
	if way == 0 {
		n, err = b.s.ReadFrom(a.s)
	} else {
		n, err = a.s.WriteTo(b.s)
	}
	x.Assert(err == nil && int(n) == len(want), "copying %d bytes returned %d, %v", len(want), n, err)
	a.pos = max(int64(pos), int64(pos)+n)
	b.write(pos2, want)
	b.pos = int64(pos2) + n
	a.check("copy")
	b.check("copy")
	a.final()
	b.final()
	x.Assert(bytes.Equal(a.store[:size], a.data), "the source changed")
}

// bulkFlags: bulk copies in every open mode.
func bulkFlags(x *core.X) {
	fl := allFlags()
	f := fl[x.Choose(len(fl), "flags")]
	b := core.Pick(x, "block size", 1, 2, 3)
	size := x.Choose(2*b+1, "file size")
	pos := x.Choose(size+3, "position")
	way := x.Choose(2, "ReadFrom/WriteTo")
	n := x.Choose(5, "bytes")
	x.Begin()
	e := newEnv(x, b, 2, size, f, true)
	if !e.open() {
		return
	}
	e.do(op{k: opSeek, off: int64(pos)})
	w := e.writes + e.resizes
	if way == 0 {
		e.readFrom(&source{x: x, data: payload(n), failAt: -1})
	} else {
		e.writeTo(&sink{x: x})
	}
	if !e.writable() {
		x.Assert(e.writes+e.resizes == w, "a refused copy changed the storage")
	}
	e.final()
}
