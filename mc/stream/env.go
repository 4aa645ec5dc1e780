// Checker for C07-C12: the byte stream over a block cache.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	bs "github.com/dargueta/disko/file_systems/common/basicstream"
	bc "github.com/dargueta/disko/file_systems/common/blockcache"
	core "github.com/dargueta/disko/zzverif/core"
)

var errInjected = errors.New("injected storage fault")

func pat(v, pos int) byte {
	switch v {
	case vZero:
		return 0
	case vOnes:
		return 0xFF
	case vNewline:
		return '\n'
	}
	if v >= vPair {
		return byte((v - vPair) >> (8 * (pos & 1)))
	}
	return byte(v*41 + pos*7 + pos>>8*3 + pos>>16*5 + pos>>24*11 + 1)
}

const garbage = 0xD7

// env is a stream under test, its storage and the reference byte file.
type env struct {
	x       *core.X
	s       *bs.BasicStream
	cache   *bc.BlockCache
	bsize   int
	flags   disko.IOFlags
	nblk    int // blocks the storage has
	limit   int // the storage refuses to grow past this
	store   []byte
	writes  int // block writes that reached the storage
	resizes int

	failFetch, failFlush int // the n-th next block access fails (0: none)

	faults  bool
	hit     bool
	refused bool // the storage refused to grow for lack of space

	fixed     bool // the cache cannot be resized
	must, may bool // the current operation has to be, or may be, refused because of that

	// model
	data   []byte
	alt    map[int][]byte // bytes which may have one of these other values (after failures)
	pos    int64
	synced []int // -1: not synced, else the byte value in storage at the last sync
}

func newEnv(x *core.X, bsize, blocks, size int, flags disko.IOFlags, fill bool) *env {
	e := &env{x: x, bsize: bsize, nblk: blocks, limit: blocks + 40, flags: flags, alt: map[int][]byte{}}
	e.store = make([]byte, bsize*blocks)
	for i := range e.store {
		e.store[i] = garbage
		if i < size {
			e.store[i] = pat(0, i)
		}
	}
	e.data = append([]byte(nil), e.store[:size]...)
	e.synced = make([]int, size)
	for i := range e.synced {
		e.synced[i] = int(e.data[i])
	}
	e.cache = bc.New(uint(bsize), uint(blocks), e.fetch, e.flush, e.resize)
	return e
}

// open creates the stream; it reports whether that succeeded.
func (e *env) open() bool {
	e.x.T()
	size := len(e.data)
	e.hit = false
	s, err := bs.New(int64(size), e.cache, e.flags)
	e.x.Logf("New(size %d, %d blocks of %d bytes, flags %#x): %v", size, e.nblk, e.bsize, int(e.flags), err)
	if e.hit {
		e.x.Assert(errors.Is(err, errInjected), "opening reported %v although the storage failed", err)
		return false
	}
	if e.flags&disko.O_TRUNC != 0 {
		if e.flags&disko.O_ACCMODE == disko.O_RDONLY {
			e.x.Assert(err != nil, "a read-only stream was opened with truncation")
			e.x.Assert(e.writes == 0 && e.resizes == 0, "a refused truncating open changed the storage")
			return false
		}
		e.data, e.synced = nil, nil
	}
	e.x.Assert(err == nil && s != nil, "opening the stream failed: %v", err)
	e.s = s
	e.pos = 0
	e.check("New")
	if e.flags&disko.O_SYNC != 0 && e.flags&disko.O_TRUNC != 0 {
		e.storageMatches("a truncating synchronous open")
	}
	return true
}

func (e *env) fetch(b c.LogicalBlock, buf []byte) error {
	e.x.Assert(len(buf) == e.bsize && int(b) < e.nblk, "fetch of block %d of %d, buffer %d", b, e.nblk, len(buf))
	if e.faults {
		if k := e.x.Deviate(3, "fetch fault"); k > 0 {
			e.hit = true
			if k == 2 {
				for i := range buf {
					buf[i] = 0xEE
				}
			}
			return errInjected
		}
	}
	if e.failFetch > 0 {
		if e.failFetch--; e.failFetch == 0 {
			e.hit = true
			return errInjected
		}
	}
	copy(buf, e.store[int(b)*e.bsize:])
	return nil
}

func (e *env) flush(b c.LogicalBlock, buf []byte) error {
	e.x.Assert(len(buf) == e.bsize && int(b) < e.nblk, "flush of block %d of %d, buffer %d", b, e.nblk, len(buf))
	e.x.Assert(e.flags&disko.O_ACCMODE != disko.O_RDONLY, "a read-only stream wrote to storage")
	e.writes++
	at := e.store[int(b)*e.bsize : (int(b)+1)*e.bsize]
	if e.faults {
		if k := e.x.Deviate(3, "flush fault"); k > 0 {
			e.hit = true
			if k == 2 {
				copy(at[:(e.bsize+1)/2], buf)
			}
			return errInjected
		}
	}
	if e.failFlush > 0 {
		if e.failFlush--; e.failFlush == 0 {
			e.hit = true
			copy(at[:(e.bsize+1)/2], buf)
			return errInjected
		}
	}
	copy(at, buf)
	// Only this block changed, so only its bytes need comparing.
	for i := int(b) * e.bsize; i < (int(b)+1)*e.bsize && i < len(e.synced); i++ {
		if v := e.synced[i]; v >= 0 {
			e.x.Assert(int(e.store[i]) == v, "byte %d, unchanged since the last sync with value %#x, is %#x in storage after block %d was written", i, v, e.store[i], b)
		}
	}
	return nil
}

func (e *env) resize(n c.LogicalBlock) error {
	e.x.Assert(e.flags&disko.O_ACCMODE != disko.O_RDONLY, "a read-only stream resized the storage")
	if int(n) > e.limit || n > math.MaxInt32 {
		e.refused = true
		return disko.ErrFileTooLarge
	}
	if e.faults && e.x.Deviate(2, "resize fault") == 1 {
		e.hit = true
		return errInjected
	}
	e.resizes++
	if k := int(n)*e.bsize - len(e.store); k > 0 {
		e.store = append(e.store, bytes.Repeat([]byte{garbage}, k)...)
	}
	e.nblk = int(n)
	return nil
}

type opKind int

const (
	opRead opKind = iota
	opReadAt
	opWrite
	opWriteAt
	opWriteString
	opSeek
	opTruncate
	opSync
	opBadOffset
)

type op struct {
	k      opKind
	n      int
	off    int64
	whence int
	v      int
}

func (o op) String() string {
	switch o.k {
	case opRead:
		return fmt.Sprintf("Read(%d)", o.n)
	case opReadAt:
		return fmt.Sprintf("ReadAt(%d, offset %d)", o.n, o.off)
	case opWrite:
		return fmt.Sprintf("Write(%d, version %d)", o.n, o.v)
	case opWriteString:
		return fmt.Sprintf("WriteString(%d, version %d)", o.n, o.v)
	case opWriteAt:
		return fmt.Sprintf("WriteAt(%d, offset %d, version %d)", o.n, o.off, o.v)
	case opSeek:
		return fmt.Sprintf("Seek(%d, whence %d)", o.off, o.whence)
	case opTruncate:
		return fmt.Sprintf("Truncate(%d)", o.off)
	case opSync:
		return "Sync()"
	}
	return fmt.Sprintf("operations on invalid offset %d", o.off)
}

func (e *env) readable() bool    { return e.flags&disko.O_ACCMODE != disko.O_WRONLY }
func (e *env) writable() bool    { return e.flags&disko.O_ACCMODE != disko.O_RDONLY }
func (e *env) appending() bool   { return e.flags&disko.O_APPEND != 0 }
func (e *env) synchronous() bool { return e.flags&disko.O_SYNC != 0 }

// check compares the size and the position with the model.
func (e *env) check(what any) {
	e.x.Assert(e.s.Size() == int64(len(e.data)), "after %v the size is %d, expected %d", what, e.s.Size(), len(e.data))
	e.x.Assert(e.s.Tell() == e.pos, "after %v the position is %d, expected %d", what, e.s.Tell(), e.pos)
}

// failed handles an operation during which the storage failed.
func (e *env) failed(o any, err error) bool {
	if e.refused || e.must {
		e.x.Assert(err != nil, "%v reported success although the storage cannot grow", o)
		return true
	}
	if e.may && err != nil {
		return true
	}
	if !e.hit {
		e.x.Assert(err == nil, "%v failed: %v", o, err)
		return false
	}
	e.x.Assert(err != nil, "%v reported success although the storage failed", o)
	e.x.Assert(errors.Is(err, errInjected), "the error of %v does not carry the storage's error: %v", o, err)
	return true
}

// match compares bytes read with the model, settling undetermined bytes.
func (e *env) match(o any, got []byte, off int) {
	for i, g := range got {
		p := off + i
		e.x.Assert(g == e.data[p] || bytes.IndexByte(e.alt[p], g) >= 0, "%v: byte %d is %#x, expected %#x", o, p, g, e.data[p])
		e.data[p] = g
		delete(e.alt, p)
	}
}

func (e *env) resizeModel(n int) {
	for len(e.data) < n {
		e.data = append(e.data, 0)
		e.synced = append(e.synced, -1)
	}
	for i := n; i < len(e.data); i++ {
		delete(e.alt, i)
	}
	e.data = e.data[:n]
	e.synced = e.synced[:n]
}

func (e *env) write(off int, b []byte) {
	if len(b) == 0 {
		return
	}
	if off+len(b) > len(e.data) {
		e.resizeModel(off + len(b))
	}
	copy(e.data[off:], b)
	for i := range b {
		e.synced[off+i] = -1
		delete(e.alt, off+i)
	}
}

// unsync marks bytes the current operation may change as not synced.
func (e *env) unsync(lo, hi int) {
	for i := max(lo, 0); i < hi && i < len(e.synced); i++ {
		e.synced[i] = -1
	}
}

// failedWrite updates the model after a write that returned an error.
func (e *env) failedWrite(o any, off int, b []byte) {
	size := int(e.s.Size())
	old := len(e.data)
	e.x.Assert(size >= old && size <= max(old, off+len(b)), "after the failed %v the size is %d, it was %d", o, size, old)
	e.resizeModel(size)
	for i := range b {
		if off+i < size {
			e.synced[off+i] = -1
			if e.data[off+i] != b[i] {
				e.alt[off+i] = append(e.alt[off+i], b[i])
			}
		}
	}
}

func (e *env) do(o op) {
	x := e.x
	x.T()
	x.Logf("%v", o)
	e.hit, e.refused, e.must, e.may = false, false, false, false
	before := e.writes + e.resizes
	if e.fixed {
		end := e.pos
		switch {
		case o.k == opWriteAt || o.k == opTruncate:
			end = o.off
		case e.appending():
			end = int64(len(e.data))
		}
		capacity := int64(e.nblk * e.bsize)
		switch o.k {
		case opWrite, opWriteString, opWriteAt:
			e.must = o.n > 0 && end+int64(o.n) > capacity
		case opTruncate:
			e.must, e.may = end > capacity, true
		}
	}
	switch o.k {
	case opRead, opReadAt:
		buf := make([]byte, o.n)
		for i := range buf {
			buf[i] = 0xCC
		}
		off := e.pos
		var n int
		var err error
		if o.k == opRead {
			n, err = e.s.Read(buf)
		} else {
			off = o.off
			n, err = e.s.ReadAt(buf, off)
		}
		x.Assert(n >= 0 && n <= o.n, "%v reported %d bytes", o, n)
		if !e.readable() {
			if o.n > 0 {
				x.Assert(errors.Is(err, disko.ErrNotPermitted), "%v on a write-only stream returned %d, %v", o, n, err)
			}
			x.Assert(n == 0, "%v on a write-only stream read %d bytes", o, n)
			break
		}
		avail := min(max(int64(len(e.data))-off, 0), int64(o.n))
		if e.hit {
			e.failed(o, err)
			x.Assert(int64(n) <= avail, "the failed %v reported %d bytes", o, n)
		} else {
			x.Assert(int64(n) == avail, "%v at offset %d of %d bytes returned %d, %v", o, off, len(e.data), n, err)
			switch {
			case n == o.n && n > 0:
				x.Assert(err == nil, "%v returned %d bytes and %v", o, n, err)
			case o.n == 0:
				x.Assert(err == nil || err == io.EOF, "%v returned %v", o, err)
			case n == 0 || o.k == opReadAt:
				x.Assert(err == io.EOF, "%v at offset %d of %d bytes returned %d, %v instead of end-of-file", o, off, len(e.data), n, err)
			default:
				x.Assert(err == nil || err == io.EOF, "%v returned %d, %v", o, n, err)
			}
		}
		e.match(o, buf[:n], int(off))
		if o.k == opRead {
			e.pos += int64(n)
		}
	case opWrite, opWriteString, opWriteAt:
		off := e.pos
		if o.k == opWriteAt {
			off = o.off
		} else if e.appending() {
			off = int64(len(e.data))
		}
		b := make([]byte, o.n)
		for i := range b {
			b[i] = e.byteFor(o.v, int(off)+i)
		}
		orig := append([]byte(nil), b...)
		if e.writable() && o.n > 0 {
			e.unsync(int(off), int(off)+o.n)
		}
		var n int
		var err error
		switch o.k {
		case opWrite:
			n, err = e.s.Write(b)
		case opWriteString:
			n, err = e.s.WriteString(string(b))
		default:
			n, err = e.s.WriteAt(b, off)
		}
		x.Assert(bytes.Equal(b, orig), "%v changed the caller's buffer", o)
		for i := range b {
			b[i] = 0xBB // the caller may reuse its buffer
		}
		if !e.writable() || o.k == opWriteAt && e.appending() {
			if o.n > 0 {
				x.Assert(errors.Is(err, disko.ErrNotPermitted), "%v on a stream with flags %#x returned %d, %v", o, int(e.flags), n, err)
			}
			x.Assert(n == 0, "the refused %v reported %d bytes", o, n)
			x.Assert(e.writes+e.resizes == before, "the refused %v changed the storage", o)
			break
		}
		if o.n == 0 && o.k != opWriteAt && e.appending() && e.s.Tell() == int64(len(e.data)) {
			e.pos = int64(len(e.data)) // an empty append may move the cursor to the end
		}
		if e.failed(o, err) {
			x.Assert(n >= 0 && n <= o.n, "the failed %v reported %d bytes", o, n)
			e.failedWrite(o, int(off), orig)
			if o.k != opWriteAt {
				// In append mode the cursor may have been moved to the end first.
				x.Assert(e.s.Tell() == e.pos+int64(n) || e.appending() && e.s.Tell() == off+int64(n), "after the failed %v, which reported %d bytes, the position moved from %d to %d", o, n, e.pos, e.s.Tell())
				e.pos = e.s.Tell()
			}
			break
		}
		x.Assert(n == o.n, "%v reported %d bytes", o, n)
		e.write(int(off), orig)
		if o.k != opWriteAt && o.n > 0 {
			e.pos = off + int64(n)
		}
		if e.synchronous() && o.n > 0 {
			e.storageMatches(o)
		}
	case opSeek:
		var want int64
		switch o.whence {
		case io.SeekStart:
			want = o.off
		case io.SeekCurrent:
			want = e.pos + o.off
		case io.SeekEnd:
			want = int64(len(e.data)) + o.off
		default:
			want = -1
		}
		got, err := e.s.Seek(o.off, o.whence)
		if want < 0 {
			x.Assert(err != nil, "%v at position %d succeeded", o, e.pos)
		} else {
			x.Assert(err == nil && got == want, "%v from position %d returned %d, %v, expected %d", o, e.pos, got, err, want)
			e.pos = want
		}
	case opTruncate:
		if e.writable() && o.off >= 0 {
			e.unsync(int(o.off), len(e.synced))
		}
		err := e.s.Truncate(o.off)
		if !e.writable() {
			x.Assert(errors.Is(err, disko.ErrNotPermitted), "%v on a read-only stream returned %v", o, err)
			x.Assert(e.writes+e.resizes == before, "the refused %v changed the storage", o)
			break
		}
		if o.off < 0 {
			x.Assert(err != nil, "%v succeeded", o)
			x.Assert(e.writes+e.resizes == before, "the refused %v changed the storage", o)
			break
		}
		if e.failed(o, err) {
			size := int(e.s.Size())
			x.Assert(size == len(e.data) || int64(size) == o.off, "after the failed %v the size is %d, it was %d", o, size, len(e.data))
			e.resizeModel(size)
			break
		}
		e.resizeModel(int(o.off))
		if e.synchronous() {
			e.storageMatches(o)
		}
	case opSync:
		err := e.s.Sync()
		if !e.failed(o, err) {
			e.storageMatches(o)
		}
	case opBadOffset:
		b := []byte{1, 2, 3}
		if o.off < 0 {
			n, err := e.s.ReadAt(b, o.off)
			x.Assert(n == 0 && err != nil && err != io.EOF, "ReadAt(offset %d) returned %d, %v", o.off, n, err)
		} else if e.readable() {
			n, err := e.s.ReadAt(b, o.off)
			x.Assert(n == 0 && err == io.EOF, "ReadAt(offset %d) returned %d, %v", o.off, n, err)
		}
		e.hit, e.refused = false, false
		n, err := e.s.WriteAt(b, o.off)
		x.Assert(n == 0 && err != nil, "WriteAt(offset %d) returned %d, %v", o.off, n, err)
		err = e.s.Truncate(o.off)
		x.Assert(err != nil, "Truncate(%d) returned %v", o.off, err)
		if o.off > 0 && e.writable() && !e.appending() {
			// A write at a far away position fails without an effect.
			p, err := e.s.Seek(o.off, io.SeekStart)
			x.Assert(err == nil && p == o.off, "Seek(%d) returned %d, %v", o.off, p, err)
			n, err := e.s.Write(b)
			x.Assert(n == 0 && err != nil, "Write at offset %d returned %d, %v", o.off, n, err)
			if p > math.MaxInt64-10 {
				q, err := e.s.Seek(100, io.SeekCurrent)
				x.Assert(err != nil, "Seek past the largest offset returned %d, %v", q, err)
			}
			x.Assert(e.s.Tell() == o.off, "a failed write moved the position to %d", e.s.Tell())
			e.s.Seek(e.pos, io.SeekStart)
		}
	}
	if len(e.alt) == 0 || !e.hit {
		e.check(o)
	} else {
		e.x.Assert(e.s.Size() == int64(len(e.data)), "after %v the size is %d, expected %d", o, e.s.Size(), len(e.data))
	}
}

// storageMatches: after a successful sync the storage holds the file.
func (e *env) storageMatches(what any) {
	x := e.x
	x.Assert(e.nblk*e.bsize >= len(e.data), "after %v the storage has %d blocks of %d bytes for %d bytes", what, e.nblk, e.bsize, len(e.data))
	for i, v := range e.data {
		x.Assert(e.store[i] == v || bytes.IndexByte(e.alt[i], e.store[i]) >= 0, "after %v byte %d is %#x in storage, expected %#x", what, i, e.store[i], v)
		e.data[i] = e.store[i]
		delete(e.alt, i)
		e.synced[i] = int(e.store[i])
	}
}

// final reads everything back and compares the storage after Close.
func (e *env) final() {
	e.faults = false
	if e.readable() {
		e.do(op{k: opReadAt, n: len(e.data) + 1, off: 0})
	}
	e.x.T()
	e.hit = false
	err := e.s.Close()
	e.x.Assert(err == nil, "Close failed: %v", err)
	e.storageMatches("Close()")
	if e.readable() {
		e.do(op{k: opReadAt, n: len(e.data), off: 0})
	}
}

func (e *env) state() uint64 {
	h := core.NewH().Deep(e.s).B(e.store).I(e.nblk).B(e.data).I(int(e.pos)).I(int(e.flags)).I(e.bsize)
	for _, v := range e.synced {
		h.I(v)
	}
	var a uint64
	for i, v := range e.alt {
		a += core.NewH().I(i).B(v).Sum()
	}
	return h.U(a).Sum()
}
