// Checker for C01-C06: the block cache.
package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	bc "github.com/dargueta/disko/file_systems/common/blockcache"
	core "github.com/dargueta/disko/zzverif/core"
)

var errInjected = errors.New("injected storage fault")

const maxBlocks = 1 << 18

// pat is the byte a write of version v stores at absolute position pos.
func pat(v, pos int) byte {
	switch v {
	case vZero:
		return 0
	case vOnes:
		return 0xFF
	case vDeleted:
		return 0xE5
	}
	if v >= vPair {
		return byte((v - vPair) >> (8 * (pos & 1)))
	}
	return byte(v*41 + pos*7 + pos>>8*3 + pos>>16*5 + pos>>24*11 + 1)
}

// env is a cache under test over a recording storage, plus the reference model.
type env struct {
	x     *core.X
	cache *bc.BlockCache
	bs, n int

	// environment
	store                []byte // storage content, may be longer than n blocks (stale tail)
	faults               bool   // storage faults may be chosen
	faultHit             bool   // the current operation hit a fault
	flushLog             []int
	fetches              int
	resizes              int
	inFlush              bool
	prev                 []byte // storage at the start of the current flush
	flushCheck           bool
	failFetch, failFlush int  // the n-th next block access fails (0: none)
	fixed                bool // the cache cannot be resized

	// model
	content []byte       // logical content
	pending map[int]bool // modified or marked since the last flush of the block
}

func newEnv(x *core.X, bs, n int) *env {
	e := &env{x: x, bs: bs, n: n, pending: map[int]bool{}}
	e.store = make([]byte, bs*n)
	for i := range e.store {
		e.store[i] = pat(0, i)
	}
	e.content = append([]byte(nil), e.store...)
	e.cache = bc.New(uint(bs), uint(n), e.fetch, e.flush, e.resize)
	return e
}

func (e *env) fetch(b c.LogicalBlock, buf []byte) error {
	e.fetches++
	e.x.Assert(len(buf) == e.bs, "fetch of block %d into a buffer of %d bytes, block size %d", b, len(buf), e.bs)
	e.x.Assert(int(b) < e.n && b < maxBlocks, "fetch of block %d of %d", b, e.n)
	if e.faults {
		switch e.x.Deviate(3, "fetch fault") {
		case 1:
			e.faultHit = true
			return errInjected
		case 2:
			for i := range buf {
				if i <= len(buf)/2 {
					buf[i] = 0xEE
				}
			}
			e.faultHit = true
			return errInjected
		}
	}
	if e.failFetch > 0 {
		if e.failFetch--; e.failFetch == 0 {
			e.faultHit = true
			return errInjected
		}
	}
	copy(buf, e.store[int(b)*e.bs:(int(b)+1)*e.bs])
	return nil
}

func (e *env) flush(b c.LogicalBlock, buf []byte) error {
	e.x.Assert(len(buf) == e.bs, "flush of block %d with a buffer of %d bytes, block size %d", b, len(buf), e.bs)
	e.x.Assert(int(b) < e.n && b < maxBlocks, "flush of block %d of %d", b, e.n)
	e.flushLog = append(e.flushLog, int(b))
	at := e.store[int(b)*e.bs : (int(b)+1)*e.bs]
	if e.flushCheck {
		e.x.Assert(e.inFlush, "block %d was written to storage outside of Flush", b)
		e.x.Assert(e.pending[int(b)], "flush wrote block %d, which was not modified since the last flush", b)
		e.x.Assert(bytes.Equal(buf, e.content[int(b)*e.bs:(int(b)+1)*e.bs]), "flush wrote % x to block %d, its content is % x", buf, b, e.content[int(b)*e.bs:(int(b)+1)*e.bs])
	}
	if e.faults {
		switch e.x.Deviate(3, "flush fault") {
		case 1:
			e.faultHit = true
			return errInjected
		case 2: // torn write
			copy(at[:(e.bs+1)/2], buf)
			if e.bs == 1 {
				at[0] ^= 0xff
			}
			e.faultHit = true
			return errInjected
		}
	}
	if e.failFlush > 0 {
		if e.failFlush--; e.failFlush == 0 {
			copy(at[:(e.bs+1)/2], buf)
			e.faultHit = true
			return errInjected
		}
	}
	copy(at, buf)
	if e.flushCheck && e.n <= 64 {
		// Crash point: every block old or new.
		for k := 0; k < e.n; k++ {
			s := e.store[k*e.bs : (k+1)*e.bs]
			e.x.Assert(bytes.Equal(s, e.prev[k*e.bs:(k+1)*e.bs]) || bytes.Equal(s, e.content[k*e.bs:(k+1)*e.bs]),
				"during a flush block %d of the storage is neither old nor new: % x", k, s)
		}
	}
	return nil
}

func (e *env) resize(n c.LogicalBlock) error {
	e.resizes++
	if n > maxBlocks {
		return disko.ErrFileTooLarge
	}
	if e.faults && e.x.Deviate(2, "resize fault") == 1 {
		e.faultHit = true
		return errInjected
	}
	// New storage blocks hold garbage (or whatever was there before).
	if k := int(n)*e.bs - len(e.store); k > 0 {
		e.store = append(e.store, bytes.Repeat([]byte{0xD7}, k)...)
	}
	e.n = int(n)
	return nil
}

type opKind int

const (
	opRead opKind = iota
	opWrite
	opSlice
	opModify // GetSlice, change, mark dirty
	opMark
	opFlush
	opData
	opResize
)

type op struct {
	kind       opKind
	start, len int // len: bytes for read/write, blocks otherwise; new size for resize
	v          int
}

func (o op) String() string {
	switch o.kind {
	case opRead:
		return fmt.Sprintf("ReadAt(%d bytes, block %d)", o.len, o.start)
	case opWrite:
		return fmt.Sprintf("WriteAt(%d bytes of version %d, block %d)", o.len, o.v, o.start)
	case opSlice:
		return fmt.Sprintf("GetSlice(%d, %d)", o.start, o.len)
	case opModify:
		return fmt.Sprintf("GetSlice(%d, %d), fill with version %d, MarkBlockRangeDirty", o.start, o.len, o.v)
	case opMark:
		return fmt.Sprintf("MarkBlockRangeDirty(%d, %d)", o.start, o.len)
	case opFlush:
		return "Flush()"
	case opData:
		return "Data()"
	}
	return fmt.Sprintf("Resize(%d)", o.len)
}

// checkErr compares an operation's error with the injected faults. It returns
// true if the operation succeeded.
func (e *env) checkErr(o op, err error) bool {
	if e.faultHit {
		e.x.Assert(err != nil, "%v reported success although the storage failed", o)
		e.x.Assert(errors.Is(err, errInjected), "the error of %v does not carry the storage's error: %v", o, err)
		return false
	}
	e.x.Assert(err == nil, "%v failed: %v", o, err)
	return true
}

func (e *env) byteFor(v, pos int) byte {
	if v == vSame {
		return e.content[pos]
	}
	return pat(v, pos)
}

// do applies one (in-range) operation to the implementation and the model.
func (e *env) do(o op) {
	x := e.x
	x.T()
	e.faultHit = false
	x.Logf("%v", o)
	lo := o.start * e.bs
	switch o.kind {
	case opRead:
		buf := make([]byte, o.len)
		for i := range buf {
			buf[i] = 0xCC
		}
		n, err := e.cache.ReadAt(buf, c.LogicalBlock(o.start))
		if e.checkErr(o, err) {
			x.Assert(n == o.len, "%v reported %d bytes", o, n)
			x.Assert(bytes.Equal(buf, e.content[lo:lo+o.len]), "%v returned % x, expected % x", o, buf, e.content[lo:lo+o.len])
		}
	case opWrite:
		buf := make([]byte, o.len)
		for i := range buf {
			buf[i] = e.byteFor(o.v, lo+i)
		}
		n, err := e.cache.WriteAt(buf, c.LogicalBlock(o.start))
		if e.checkErr(o, err) {
			x.Assert(n == o.len, "%v reported %d bytes", o, n)
			copy(e.content[lo:], buf)
			for b := o.start; b*e.bs < lo+o.len; b++ {
				e.pending[b] = true
			}
			for i := range buf {
				buf[i] = 0xBB // the caller may reuse its buffer
			}
		}
	case opSlice:
		s, err := e.cache.GetSlice(c.LogicalBlock(o.start), uint(o.len))
		if e.checkErr(o, err) {
			x.Assert(len(s) == o.len*e.bs, "%v returned %d bytes", o, len(s))
			x.Assert(bytes.Equal(s, e.content[lo:lo+len(s)]), "%v returned % x, expected % x", o, s, e.content[lo:lo+len(s)])
		}
	case opModify:
		s, err := e.cache.GetSlice(c.LogicalBlock(o.start), uint(o.len))
		if !e.checkErr(o, err) {
			return
		}
		x.Assert(len(s) == o.len*e.bs, "%v returned %d bytes", o, len(s))
		for i := range s {
			s[i] = e.byteFor(o.v, lo+i)
			e.content[lo+i] = s[i]
		}
		err = e.cache.MarkBlockRangeDirty(c.LogicalBlock(o.start), uint(o.len))
		if e.checkErr(o, err) {
			for b := o.start; b < o.start+o.len; b++ {
				e.pending[b] = true
			}
		}
	case opMark:
		err := e.cache.MarkBlockRangeDirty(c.LogicalBlock(o.start), uint(o.len))
		if e.checkErr(o, err) {
			for b := o.start; b < o.start+o.len; b++ {
				e.pending[b] = true
			}
		}
	case opFlush:
		e.doFlush(o)
	case opData:
		s, err := e.cache.Data()
		if e.checkErr(o, err) {
			x.Assert(bytes.Equal(s, e.content), "Data() returned % x, expected % x", s, e.content)
		}
	case opResize:
		old := e.n
		err := e.cache.Resize(uint(o.len))
		if e.fixed {
			x.Assert(err != nil || o.len == old, "%v of a cache without a resize callback succeeded", o)
			x.Assert(err == nil || errors.Is(err, disko.ErrNotSupported) || errors.Is(err, disko.ErrNotPermitted), "%v of a cache without a resize callback: %v", o, err)
			x.Assert(int(e.cache.TotalBlocks()) == old && e.cache.Size() == int64(old*e.bs), "a refused resize changed the size from %d to %d blocks", old, e.cache.TotalBlocks())
		} else if e.checkErr(o, err) {
			x.Assert(int(e.cache.TotalBlocks()) == o.len && e.cache.Size() == int64(o.len*e.bs), "after %v the cache has %d blocks, %d bytes", o, e.cache.TotalBlocks(), e.cache.Size())
			for b := old; b < o.len; b++ {
				e.pending[b] = true
			}
			for b := o.len; b < old; b++ {
				delete(e.pending, b)
			}
			nc := make([]byte, o.len*e.bs)
			copy(nc, e.content)
			e.content = nc
		} else {
			x.Assert(int(e.cache.TotalBlocks()) == old && e.cache.Size() == int64(old*e.bs), "a refused resize changed the size from %d to %d blocks", old, e.cache.TotalBlocks())
		}
	}
}

func (e *env) doFlush(o op) {
	e.prev = append(e.prev[:0], e.store...)
	e.flushLog = e.flushLog[:0]
	e.inFlush = true
	err := e.cache.Flush()
	e.inFlush = false
	if !e.checkErr(o, err) {
		// Blocks written completely before the failure may or may not be
		// written again.
		for i, b := range e.flushLog {
			if i < len(e.flushLog)-1 {
				delete(e.pending, b)
			}
		}
		return
	}
	seen := map[int]bool{}
	for _, b := range e.flushLog {
		e.x.Assert(!seen[b] || !e.flushCheck, "flush wrote block %d twice", b)
		seen[b] = true
	}
	if e.flushCheck {
		for b := range e.pending {
			e.x.Assert(seen[b], "flush did not write modified block %d", b)
		}
	}
	clear(e.pending)
	e.x.Assert(bytes.Equal(e.store[:len(e.content)], e.content), "after Flush() the storage holds % x, the content is % x", e.store[:len(e.content)], e.content)
}

// readBack checks the whole logical content (destructive: loads everything).
func (e *env) readBack() {
	e.faults = false
	if e.n > 0 {
		e.do(op{kind: opRead, start: 0, len: e.n * e.bs})
		for b := 0; b < e.n; b++ {
			e.do(op{kind: opSlice, start: b, len: 1})
		}
	}
	e.do(op{kind: opData})
}

// flushBack checks that a successful flush leaves everything in storage.
func (e *env) flushBack() {
	e.faults = false
	e.do(op{kind: opFlush})
	e.do(op{kind: opFlush})
	if e.flushCheck {
		e.x.Assert(len(e.flushLog) == 0, "a second flush wrote blocks %v", e.flushLog)
	}
}

func (e *env) state() uint64 {
	h := core.NewH().Deep(e.cache).B(e.store).B(e.content).I(e.n).I(e.bs)
	var s uint64
	for b := range e.pending {
		s += core.NewH().I(b).Sum()
	}
	return h.U(s).Sum()
}

// menu lists the operations on a cache of n blocks; all of them if full,
// otherwise those at structurally interesting positions.
func menu(bs, n int, full bool, versions int, resizes []int) []op {
	var m []op
	m = append(m, op{kind: opFlush})
	starts := []int{}
	if full {
		for i := 0; i < n; i++ {
			starts = append(starts, i)
		}
	} else {
		seen := map[int]bool{}
		for _, s := range []int{0, 1, 7, 8, 9, 15, 16, 31, 32, 63, 64, n / 2, n - 2, n - 1} {
			if s >= 0 && s < n && !seen[s] {
				seen[s] = true
				starts = append(starts, s)
			}
		}
	}
	for _, s := range starts {
		var lens []int
		rest := n - s
		if full {
			for l := 0; l <= rest*bs; l++ {
				lens = append(lens, l)
			}
		} else {
			seen := map[int]bool{}
			for _, l := range []int{1, bs - 1, bs, bs + 1, 2*bs - 1, 2 * bs, rest*bs - 1, rest * bs} {
				if l > 0 && l <= rest*bs && !seen[l] {
					seen[l] = true
					lens = append(lens, l)
				}
			}
		}
		for _, l := range lens {
			m = append(m, op{kind: opRead, start: s, len: l})
			if l > 0 || full {
				for v := 1; v <= versions; v++ {
					m = append(m, op{kind: opWrite, start: s, len: l, v: v})
				}
			}
		}
		for k := 1; k <= rest; k++ {
			if !full && k > 2 && k != rest {
				continue
			}
			m = append(m, op{kind: opSlice, start: s, len: k}, op{kind: opMark, start: s, len: k})
			m = append(m, op{kind: opModify, start: s, len: k, v: 1 + versions})
		}
	}
	for _, r := range resizes {
		m = append(m, op{kind: opResize, len: r})
	}
	m = append(m, op{kind: opData})
	return m
}

// newEnvNoData makes a cache of no blocks, for size computations only.
func newEnvNoData(x *core.X, bs uint64) *env {
	e := &env{x: x, bs: int(bs), pending: map[int]bool{}}
	e.cache = bc.New(uint(bs), 0, e.fetch, e.flush, e.resize)
	return e
}
