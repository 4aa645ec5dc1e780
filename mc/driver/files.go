package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	core "github.com/dargueta/disko/zzverif/core"
)

// slot is an open file.
type slot struct {
	f     *driver.File
	n     *node
	flags disko.IOFlags
	pos   int
	// closed files are only kept to check what using them does
	closed bool
}

// files is a volume, or two, with files open.
type files struct {
	x       *core.X
	vols    []*sys
	slots   [2]*slot
	unknown map[*node]bool // content is unspecified because storing it failed
	offs    []int
	lens    []int
	ver     int // counts writes, so that rewriting something changes it
	fills   bool
	flags   []disko.IOFlags
}

type fkind int

const (
	fOpen fkind = iota
	fWrite
	fWriteString
	fWriteAt
	fRead
	fReadAt
	fSeek
	fTruncate
	fSync
	fClose
	fStat
	pWriteFile
	pTruncate
	pRead
	fReadFrom
	fWriteTo
	pRemove
	fAbuse // everything else one can do with a File
)

var fnames = []string{"OpenFile", "Write", "WriteString", "WriteAt", "Read", "ReadAt", "Seek", "Truncate", "Sync", "Close", "Stat", "WriteFile", "Truncate", "ReadFile", "ReadFrom", "WriteTo", "RemoveAll", "other operations"}

type fop struct {
	k      fkind
	slot   int
	name   string
	flags  disko.IOFlags
	n, off int
	whence int
	fill   byte // 1, 2: write zeros or 0xFF instead
}

func (o fop) String() string {
	switch o.k {
	case fOpen:
		return fmt.Sprintf("file %d: OpenFile(%q, %#x)", o.slot, o.name, int(o.flags))
	case pWriteFile:
		return fmt.Sprintf("WriteFile(%q, %d bytes, fill %d)", o.name, o.n, o.fill)
	case pTruncate, pRead, pRemove:
		return fmt.Sprintf("%s(%q)", fnames[o.k], o.name)
	}
	return fmt.Sprintf("file %d: %s(length %d, offset %d, whence %d, fill %d)", o.slot, fnames[o.k], o.n, o.off, o.whence, o.fill)
}

// the names of the files
var fileNames = [][]string{{"/f", "/h", "/s", "/d/f"}, {"/g"}}

func fileTree(size int) *node {
	root, d := dirNode(0o755), dirNode(0o755)
	content := make([]byte, size)
	for i := range content {
		content[i] = byte('0' + i%10)
	}
	f, g := fileNode(string(content)), fileNode("GGG")
	root.add("f", f)
	root.add("h", f)
	root.add("s", linkNode("h"))
	root.add("d", d)
	d.add("f", linkNode("/f"))
	root.add("g", g)
	return root
}

func newFiles(x *core.X, size, bsize int, two bool) *files {
	e := &files{x: x, unknown: map[*node]bool{}}
	e.vols = append(e.vols, newSys(x, fileTree(size), bsize, disko.MountFlagsAllowAll))
	if two {
		e.vols = append(e.vols, newSys(x, fileTree(size+1), bsize, disko.MountFlagsAllowAll))
	}
	return e
}

// vol is the volume of a slot.
func (e *files) vol(slot int) *sys { return e.vols[slot%len(e.vols)] }

func (n *node) resize(size int) {
	if k := size - len(n.data); k > 0 {
		n.data = append(n.data, make([]byte, k)...)
	}
	n.data = n.data[:size]
}

func (n *node) write(off int, b []byte) {
	if off+len(b) > len(n.data) {
		n.resize(off + len(b))
	}
	copy(n.data[off:], b)
}

// payload is what an operation writes. It differs from one write to the next.
func (e *files) payload(o fop, off int) []byte {
	b := make([]byte, o.n)
	for i := range b {
		switch o.fill {
		case 0:
			b[i] = byte('a' + 13*o.slot + (off+i+5*e.ver)%13)
		case 2:
			b[i] = 0xFF
		}
	}
	return b
}

// stored: the implementation has the content of a file.
func (e *files) stored(v *sys, o any, n *node) {
	if e.unknown[n] || v.contract {
		return
	}
	ino := v.inodeOf(n)
	e.x.Assert(bytes.Equal(ino.data(), n.data), "after the successful %v the file contains %q, want %q", o, ino.data(), n.data)
}

// inodeOf finds the stored object that corresponds to a file of the reference.
func (s *sys) inodeOf(n *node) *inode {
	for _, p := range []string{"f", "h", "g", "n"} {
		if s.r.root.kids[p] == n {
			if i := s.fs.root.get(p); i != nil {
				return i
			}
			s.x.Fail("/%s is missing", p)
		}
	}
	panic("harness error: no such file")
}

// menu lists what can be done in the current state.
func (e *files) menu() []fop {
	var m []fop
	for i := range e.slots {
		s := e.slots[i]
		if s == nil {
			if i == 0 {
				for _, fl := range e.flags {
					for _, name := range []string{"/f", "/h", "/s", "n"} {
						if name == "/f" || fl == rw || fl == wr|creat|trunc || name == "n" && creates(fl) || fl == rw|creat|excl {
							m = append(m, fop{k: fOpen, slot: i, name: name, flags: fl})
						}
					}
				}
				for _, n := range e.lens {
					m = append(m, fop{k: pWriteFile, slot: i, name: "/d/f", n: n})
				}
				if e.fills {
					m = append(m, fop{k: pWriteFile, slot: i, name: "/h", n: 2 * e.lens[0], fill: 1}, fop{k: pWriteFile, slot: i, name: "/f", n: e.lens[0], fill: 2})
				}
				m = append(m, fop{k: pTruncate, slot: i, name: "/s"}, fop{k: pWriteFile, slot: i, name: "/n", n: 1})
			} else {
				m = append(m, fop{k: fOpen, slot: i, name: "/g", flags: rw}, fop{k: fOpen, slot: i, name: "/g", flags: wr | trunc | syn}, fop{k: pWriteFile, slot: i, name: "/g", n: 2})
			}
			continue
		}
		if i == 1 {
			m = append(m, fop{k: fWrite, slot: i, n: 2}, fop{k: fRead, slot: i, n: 2}, fop{k: fTruncate, slot: i, n: 1}, fop{k: fSync, slot: i}, fop{k: fClose, slot: i})
			continue
		}
		m = append(m, fop{k: fSync, slot: i}, fop{k: fClose, slot: i}, fop{k: fStat, slot: i})
		for _, n := range e.lens {
			m = append(m, fop{k: fWrite, slot: i, n: n}, fop{k: fRead, slot: i, n: n})
			if e.fills {
				m = append(m, fop{k: fWrite, slot: i, n: n, fill: 1}, fop{k: fWrite, slot: i, n: n, fill: 2}, fop{k: fReadFrom, slot: i, n: n, fill: 1})
			}
		}
		for _, off := range e.offs {
			if e.fills {
				m = append(m, fop{k: fWriteAt, slot: i, n: e.lens[0], off: off, fill: 1})
			}
			m = append(m, fop{k: fSeek, slot: i, off: off}, fop{k: fTruncate, slot: i, n: off}, fop{k: fWriteAt, slot: i, n: e.lens[0], off: off}, fop{k: fReadAt, slot: i, n: e.lens[len(e.lens)-1], off: off})
		}
		m = append(m, fop{k: fSeek, slot: i, whence: 2}, fop{k: fSeek, slot: i, whence: 1, off: -1}, fop{k: fWriteString, slot: i, n: e.lens[0]}, fop{k: fReadFrom, slot: i, n: e.lens[len(e.lens)-1]}, fop{k: fWriteTo, slot: i})
	}
	return m
}

// failed: an operation that failed because the implementation did, or would not
// let the file grow.
func (e *files) failed(v *sys, o any, n *node, err error) bool {
	if err == nil {
		return false
	}
	if e.unknown[n] {
		return true
	}
	e.x.Assert(v.fs.failed != "" || v.fs.refused, "%v: %v", o, err)
	return true
}

func (e *files) do(o fop) {
	x := e.x
	x.T()
	x.Logf("%v", o)
	v := e.vol(o.slot)
	fs := v.fs
	fs.failed, fs.refused, fs.after = "", false, 0
	fs.changes = fs.changes[:0]
	s := e.slots[o.slot]
	if v.contract {
		e.blind(o, v, s)
		return
	}
	switch o.k {
	case fOpen:
		next := v.r.clone()
		n, _, want := v.r.openFile(o.name, o.flags, 0o640)
		f, err := v.d.OpenFile(o.name, o.flags, 0o640)
		x.Logf("    -> %v", err)
		if fs.failed != "" && err != nil {
			// It may have been created and truncated, or not.
			if n != nil && truncates(o.flags) {
				e.unknown[n] = true
			}
			if n != nil && len(next.root.kids) != len(v.r.root.kids) && fs.root.get("n") == nil {
				v.r.root.remove("n")
			}
			return
		}
		want.check(x, o, err)
		if err != nil {
			x.Assert(len(fs.changes) == 0, "the failed %v requested %v", o, fs.changes)
			return
		}
		x.Assert(!e.unknown[n] || !truncates(o.flags) || f.Size() == 0, "%v did not truncate the file", o)
		if truncates(o.flags) && e.unknown[n] {
			delete(e.unknown, n)
		}
		s = &slot{f: &f, n: n, flags: o.flags}
		e.slots[o.slot] = s
	case fWrite, fWriteString, fWriteAt, fReadFrom:
		off := s.pos
		if o.k == fWriteAt {
			off = o.off
		} else if appends(s.flags) {
			off = len(s.n.data)
		}
		b := e.payload(o, off)
		var n int
		var err error
		switch o.k {
		case fWrite:
			n, err = s.f.Write(b)
			x.Assert(bytes.Equal(b, e.payload(o, off)), "%v changed the caller's data", o)
		case fWriteString:
			n, err = s.f.WriteString(string(b))
		case fReadFrom:
			var k int64
			k, err = s.f.ReadFrom(bytes.NewReader(b))
			n = int(k)
		default:
			n, err = s.f.WriteAt(b, int64(off))
		}
		x.Logf("    -> %d, %v", n, err)
		if !writes(s.flags) || o.k == fWriteAt && appends(s.flags) {
			if o.n > 0 {
				x.Assert(err != nil, "%v on a file opened with flags %#x succeeded", o, int(s.flags))
			}
			x.Assert(n == 0 && len(fs.changes) == 0, "the refused %v reported %d bytes and requested %v", o, n, fs.changes)
			break
		}
		if e.failed(v, o, s.n, err) {
			e.unknown[s.n] = true
			break
		}
		x.Assert(n == o.n, "%v reported %d bytes", o, n)
		if o.n == 0 {
			break
		}
		e.ver = (e.ver + 1) % 2
		if !e.unknown[s.n] {
			s.n.write(off, b)
		}
		if o.k != fWriteAt {
			s.pos = off + n
		}
		if syncs(s.flags) {
			e.stored(v, o, s.n)
		}
	case fRead, fReadAt:
		buf := make([]byte, o.n)
		var n int
		var err error
		off := s.pos
		if o.k == fRead {
			n, err = s.f.Read(buf)
		} else {
			off = o.off
			n, err = s.f.ReadAt(buf, int64(off))
		}
		x.Logf("    -> %d, %v", n, err)
		if !readable(s.flags) {
			x.Assert(n == 0 && (err != nil || o.n == 0), "%v on a file opened with flags %#x returned %d, %v", o, int(s.flags), n, err)
			break
		}
		if e.unknown[s.n] {
			s.pos = e.tell(s)
			break
		}
		avail := min(max(len(s.n.data)-off, 0), o.n)
		if err != nil && err != io.EOF && e.failed(v, o, s.n, err) {
			x.Assert(n <= avail, "the failed %v returned %d bytes, there are %d", o, n, avail)
		} else {
			x.Assert(n == avail, "%v at offset %d of %d bytes returned %d bytes, %v", o, off, len(s.n.data), n, err)
			x.Assert(err == nil || err == io.EOF && off+n >= len(s.n.data), "%v at offset %d of %d bytes: %v", o, off, len(s.n.data), err)
			x.Assert(n > 0 || o.n == 0 || err == io.EOF, "%v at the end returned %v", o, err)
		}
		if n > 0 {
			x.Assert(bytes.Equal(buf[:n], s.n.data[off:off+n]), "%v at offset %d returned %q, want %q", o, off, buf[:n], s.n.data[off:off+n])
		}
		if o.k == fRead {
			s.pos += n
		}
	case fWriteTo:
		var b bytes.Buffer
		n, err := s.f.WriteTo(&b)
		x.Logf("    -> %d, %v", n, err)
		if !readable(s.flags) {
			x.Assert(n == 0 && b.Len() == 0 && (err != nil || s.pos >= len(s.n.data)), "%v on a file opened with flags %#x: %d, %v", o, int(s.flags), n, err)
			break
		}
		if e.unknown[s.n] {
			s.pos = e.tell(s)
			break
		}
		rest := s.n.data[min(s.pos, len(s.n.data)):]
		if e.failed(v, o, s.n, err) {
			x.Assert(int(n) == b.Len() && bytes.HasPrefix(rest, b.Bytes()), "the failed %v at %d wrote %q of %q", o, s.pos, b.Bytes(), rest)
		} else {
			x.Assert(int(n) == b.Len() && bytes.Equal(rest, b.Bytes()), "%v at %d wrote %q, want %q", o, s.pos, b.Bytes(), rest)
		}
		s.pos += int(n)
	case fSeek:
		want := o.off
		switch o.whence {
		case io.SeekCurrent:
			want += s.pos
		case io.SeekEnd:
			want += len(s.n.data)
		}
		got, err := s.f.Seek(int64(o.off), o.whence)
		if e.unknown[s.n] && o.whence == io.SeekEnd {
			s.pos = e.tell(s)
			break
		}
		if want < 0 {
			x.Assert(err != nil, "%v from %d succeeded", o, s.pos)
			break
		}
		x.Assert(err == nil && int(got) == want, "%v from %d: %d, %v", o, s.pos, got, err)
		s.pos = want
	case fTruncate:
		err := s.f.Truncate(int64(o.n))
		x.Logf("    -> %v", err)
		if !writes(s.flags) {
			x.Assert(err != nil && len(fs.changes) == 0, "%v on a file opened for reading: %v, requested %v", o, err, fs.changes)
			break
		}
		if e.failed(v, o, s.n, err) {
			e.unknown[s.n] = true
			break
		}
		if !e.unknown[s.n] {
			s.n.resize(o.n)
		}
		if syncs(s.flags) {
			e.stored(v, o, s.n)
		}
	case fSync:
		err := s.f.Sync()
		x.Logf("    -> %v", err)
		if e.failed(v, o, s.n, err) {
			break
		}
		e.stored(v, o, s.n)
		e.look(v, o, s.n)
	case fClose:
		err := s.f.Close()
		x.Logf("    -> %v", err)
		e.slots[o.slot] = nil
		if e.failed(v, o, s.n, err) {
			if fs.failed != "Close" {
				e.unknown[s.n] = true
			}
		} else {
			e.stored(v, o, s.n)
		}
	case fStat:
		fi, err := s.f.Stat()
		if !e.unknown[s.n] {
			x.Assert(err == nil && int(fi.Size()) == len(s.n.data) && fi.Mode() == s.n.mode, "%v: size %d, mode %v, %v", o, fi.Size(), fi.Mode(), err)
		}
	case pWriteFile:
		data := e.payload(o, 0)
		next := v.r.clone()
		n, _, _ := v.r.openFile(o.name, wr|creat|trunc, 0o640)
		if v.r.root.kids["n"] == n {
			n.mode = 0o640
			if next.root.kids["n"] != nil {
				n.mode = next.root.kids["n"].mode
			}
		}
		err := v.d.WriteFile(o.name, data, 0o640)
		x.Logf("    -> %v", err)
		if e.failed(v, o, n, err) {
			e.unknown[n] = true
			if next.root.kids["n"] == nil && v.r.root.kids["n"] != nil && fs.root.get("n") == nil {
				v.r.root.remove("n")
			}
			break
		}
		n.data = data
		e.ver = (e.ver + 1) % 2
		delete(e.unknown, n)
		e.stored(v, o, n)
	case pTruncate:
		n, _, err := v.r.lookup(o.name, true)
		x.Assert(err == nil, "harness: %v", err)
		err = v.d.Truncate(o.name)
		x.Logf("    -> %v", err)
		if e.failed(v, o, n, err) {
			e.unknown[n] = true
			break
		}
		n.data = nil
		delete(e.unknown, n)
		e.stored(v, o, n)
	}
	if s != nil && e.slots[o.slot] == s {
		p := e.tell(s)
		if e.unknown[s.n] || fs.failed != "" {
			s.pos = p
		}
		x.Assert(p == s.pos, "after %v the position is %d, want %d", o, p, s.pos)
		if !e.unknown[s.n] {
			x.Assert(int(s.f.Size()) == len(s.n.data), "after %v the size is %d, want %d", o, s.f.Size(), len(s.n.data))
		}
	}
}

func (e *files) tell(s *slot) int {
	p, err := s.f.Seek(0, io.SeekCurrent)
	e.x.Assert(err == nil, "Seek(0, 1): %v", err)
	return int(p)
}

// look reads a file by its names.
func (e *files) look(v *sys, o any, n *node) {
	if e.unknown[n] {
		return
	}
	faulty := v.fs.faulty
	v.fs.faulty = false
	defer func() { v.fs.faulty = faulty }()
	for _, p := range []string{"/f", "/h", "/s", "/d/f", "/g", "n"} {
		if k, _, err := v.r.lookup(p, true); err != nil || k != n {
			continue
		}
		b, err := v.d.ReadFile(p)
		e.x.Assert(err == nil && bytes.Equal(b, n.data), "after %v, ReadFile(%s) gives %q, %v, want %q", o, p, b, err, n.data)
		st, err := v.d.Stat(p)
		e.x.Assert(err == nil && int(st.Size) == len(n.data), "after %v, Stat(%s) gives size %d, %v, want %d", o, p, st.Size, err, len(n.data))
	}
}

// final closes everything and reads everything back.
func (e *files) final() {
	for i, s := range e.slots {
		v := e.vol(i)
		v.fs.faulty, v.fs.failed, v.fs.refused = false, "", false
		if s == nil || s.closed {
			continue
		}
		err := s.f.Close()
		if v.contract {
			continue
		}
		if e.failed(v, "Close", s.n, err) {
			e.unknown[s.n] = true
		} else {
			e.stored(v, "Close", s.n)
		}
	}
	for i, v := range e.vols {
		e.x.Logf("final check of volume %d", i)
		v.fs.faulty, v.fs.failed = false, ""
		v.checkHandles(0)
		if v.contract {
			continue
		}
		if d := v.fs.compare(v.r, e.unknown); d != "" {
			e.x.Fail("the volume differs: %s", d)
		}
		for _, p := range []string{"/f", "/g", "n"} {
			if n, _, err := v.r.lookup(p, true); err == nil {
				e.look(v, "the end", n)
			}
		}
	}
}

func (e *files) state() uint64 {
	h := core.NewH().I(e.ver)
	for _, v := range e.vols {
		h.Deep(v.d)
		v.fs.hash(h)
		for _, p := range []string{"f", "g", "n"} {
			if n := v.r.root.kids[p]; n != nil {
				h.B(n.data).Bool(e.unknown[n])
			} else {
				h.I(-1)
			}
		}
	}
	for _, s := range e.slots {
		if s == nil {
			h.I(-2)
			continue
		}
		h.Deep(*s.f).I(s.pos).I(int(s.flags)).Bool(s.closed)
		for i, p := range []string{"f", "g", "n"} {
			for _, v := range e.vols {
				if v.r.root.kids[p] == s.n && s.n != nil {
					h.I(i)
				}
			}
		}
	}
	return h.Sum()
}

type fileCfg struct {
	bsize, size int
	two         bool
	limit       int
}

// fileHistory explores histories of operations on files.
func fileHistory(cs []fileCfg, setup func(c fileCfg, e *files)) func(x *core.X) {
	return func(x *core.X) {
		c := cs[x.Choose(len(cs), "configuration")]
		e := newFiles(x, c.size, c.bsize, c.two)
		if c.limit > 0 {
			for _, v := range e.vols {
				v.fs.limit = c.limit
			}
		}
		setup(c, e)
		x.Config()
		m := e.menu()
		first := x.Choose(len(m), "first operation")
		x.Begin()
		x.Logf("blocks of %d bytes, /f has %d bytes, two volumes: %v", c.bsize, c.size, c.two)
		o := m[first]
		x.Step(e.state, e.final)
		for {
			e.do(o)
			x.Step(e.state, e.final)
			m := e.menu()
			o = m[x.Choose(len(m), "")]
		}
	}
}

// someFlags are the flags that differ in effect.
var someFlags = []disko.IOFlags{rd, wr, rw, rw | app, wr | creat | trunc, rw | creat | excl, rw | syn, wr | app | syn | creat}

// allFlags are all of them.
var allFlags = func() []disko.IOFlags {
	var out []disko.IOFlags
	for i := 0; i < 3*32; i++ {
		f := []disko.IOFlags{rd, wr, rw}[i%3]
		for j, b := range []disko.IOFlags{app, creat, excl, trunc, syn} {
			if i/3>>j&1 == 1 {
				f |= b
			}
		}
		out = append(out, f)
	}
	return out
}()

func around(bs int) []int {
	var out []int
	for _, n := range []int{0, 1, bs - 1, bs, bs + 1, 2*bs - 1, 2 * bs, 2*bs + 1, 3*bs + 1} {
		dup := n < 0
		for _, o := range out {
			dup = dup || o == n
		}
		if !dup {
			out = append(out, n)
		}
	}
	return out
}

func small(flags []disko.IOFlags) func(c fileCfg, e *files) {
	return func(c fileCfg, e *files) {
		e.flags = flags
		e.offs = []int{0, 1, 3, 5}
		e.lens = []int{1, 3}
	}
}

func wide(flags []disko.IOFlags) func(c fileCfg, e *files) {
	return func(c fileCfg, e *files) {
		e.flags = flags
		e.offs = around(c.bsize)
		e.lens = e.offs[1:]
	}
}

func faultyFiles(f func(c fileCfg, e *files)) func(c fileCfg, e *files) {
	return func(c fileCfg, e *files) {
		f(c, e)
		for _, v := range e.vols {
			v.fs.faulty = true
		}
	}
}

// fileSizes combines block sizes with the sizes of the file.
func fileSizes(bsizes []int, all bool, two bool, limit int) []fileCfg {
	var out []fileCfg
	for _, b := range bsizes {
		for s := 0; s <= 2*b+1; s++ {
			if all || s == 0 || s == 1 || s == b-1 || s == b || s == b+1 || s == 2*b || s == 2*b+1 {
				out = append(out, fileCfg{b, s, two, limit})
			}
		}
	}
	return out
}

func faultSizes(t bool) []fileCfg {
	if t {
		return fileSizes([]int{2}, true, false, 0)
	}
	return []fileCfg{{2, 0, false, 0}, {2, 3, false, 0}, {2, 4, false, 0}}
}

// openFlags: every combination of flags on every kind of path, followed by
// typical use.
func openFlags(x *core.X) {
	bs := core.Pick(x, "block size", 2, 512)
	size := core.Pick(x, "size", 0, 1, 3, 5)
	fl := core.Pick(x, "flags", allFlags...)
	name := core.Pick(x, "name", "/f", "/h", "s", "/d/f", "n", "/d", "/dangling", "/x/y", "/f/x", "/")
	x.Begin()
	root := fileTree(size)
	root.add("dangling", linkNode("d/new"))
	s := newSys(x, root, bs, disko.MountFlagsAllowAll)
	next := s.r.clone()
	n, _, want := next.openFile(name, fl, 0o640|os.ModeSetgid)
	x.T()
	f, err := s.d.OpenFile(name, fl, 0o640|os.ModeSetgid)
	x.Logf("OpenFile(%q, %#x): %v", name, int(fl), err)
	want.check(x, "OpenFile", err)
	if err != nil {
		if d := s.fs.compare(s.r, nil); d != "" {
			x.Fail("the failed OpenFile changed the volume: %s", d)
		}
		s.checkHandles(0)
		return
	}
	s.r = next
	if !n.dir() {
		// write, read back, write more
		for _, at := range []int{0, 4} {
			if _, err := f.Seek(int64(at), io.SeekStart); err != nil {
				x.Fail("Seek: %v", err)
			}
			k, err := f.Write([]byte("xyz"))
			if writes(fl) {
				x.Assert(err == nil && k == 3, "Write: %d, %v", k, err)
				off := at
				if appends(fl) {
					off = len(n.data)
				}
				n.write(off, []byte("xyz"))
			} else {
				x.Assert(err != nil && k == 0, "Write on a file opened for reading: %d, %v", k, err)
			}
			f.Seek(0, io.SeekStart)
			buf := make([]byte, 20)
			k, err = f.Read(buf)
			if readable(fl) {
				x.Assert(string(buf[:k]) == string(n.data) && (err == nil || err == io.EOF), "read %q, %v, want %q", buf[:k], err, n.data)
			} else {
				x.Assert(err != nil && k == 0, "Read on a file opened for writing: %d, %v", k, err)
			}
		}
	}
	x.Assert(f.Close() == nil, "Close failed")
	s.verify([]string{"/", "/f", "/h", "/s", "/d", "/d/f", "/n", "/dangling", "/d/new", "/g"})
	s.checkHandles(0)
}

// bigFile: many blocks, large transfers.
func bigFile(x *core.X) {
	bs := core.Pick(x, "block size", 1, 3, 512, 1024, 4096)
	size := core.Pick(x, "size", 0, 1, 1000, 10240)
	grow := core.Pick(x, "bytes", 1, 511, 4096, 9000)
	at := core.Pick(x, "at", 0, 1, 512, 10239, 12000)
	fl := core.Pick(x, "flags", rw, wr, rw|app, rw|syn)
	cut := core.Pick(x, "truncated to", -1, 0, 513, 20000)
	x.Begin()
	e := newFiles(x, size, bs, false)
	e.vols[0].fs.limit = 1 << 20
	x.Step(nil, nil)
	for _, o := range []fop{{k: fOpen, name: "/s", flags: fl}, {k: fSeek, off: at}, {k: fWrite, n: grow}, {k: fSync}, {k: fWrite, n: 3}, {k: fTruncate, n: cut}, {k: fSeek, whence: 2}, {k: fWrite, n: 7}, {k: fReadAt, n: 30000}, {k: fClose}, {k: pWriteFile, name: "/h", n: grow}} {
		if o.k != fTruncate || o.n >= 0 {
			e.do(o)
		}
	}
	x.End(e.final)
}

// hugeFile: files and transfers of up to some MiB.
func hugeFile(x *core.X) {
	bs := core.Pick(x, "block size", 512, 1, 4096, 65536)
	size := core.Pick(x, "size", 32769, 65537, 0, 1<<20+1)
	grow := core.Pick(x, "bytes", 32768, 65537, 1<<20+3)
	at := core.Pick(x, "at", 0, 65535, 1<<20)
	fl := core.Pick(x, "flags", rw, wr, rw|app, rw|syn)
	cut := core.Pick(x, "truncated to", -1, 0, 65536, 3<<20)
	if bs == 1 && (size > 70000 || grow > 70000 || at > 70000 || cut > 70000) {
		x.Abandon()
	}
	x.Begin()
	e := newFiles(x, size, bs, false)
	e.vols[0].fs.limit = 1 << 20
	x.Step(nil, nil)
	for _, o := range []fop{{k: fOpen, name: "/s", flags: fl}, {k: fSeek, off: at}, {k: fWrite, n: grow}, {k: fSync}, {k: fWrite, n: 3}, {k: fTruncate, n: cut}, {k: fSeek, whence: 2}, {k: fWrite, n: 7}, {k: fReadAt, n: 4 << 20}, {k: fClose}, {k: pWriteFile, name: "/h", n: grow}} {
		if o.k != fTruncate || o.n >= 0 {
			e.do(o)
		}
	}
	x.End(e.final)
}

// texts: contents of every two bytes, and of bytes special to other systems.
func texts(x *core.X) {
	const special = "\x00\n\r\x1a\xef\xbb\xbf "
	bs := core.Pick(x, "block size", 4, 1, 512)
	how := x.Choose(4, "written")
	first := x.Choose(256+len(special)*len(special), "beginning")
	x.Begin()
	root := dirNode(0o755)
	f := fileNode("before")
	root.add("f", f)
	root.add("l", linkNode("f"))
	s := newSys(x, root, bs, disko.MountFlagsAllowAll)
	f = s.r.root.kids["f"]
	try := func(text string) {
		var err error
		x.T()
		switch how {
		case 0:
			err = s.d.WriteFile("/f", []byte(text), 0o644)
		case 1, 2, 3:
			var h driver.File
			h, err = s.d.OpenFile("/l", rw|trunc, 0)
			x.Assert(err == nil, "OpenFile: %v", err)
			var n int
			switch how {
			case 1:
				n, err = h.Write([]byte(text))
			case 2:
				n, err = h.WriteString(text)
			case 3:
				var c int64
				c, err = h.ReadFrom(strings.NewReader(text))
				n = int(c)
			}
			x.Assert(n == len(text), "writing %q stored %d bytes, %v", text, n, err)
			if err == nil {
				err = h.Close()
			}
		}
		x.Assert(err == nil, "writing %q: %v", text, err)
		f.data = []byte(text)
		got, err := s.d.ReadFile("/l")
		x.Assert(err == nil && string(got) == text, "a file of %q reads %q, %v", text, got, err)
		st, err := s.d.Stat("/f")
		x.Assert(err == nil && st.Size == int64(len(text)), "a file of %q has %d bytes, %v", text, st.Size, err)
		h, err := s.d.Open("/f")
		x.Assert(err == nil, "Open: %v", err)
		var w strings.Builder
		n, err := h.WriteTo(&w)
		x.Assert(err == nil && int(n) == len(text) && w.String() == text, "WriteTo of a file of %q gave %q, %d, %v", text, w.String(), n, err)
		x.Assert(h.Close() == nil, "Close failed")
	}
	if first < 256 {
		for b := 0; b < 256; b++ {
			try(string([]byte{byte(first), byte(b)}))
		}
	} else {
		first -= 256
		start := string([]byte{special[first%len(special)], special[first/len(special)]})
		for _, t := range []string{"", "x", "xy\n", "xyz"} {
			for i := range special {
				for j := range special {
					end := string([]byte{special[i], special[j]})
					try(start + t + end)
				}
			}
		}
	}
	s.verify([]string{"/", "/f", "/l"})
	s.checkHandles(0)
}

// manyOpen: many different files open at the same time.
func manyOpen(x *core.X) {
	n := core.Pick(x, "files", 3, 2, 16, 63, 130, 257)
	bs := core.Pick(x, "block size", 4, 1, 512)
	fresh := x.Choose(3, "created") // none, every other, all
	closing := x.Choose(4, "order of closing")
	syncs := x.Bool("synced")
	x.Begin()
	root := dirNode(0o755)
	d := dirNode(0o755)
	root.add("d", d)
	want := make([]*node, n)
	names := make([]string, n)
	for i := range want {
		name := fmt.Sprintf("f%d", i*7%n*1000+i)
		names[i] = "/d/" + name
		want[i] = fileNode(strings.Repeat(fmt.Sprintf("<%d>", i), i%4))
		if fresh == 0 || fresh == 1 && i%2 == 0 {
			d.add(name, want[i])
		}
	}
	s := newSys(x, root, bs, disko.MountFlagsAllowAll)
	files := make([]driver.File, n)
	for i, p := range names {
		fl := rw
		if path := p[3:]; d.kids[path] == nil {
			fl |= creat
			want[i].data = nil
			s.r.root.kids["d"].add(path, want[i])
		}
		x.T()
		f, err := s.d.OpenFile(p, fl, 0o644)
		x.Assert(err == nil, "opening file %d of %d: %v", i, n, err)
		files[i] = f
		want[i] = s.r.root.kids["d"].kids[p[3:]]
	}
	x.Step(nil, nil)
	for round := 0; round < 3; round++ {
		for i := range files {
			k := i
			if round == 1 {
				k = n - 1 - i
			}
			data := fmt.Sprintf("%d.%d;", k, round)
			w := want[k]
			x.T()
			_, err := files[k].Seek(0, 2)
			x.Assert(err == nil, "Seek in file %d: %v", k, err)
			c, err := files[k].Write([]byte(data))
			x.Assert(err == nil && c == len(data), "writing file %d of %d: %d bytes, %v", k, n, c, err)
			w.data = append(w.data, data...)
			if syncs && i%3 == round {
				x.Assert(files[k].Sync() == nil, "Sync of file %d failed", k)
			}
		}
		for i := range files {
			got := make([]byte, len(want[i].data)+1)
			c, err := files[i].ReadAt(got, 0)
			x.T()
			x.Assert((err == nil || err == io.EOF) && string(got[:c]) == string(want[i].data), "file %d of %d open ones reads %q, %v, want %q", i, n, got[:c], err, want[i].data)
		}
	}
	done := make([]bool, n)
	for i := 0; i < n; i++ {
		k := i
		switch closing {
		case 1:
			k = n - 1 - i
		case 2:
			k = (n/2 + i) % n
		case 3:
			k = i * 2 % n
			if n%2 == 0 && i >= n/2 {
				k++
			}
		}
		x.T()
		x.Assert(!done[k], "harness error: file closed twice")
		done[k] = true
		x.Assert(files[k].Close() == nil, "Close of file %d failed", k)
		got, err := s.d.ReadFile(names[k])
		x.Assert(err == nil && string(got) == string(want[k].data), "file %d of %d reads %q, %v after it was closed, want %q", k, n, got, err, want[k].data)
		s.checkHandles(n - 1 - i)
	}
	x.End(func() { s.verify(append([]string{"/", "/d"}, names[:min(n, 20)]...)); s.checkHandles(0) })
}

func fileParts(t bool) []*core.Part {
	bs := []int{1, 2}
	if t {
		bs = []int{1, 2, 3}
	}
	return []*core.Part{
		{Name: "reachable", Mode: core.BFS, Depth: pick(t, 4, 5), Bounds: "blocks of 1-2 (thorough: 1-3) bytes, a file of every size up to 2 blocks and a byte with several names (hard link, symbolic links), another file open at the same time, a new file; opened with 8 combinations of flags; all reachable states", Body: fileHistory(fileSizes(bs, true, false, 0), small(someFlags))},
		{Name: "contents", Mode: core.BFS, Depth: pick(t, 4, 5), Bounds: "blocks of 1, 4 and 512 bytes, files and writes of a pattern, zeros or 0xFF, in whole blocks", Body: fileHistory([]fileCfg{{1, 2, false, 0}, {4, 8, false, 0}, {4, 7, false, 0}, {512, 1024, false, 0}}, func(c fileCfg, e *files) {
			e.flags, e.fills = []disko.IOFlags{rw, rw | app, rw | syn}, true
			e.offs, e.lens = []int{0, c.bsize}, []int{c.bsize, 2 * c.bsize}
		})},
		{Name: "cycles", Mode: core.DFS, Bounds: "cycles of one or two (thorough: up to three) operations, starting with the file closed or open, repeated 300 times", Body: fileCycles(t)},
		{Name: "two-volumes", Mode: core.BFS, Depth: pick(t, 3, 4), Bounds: "the same, the other file being on another volume", Body: fileHistory(fileSizes([]int{2}, true, true, 0), small(someFlags))},
		{Name: "histories", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: "blocks of 4 (thorough: and 512) bytes, offsets and lengths around block boundaries", Body: fileHistory(fileSizes(append([]int{4}, []int{512}[:b2i(t)]...), false, false, 0), wide([]disko.IOFlags{rw, wr | app, rw | syn}))},
		{Name: "flags", Mode: core.DFS, Bounds: "all 96 combinations of open flags on files, links, missing files, dangling links, directories; writing and reading afterwards", Body: openFlags},
		{Name: "big", Mode: core.DFS, Bounds: "files of up to 20000 bytes in blocks of 1-4096 bytes", Body: bigFile},
		{Name: "huge", Mode: core.DFS, Bounds: "files and transfers of 32 KiB to 3 MiB in blocks of 1-65536 bytes", Body: hugeFile},
		{Name: "texts", Mode: core.DFS, Bounds: "contents of every two bytes, and of two bytes out of 8 (NUL, ends of lines and files, a byte order mark, blank) before and after 4 strings; written and read in 4 ways; blocks of 1, 4, 512", Body: texts},
		{Name: "many-open", Mode: core.DFS, Bounds: "2-257 files open at once, written in turn, read, closed in 4 orders", Body: manyOpen},
		{Name: "faults", Mode: core.BFS, Depth: pick(t, 4, 5), Budget: pick(t, 1, 2), Bounds: "every request to the implementation failing once (thorough: two of them): what is reported as stored is stored", Body: fileHistory(faultSizes(t), faultyFiles(small([]disko.IOFlags{rw, wr | creat | trunc, rw | syn, rw | app})))},
		{Name: "full", Mode: core.BFS, Depth: pick(t, 4, 5), Bounds: "files cannot grow beyond 1-2 blocks", Body: fileHistory(append(fileSizes([]int{2}, t, false, 2), fileCfg{4, 3, false, 1}), small([]disko.IOFlags{rw, wr | creat | trunc, rw | syn, rw | app}))},
	}
}

// fileCycles repeats short sequences of operations many times.
func fileCycles(thorough bool) func(x *core.X) {
	flags := []disko.IOFlags{rw, wr | creat | trunc, rw | app, rw | syn, rd}
	var m []fop
	for _, name := range []string{"/f", "n"} {
		for _, fl := range flags {
			if name == "n" && !creates(fl) {
				fl |= creat
			}
			m = append(m, fop{k: fOpen, name: name, flags: fl})
		}
	}
	opens := len(m)
	m = append(m, fop{k: fClose}, fop{k: fSync}, fop{k: fWrite, n: 3}, fop{k: fWriteAt, n: 2, off: 1}, fop{k: fRead, n: 3}, fop{k: fReadAt, n: 9}, fop{k: fSeek}, fop{k: fSeek, whence: 2},
		fop{k: fTruncate, n: 2}, fop{k: fTruncate, n: 7}, fop{k: fStat}, fop{k: fReadFrom, n: 3}, fop{k: fWriteTo},
		fop{k: pWriteFile, name: "/f", n: 5}, fop{k: pWriteFile, name: "/n", n: 2}, fop{k: pTruncate, name: "/s"}, fop{k: pRemove, name: "/n"})
	return func(x *core.X) {
		fl := core.Pick(x, "flags", flags...)
		a, b, c := x.Choose(len(m), "first operation"), x.Choose(len(m)+1, "second operation"), len(m)
		if thorough && b < len(m) {
			c = x.Choose(len(m)+1, "third operation")
		}
		second := x.Bool("another file open")
		x.Begin()
		e := newFiles(x, 5, 2, false)
		e.vols[0].fs.limit = 1 << 16
		x.Step(nil, nil)
		if second {
			e.do(fop{k: fOpen, slot: 1, name: "/g", flags: rw})
		}
		for i := 0; i < 300; i++ {
			for _, k := range []int{a, b, c} {
				if k == len(m) {
					break
				}
				o := m[k]
				s := e.slots[0]
				switch {
				case k < opens || o.k == pWriteFile || o.k == pTruncate || o.k == pRemove:
					// Only while the file is closed: what an open file shows of
					// changes made otherwise is not specified.
					if s != nil {
						e.do(fop{k: fClose})
					}
					if o.k == pRemove {
						e.removeNew()
						continue
					}
				case s == nil:
					e.do(fop{k: fOpen, name: "/f", flags: fl})
				case s.pos > 60 || len(s.n.data) > 80:
					e.do(fop{k: fSeek})
					if writes(s.flags) {
						e.do(fop{k: fTruncate, n: 1})
					}
				}
				if e.slots[0] != nil || k < opens || o.k == pWriteFile || o.k == pTruncate {
					e.do(o)
				}
			}
			if second && i%16 == 0 {
				e.do(fop{k: fWrite, slot: 1, n: 1})
				e.do(fop{k: fRead, slot: 1, n: 1})
			}
		}
		x.End(e.final)
		x.OutcomeS(fmt.Sprint(fl, a, b, c, second))
	}
}

// removeNew removes /n, which may exist.
func (e *files) removeNew() {
	v := e.vols[0]
	e.x.T()
	err := v.d.Remove("/n")
	e.x.Assert((err == nil) == (v.r.root.kids["n"] != nil), "Remove(/n): %v", err)
	if err == nil {
		v.r.root.remove("n")
	}
}

// blind performs an operation without an oracle.
func (e *files) blind(o fop, v *sys, s *slot) {
	d := v.d
	switch o.k {
	case fOpen:
		f, err := d.OpenFile(o.name, o.flags, 0o640)
		if err == nil {
			e.slots[o.slot] = &slot{f: &f, flags: o.flags}
		}
	case fWrite:
		s.f.Write(e.payload(o, 0))
	case fWriteString:
		s.f.WriteString(strings.Repeat("x", o.n))
	case fWriteAt:
		s.f.WriteAt(e.payload(o, 0), int64(o.off))
	case fRead:
		s.f.Read(make([]byte, o.n))
	case fReadAt:
		s.f.ReadAt(make([]byte, o.n), int64(o.off))
	case fSeek:
		s.f.Seek(int64(o.off), o.whence)
	case fTruncate:
		s.f.Truncate(int64(o.n))
	case fReadFrom:
		s.f.ReadFrom(strings.NewReader(strings.Repeat("x", o.n)))
	case fWriteTo:
		s.f.WriteTo(io.Discard)
	case fSync:
		s.f.Sync()
	case fClose:
		s.f.Close()
		s.closed = true
	case fStat:
		s.f.Stat()
	case fAbuse:
		s.f.Name()
		s.f.Stat()
		s.f.ReadDir(o.n)
		s.f.Readdir(o.n)
		s.f.Readdirnames(o.n)
		s.f.Chmod(0o600 | os.ModeDir | os.ModeSymlink)
		s.f.Chown(1, 2)
		s.f.Chdir()
		d.Chdir("/")
	case pWriteFile:
		d.WriteFile(o.name, e.payload(o, 0), 0o640)
	case pTruncate:
		d.Truncate(o.name)
	case pRead:
		v.reads(o.name)
	case pRemove:
		if d.Remove(o.name) != nil {
			d.RemoveAll(o.name)
		}
	}
	open := 0
	for i, s := range e.slots {
		if s != nil && !s.closed && e.vol(i) == v {
			open++
		}
	}
	v.checkHandles(open)
}
