package main

import (
	"errors"
	"fmt"
	"os"
	posixpath "path"
	"sort"
	"strings"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	core "github.com/dargueta/disko/zzverif/core"
)

const (
	rd    = disko.O_RDONLY
	wr    = disko.O_WRONLY
	rw    = disko.O_RDWR
	app   = disko.O_APPEND
	creat = disko.O_CREATE
	excl  = disko.O_EXCL
	trunc = disko.O_TRUNC
	syn   = disko.O_SYNC
)

var t1, t2 = time.Unix(1000000, 0), time.Unix(2000000, 0)

// sys is a driver over an in-memory file system, and the reference.
type sys struct {
	x     *core.X
	fs    *memfs
	d     *driver.BaseDriver
	r     *ref
	flags disko.MountFlags
	// contract: only the promises to the implementation matter.
	contract bool
	special  string // path of the object that can only be looked at
	last     error
}

func newSys(x *core.X, tree *node, bsize int, flags disko.MountFlags) *sys {
	return newSysFeat(x, tree, bsize, flags, nil)
}

func newSysFeat(x *core.X, tree *node, bsize int, flags disko.MountFlags, feat func(*disko.FSFeatures)) *sys {
	fs := newMemfs(x, bsize)
	if feat != nil {
		feat(&fs.feat)
	}
	s := &sys{x: x, fs: fs, r: &ref{tree, "/", &fs.feat, 0}, flags: flags}
	fs.store(s.r)
	s.d = fs.driver(flags)
	return s
}

type kindOf int

const (
	oMkdir kindOf = iota
	oMkdirAll
	oCreate
	oOpen
	oWriteFile
	oTruncate
	oRemove
	oRemoveAll
	oLink
	oChmod
	oChown
	oLchown
	oChtimes
	oChdir
	oFileChdir
	oFileAttr
	oRead // all reading operations
)

var kindNames = []string{"Mkdir", "MkdirAll", "Create", "OpenFile", "WriteFile", "Truncate", "Remove", "RemoveAll", "Link", "Chmod", "Chown", "Lchown", "Chtimes", "Chdir", "File.Chdir", "File.Chmod/Chown", "Stat, Lstat, Readlink, ReadDir, ReadFile, Open"}

type op struct {
	k     kindOf
	path  string
	to    string
	flags disko.IOFlags
	perm  os.FileMode
	data  string
	times int // which times Chtimes sets
	// If set, the owner or the times to set.
	ids  *[2]int
	when *[2]time.Time
}

func (o op) owner(uid, gid int) (int, int) {
	if o.ids != nil {
		return o.ids[0], o.ids[1]
	}
	return uid, gid
}

func (o op) stamps() [2]time.Time {
	if o.when != nil {
		return *o.when
	}
	return opTimes[o.times]
}

// opTimes are pairs of times. The zero time leaves the time alone.
var opTimes = [][2]time.Time{
	{t1, t2},
	{time.Unix(0, 0), time.Unix(0, 0)},
	{time.Time{}, time.Unix(0, 0).UTC()},
	{time.Unix(-1, 5), time.Time{}},
	{time.Unix(0, 1), time.Unix(-86400*365*40, 0)},
	{time.Date(1, 1, 1, 0, 0, 1, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.FixedZone("x", 3600))},
	{time.Time{}, time.Time{}},
	{time.Date(2107, 12, 31, 23, 59, 58, 0, time.FixedZone("y", -7*3600-1800)), t1},
}

func (o op) String() string {
	s := kindNames[o.k] + "(" + fmt.Sprintf("%q", o.path)
	if o.k == oLink {
		s += fmt.Sprintf(", %q", o.to)
	}
	if o.k == oOpen {
		s += fmt.Sprintf(", %#x", int(o.flags))
	}
	if o.k == oMkdir || o.k == oMkdirAll || o.k == oOpen || o.k == oWriteFile || o.k == oChmod || o.k == oFileAttr {
		s += fmt.Sprintf(", %#o", uint32(o.perm))
	}
	if o.k == oChtimes {
		s += fmt.Sprintf(", %v, %v", o.stamps()[0], o.stamps()[1])
	}
	if o.ids != nil {
		s += fmt.Sprintf(", %d, %d", o.ids[0], o.ids[1])
	}
	if o.k == oWriteFile {
		s += fmt.Sprintf(", %q", o.data)
	}
	return s + ")"
}

// ---- the reference ----

// create adds an object at a path that does not exist.
func (r *ref) create(path string, n *node) error {
	dir, base := split(normalize(r.cwd, path))
	p, _, err := r.lookup(dir, true)
	if err != nil {
		return err
	}
	if !p.dir() {
		return disko.ErrNotADirectory
	}
	p.add(base, n)
	return nil
}

// openFile returns the file an open call refers to, creating it if necessary.
func (r *ref) openFile(path string, flags disko.IOFlags, perm os.FileMode) (*node, bool, expect) {
	if truncates(flags) && !writes(flags) {
		return nil, false, failure
	}
	n, phys, err := r.lookup(path, true)
	isNew := false
	if err == nil && creates(flags) && excludes(flags) {
		return nil, false, oneOf(disko.ErrExists)
	}
	if err != nil {
		if !errors.Is(err, disko.ErrNotFound) || !creates(flags) {
			return nil, false, lookupError(err)
		}
		if l, _, lerr := r.lookup(path, false); lerr == nil && l.link() && excludes(flags) {
			return nil, false, oneOf(disko.ErrExists)
		}
		if phys == "" {
			return nil, false, oneOf(disko.ErrNotFound)
		}
		n, isNew = fileNode(""), true
		n.mode = perm & permBits
		if err := r.create(phys, n); err != nil {
			return nil, false, lookupError(err)
		}
	}
	if n.dir() {
		if needsWriting(flags) || creates(flags) {
			return nil, false, failure
		}
		return n, false, success
	}
	if truncates(flags) {
		n.data = nil
	}
	return n, isNew, success
}

// apply performs a changing operation on the reference.
func (r *ref) apply(o op) expect {
	switch o.k {
	case oMkdir:
		_, phys, err := r.lookup(o.path, false)
		if err == nil {
			return oneOf(disko.ErrExists)
		}
		if !errors.Is(err, disko.ErrNotFound) || phys == "" {
			return lookupError(err)
		}
		r.create(phys, dirNode(o.perm&permBits))
		return success
	case oMkdirAll:
		n, _, err := r.lookup(o.path, true)
		if err == nil {
			if n.dir() {
				return success
			}
			return oneOf(disko.ErrNotADirectory, disko.ErrExists)
		}
		if !errors.Is(err, disko.ErrNotFound) {
			return lookupError(err)
		}
		abs := normalize(r.cwd, o.path)
		dir, _ := split(abs)
		up := r.apply(op{k: oMkdirAll, path: dir, perm: o.perm})
		if !up.ok {
			return failure
		}
		if e := r.apply(op{k: oMkdir, path: abs, perm: o.perm}); !e.ok {
			return failure
		}
		return success
	case oCreate:
		_, _, e := r.openFile(o.path, rw|creat|excl, 0)
		return e
	case oOpen:
		_, _, e := r.openFile(o.path, o.flags, o.perm)
		return e
	case oWriteFile:
		n, _, e := r.openFile(o.path, wr|creat|trunc, o.perm)
		if e.ok {
			n.data = []byte(o.data)
		}
		return e
	case oTruncate:
		n, _, err := r.lookup(o.path, true)
		if err != nil {
			return lookupError(err)
		}
		if n.dir() {
			return oneOf(disko.ErrIsADirectory)
		}
		n.data = nil
		return success
	case oRemove, oRemoveAll:
		n, phys, err := r.lookup(o.path, false)
		if err != nil {
			if o.k == oRemoveAll && errors.Is(err, disko.ErrNotFound) {
				return expect{free: true}
			}
			return lookupError(err)
		}
		if phys == "/" {
			return failure
		}
		if o.k == oRemove && n.dir() && len(n.names) > 0 {
			return oneOf(disko.ErrDirectoryNotEmpty)
		}
		e := success
		if o.k == oRemoveAll && !n.dir() {
			e = expect{free: true} // os.RemoveAll removes it, a refusal is fine too
		}
		dir, base := split(phys)
		p, _, _ := r.lookup(dir, true)
		p.remove(base)
		return e
	case oLink:
		n, _, err := r.lookup(o.path, true)
		_, phys, nerr := r.lookup(o.to, false)
		var errs []error
		switch {
		case err != nil && errors.Is(err, disko.ErrNotADirectory):
			return failure
		case err != nil:
			errs = append(errs, err)
		case n.dir():
			errs = append(errs, disko.ErrNotPermitted, disko.ErrIsADirectory)
		}
		switch {
		case nerr == nil:
			errs = append(errs, disko.ErrExists)
		case errors.Is(nerr, disko.ErrNotADirectory):
			return failure
		case phys == "" || !errors.Is(nerr, disko.ErrNotFound):
			errs = append(errs, nerr)
		}
		if !r.feat.HasHardLinks {
			return failure
		}
		if errs != nil {
			return oneOf(errs...)
		}
		dir, base := split(phys)
		p, _, _ := r.lookup(dir, true)
		p.add(base, n)
		return success
	case oChmod, oChown, oLchown, oChtimes, oFileAttr:
		n, _, err := r.lookup(o.path, o.k != oLchown)
		if err != nil {
			return lookupError(err)
		}
		if !r.feat.HasUnixPermissions {
			return failure
		}
		switch o.k {
		case oChmod:
			n.mode = n.mode&^permBits | o.perm&permBits
		case oChown, oLchown:
			n.uid, n.gid = o.owner(7, 8)
		case oChtimes:
			t := o.stamps()
			if r.feat.HasAccessedTime && !t[0].IsZero() {
				n.atime = t[0]
			}
			if r.feat.HasModifiedTime && !t[1].IsZero() {
				n.mtime = t[1]
			}
		case oFileAttr:
			n.mode = n.mode&^permBits | o.perm&permBits
			n.uid, n.gid = o.owner(9, 10)
		}
		return success
	case oChdir, oFileChdir:
		n, phys, err := r.lookup(o.path, true)
		if err != nil {
			return lookupError(err)
		}
		if !n.dir() {
			return oneOf(disko.ErrNotADirectory)
		}
		r.cwd = phys
		return success
	}
	panic("harness error: unknown operation")
}

// ---- the driver ----

func (s *sys) call(o op) error {
	d := s.d
	s.x.T()
	closeFile := func(f driver.File, err error) error {
		if err != nil {
			return err
		}
		return f.Close()
	}
	switch o.k {
	case oMkdir:
		return d.Mkdir(o.path, o.perm)
	case oMkdirAll:
		return d.MkdirAll(o.path, o.perm)
	case oCreate:
		return closeFile(d.Create(o.path))
	case oOpen:
		return closeFile(d.OpenFile(o.path, o.flags, o.perm))
	case oWriteFile:
		data := []byte(o.data)
		err := d.WriteFile(o.path, data, o.perm)
		s.x.Assert(string(data) == o.data, "%v changed the caller's data", o)
		return err
	case oTruncate:
		return d.Truncate(o.path)
	case oRemove:
		return d.Remove(o.path)
	case oRemoveAll:
		return d.RemoveAll(o.path)
	case oLink:
		return d.Link(o.path, o.to)
	case oChmod:
		return d.Chmod(o.path, o.perm)
	case oChown:
		uid, gid := o.owner(7, 8)
		return d.Chown(o.path, uid, gid)
	case oLchown:
		uid, gid := o.owner(7, 8)
		return d.Lchown(o.path, uid, gid)
	case oChtimes:
		return d.Chtimes(o.path, o.stamps()[0], o.stamps()[1])
	case oChdir:
		return d.Chdir(o.path)
	case oFileChdir:
		f, err := d.Open(o.path)
		if err != nil {
			return err
		}
		err = f.Chdir()
		f.Close()
		return err
	case oFileAttr:
		f, err := d.Open(o.path)
		if err != nil {
			return err
		}
		err = f.Chmod(o.perm)
		if err == nil {
			err = f.Chown(o.owner(9, 10))
		}
		if cerr := f.Close(); err == nil {
			err = cerr
		}
		return err
	case oRead:
		for _, err := range s.reads(o.path) {
			if err != nil {
				return err
			}
		}
		return nil
	}
	panic("harness error: unknown operation")
}

// reads calls every reading operation without looking at the results.
func (s *sys) reads(path string) []error {
	d := s.d
	_, e1 := d.Stat(path)
	_, e2 := d.Lstat(path)
	_, e3 := d.Readlink(path)
	_, e4 := d.ReadDir(path)
	_, e5 := d.ReadFile(path)
	f, e6 := d.Open(path)
	if e6 == nil {
		f.ReadDir(-1)
		f.Stat()
		f.Read(make([]byte, 100))
		f.Close()
	}
	return []error{e1, e2, e3, e4, e5, e6}
}

// do performs an operation on both and compares.
func (s *sys) do(o op) {
	x := s.x
	x.Logf("%v", o)
	fs := s.fs
	fs.failed, fs.refused, fs.after = "", false, 0
	fs.changes, fs.unlinked = fs.changes[:0], 0
	if s.contract {
		s.last = s.call(o)
		s.checkHandles(0)
		return
	}
	if o.k == oRead {
		s.call(o)
		return
	}
	next := s.r.clone()
	e := next.apply(o)
	next, e = s.missing(o, next, e)
	err := s.call(o)
	s.last = err
	x.Logf("    -> %v", err)
	if !canWrite(s.flags) {
		// C32: what would change the volume is refused.
		x.Assert(len(fs.changes) == 0, "%v on a volume mounted without write permission: the driver requested %s", o, strings.Join(fs.changes, ", "))
		if o.k == oChdir || o.k == oFileChdir {
			e.check(x, o, err)
			s.r = next
		} else if e.ok && !same(next, s.r) {
			x.Assert(err != nil, "%v on a volume mounted without write permission succeeded", o)
			x.Assert(errors.Is(err, disko.ErrReadOnlyFileSystem), "%v on a volume mounted without write permission reported %v", o, err)
		} else if o.k == oOpen && !needsWriting(o.flags) {
			// It may be refused for several reasons, or work.
			x.Assert((err == nil) == e.ok, "%v on a volume mounted without write permission: %v", o, err)
		}
		return
	}
	if !canDelete(s.flags) && (o.k == oRemove || o.k == oRemoveAll) {
		x.Assert(fs.unlinked == 0, "%v on a volume mounted without delete permission unlinked an object", o)
		if e.ok {
			x.Assert(err != nil, "%v on a volume mounted without delete permission succeeded", o)
		}
		return
	}
	if err != nil {
		x.Assert(!strings.Contains(err.Error(), "%!"), "%v: garbled error %q", o, err)
	}
	if fs.failed != "" {
		// Either the operation reports an error, or it worked all the same.
		if err != nil {
			s.partial(o, next)
			return
		}
		x.Assert(e.ok || e.free, "%v succeeded", o)
	} else {
		e.check(x, o, err)
	}
	if s.fs.lacks != nil && !e.ok && !e.free {
		s.refused(o, next)
		return
	}
	if e.free {
		// The operation happened or it did not.
		if err == nil && fs.compare(next, nil) == "" || fs.compare(s.r, nil) != "" {
			s.r = next
		}
	} else if err == nil {
		s.r = next
	}
}

// partial settles what an operation that failed halfway may leave behind.
func (s *sys) partial(o op, next *ref) {
	x, fs := s.x, s.fs
	now := fs.load(s.r.cwd)
	switch o.k {
	case oMkdirAll:
		// Some of the missing directories may exist.
		x.Assert(between(s.r.root, now.root, next.root), "the failed %v left something other than some of the directories", o)
		s.r = now
	case oRemoveAll:
		// Some of what was to be removed may be gone.
		x.Assert(between(next.root, now.root, s.r.root), "the failed %v removed something outside the subtree", o)
		s.r = now
	case oWriteFile, oOpen, oCreate:
		// A created or truncated file may remain if only the rest failed.
		if d := fs.compare(s.r, nil); d != "" {
			created := !same(next, s.r)
			if t, _, err := s.r.lookup(o.path, true); err == nil && t.file() && (o.k == oWriteFile || o.flags&trunc != 0) {
				created = true // emptied, and perhaps not filled again
			}
			x.Assert(created && (fs.failed == "WriteBlocks" || fs.failed == "Resize" || fs.failed == "Close" || fs.failed == "ReadBlocks"),
				"the failed %v (%s failed) changed the volume: %s", o, fs.failed, d)
			s.settleContent(o, now, next)
		}
	case oFileAttr:
		// Chmod may have worked before Chown failed.
		s.settleContent(o, now, next)
	default:
		d := fs.compare(s.r, nil)
		if d != "" && fs.failed == "Close" {
			// The object's handle could not be closed after the change.
			d = fs.compare(next, nil)
			s.r = next
		}
		x.Assert(d == "", "the failed %v (%s failed) changed the volume: %s", o, fs.failed, d)
	}
}

// settleContent allows one object to differ in content or attributes, or to be new.
func (s *sys) settleContent(o op, now, next *ref) {
	target, _, err := next.lookup(o.path, true)
	if err != nil {
		d := s.fs.compare(s.r, nil)
		s.x.Assert(d == "", "the failed %v changed the volume: %s", o, d)
		return
	}
	got, _, err := now.lookup(o.path, true)
	if err != nil {
		// not created
		if d := s.fs.compare(s.r, nil); d != "" {
			s.x.Fail("the failed %v changed other objects: %s", o, d)
		}
		return
	}
	if o.k == oFileAttr {
		s.x.Assert(string(got.data) == string(target.data), "the failed %v changed the content", o)
	}
	target.data, target.mode, target.uid, target.gid = got.data, got.mode, got.uid, got.gid
	if d := s.fs.compare(next, nil); d != "" {
		s.x.Fail("the failed %v changed other objects: %s", o, d)
	}
	s.r = next
}

// between: mid has everything low has and nothing high lacks, with the same
// attributes and contents.
func between(low, mid, high *node) bool {
	if low != nil && (low.mode != mid.mode || low.dir() != mid.dir()) || high == nil || high.mode != mid.mode || string(high.data) != string(mid.data) {
		return false
	}
	if low != nil {
		for _, name := range low.names {
			if mid.kids[name] == nil {
				return false
			}
		}
	}
	for _, name := range mid.names {
		var l *node
		if low != nil {
			l = low.kids[name]
		}
		if !between(l, mid.kids[name], high.kids[name]) {
			return false
		}
	}
	return true
}

// same compares two references.
func same(a, b *ref) bool {
	m := map[*node]*node{}
	back := map[*node]*node{}
	var walk func(x, y *node) bool
	walk = func(x, y *node) bool {
		if m[x] != nil || back[y] != nil {
			return m[x] == y
		}
		m[x], back[y] = y, x
		if x.mode != y.mode || x.uid != y.uid || x.gid != y.gid || !x.atime.Equal(y.atime) || !x.mtime.Equal(y.mtime) || string(x.data) != string(y.data) || len(x.names) != len(y.names) {
			return false
		}
		for _, n := range x.names {
			if y.kids[n] == nil || !walk(x.kids[n], y.kids[n]) {
				return false
			}
		}
		return true
	}
	return walk(a.root, b.root)
}

// checkHandles: every handle is closed except those of open files.
func (s *sys) checkHandles(open int) {
	if len(s.fs.handles) <= open {
		return
	}
	var names []string
	for h := range s.fs.handles {
		names = append(names, h.name)
	}
	sort.Strings(names)
	s.x.Fail("%d handles are open, %d are needed: %q", len(s.fs.handles), open, names)
}

// verify compares the volume and everything that can be read through the
// driver with the reference.
func (s *sys) verify(paths []string) {
	x := s.x
	s.fs.faulty = false
	s.fs.failed = ""
	s.fs.changes = s.fs.changes[:0]
	if d := s.fs.compare(s.r, nil); d != "" {
		x.Fail("the volume differs: %s", d)
	}
	s.verifyReads(paths)
}

func (s *sys) verifyReads(paths []string) {
	x := s.x
	cwd, err := s.d.Getwd()
	x.Assert(err == nil && cwd == s.r.cwd, "Getwd gave %q, %v, want %q", cwd, err, s.r.cwd)
	x.Assert(s.d.GetFSFeatures() == s.fs.feat, "GetFSFeatures gave %v", s.d.GetFSFeatures())
	ids := map[*node]uint64{}
	for _, p := range paths {
		s.readPath(p, ids)
	}
	s.sameFiles(paths)
	x.Assert(len(s.fs.changes) == 0, "reading changed the volume: %v", s.fs.changes)
}

// sameFiles: SameFile is true of the names of one object only.
func (s *sys) sameFiles(paths []string) {
	x, d := s.x, s.d
	type info struct {
		p  string
		n  *node
		fi os.FileInfo
	}
	var infos []info
	for _, p := range paths {
		if n, _, err := s.r.lookup(p, true); err == nil {
			if f, err := d.Open(p); err == nil {
				fi, err := f.Stat()
				f.Close()
				x.Assert(err == nil, "File.Stat of %s: %v", p, err)
				infos = append(infos, info{p, n, fi})
			}
		}
	}
	for i, a := range infos {
		for _, b := range infos[:i+1] {
			x.Assert(d.SameFile(a.fi, b.fi) == (a.n == b.n), "SameFile(%s, %s) is %v", a.p, b.p, a.n != b.n)
		}
	}
}

// readPath uses every reading operation on a path.
func (s *sys) readPath(p string, ids map[*node]uint64) {
	x, d := s.x, s.d
	x.T()
	n, _, err := s.r.lookup(p, true)
	st, gerr := d.Stat(p)
	if err != nil {
		lookupError(err).check(x, on{"Stat", p}, gerr)
		_, e := d.ReadFile(p)
		lookupError(err).check(x, on{"ReadFile", p}, e)
		_, e = d.ReadDir(p)
		lookupError(err).check(x, on{"ReadDir", p}, e)
		f, e := d.Open(p)
		lookupError(err).check(x, on{"Open", p}, e)
		if e == nil {
			f.Close()
		}
	} else {
		x.Assert(gerr == nil, "Stat(%s): %v", p, gerr)
		s.checkStat(on{"Stat", p}, n, st)
		if id, ok := ids[n]; ok {
			x.Assert(id == st.InodeNumber, "Stat(%s) gave another object than before", p)
		}
		ids[n] = st.InodeNumber
		f, e := d.Open(p)
		x.Assert(e == nil || n.special(), "Open(%s): %v", p, e)
		if e == nil {
			fi, e := f.Stat()
			x.Assert(e == nil && fi.Mode() == n.mode && fi.IsDir() == n.dir(), "Open(%s).Stat: %v, %v", p, fi, e)
			x.Assert(fi.ModTime().Equal(n.mtime) && (n.dir() || fi.Size() == int64(len(n.data))), "Open(%s).Stat gave time %v, size %d, want %v, %d", p, fi.ModTime(), fi.Size(), n.mtime, len(n.data))
			if base := posixpath.Base(p); base != "." && base != ".." {
				if l, _, err := s.r.lookup(p, false); err == nil && l == n {
					x.Assert(fi.Name() == base, "Open(%s).Stat gave the name %q", p, fi.Name())
				}
			}
			if sys, ok := fi.Sys().(disko.FileStat); ok {
				s.checkStat(on{"Open.Stat", p}, n, sys)
			}
			if de, ok := fi.(os.DirEntry); ok {
				x.Assert(de.Type()&os.ModeType == n.mode&os.ModeType, "Open(%s).Stat gave the type %v, want %v", p, de.Type(), n.mode&os.ModeType)
			}
			x.Assert(f.Close() == nil, "closing %s failed", p)
		}
		entries, e := d.ReadDir(p)
		if lacks := s.lacksOf(n); lacks&noList != 0 && n.dir() {
			unsupported.check(x, on{"ReadDir", p}, e)
			x.Assert(len(entries) == 0, "ReadDir(%s) failed and returned %d entries", p, len(entries))
		} else if lacks&noData != 0 && !n.dir() {
			if b, e := d.ReadFile(p); len(n.data) > 0 || e != nil {
				unsupported.check(x, on{"ReadFile", p}, e)
				x.Assert(len(b) == 0, "ReadFile(%s) failed and returned %q", p, b)
			}
		} else if n.dir() {
			x.Assert(e == nil, "ReadDir(%s): %v", p, e)
			s.checkEntries(on{"ReadDir", p}, n, entries)
		} else {
			x.Assert(errors.Is(e, disko.ErrNotADirectory), "ReadDir(%s), not a directory: %v", p, e)
			b, e := d.ReadFile(p)
			x.Assert(n.special() || e == nil && string(b) == string(n.data), "ReadFile(%s) gave %q, %v, want %q", p, b, e, n.data)
		}
	}
	l, _, lerr := s.r.lookup(p, false)
	st, gerr = d.Lstat(p)
	text, terr := d.Readlink(p)
	if lerr != nil {
		lookupError(lerr).check(x, on{"Lstat", p}, gerr)
		if s.fs.feat.HasSymbolicLinks || !isUnsupported(terr) {
			lookupError(lerr).check(x, on{"Readlink", p}, terr)
		}
		return
	}
	x.Assert(gerr == nil, "Lstat(%s): %v", p, gerr)
	s.checkStat(on{"Lstat", p}, l, st)
	if l.link() {
		x.Assert(terr == nil && text == string(l.data), "Readlink(%s) gave %q, %v, want %q", p, text, terr, l.data)
	} else {
		x.Assert(terr != nil, "Readlink(%s), not a link, gave %q", p, text)
		if !s.fs.feat.HasSymbolicLinks {
			unsupported.check(x, on{"Readlink", p}, terr)
		}
	}
	if id, ok := ids[l]; ok {
		x.Assert(id == st.InodeNumber, "Lstat(%s) gave another object than before", p)
	}
	ids[l] = st.InodeNumber
}

func (s *sys) checkStat(what any, n *node, st disko.FileStat) {
	x := s.x
	x.Assert(st.ModeFlags == n.mode && int(st.Uid) == n.uid && int(st.Gid) == n.gid, "%v gave mode %v, owner %d:%d, want %v, %d:%d", what, st.ModeFlags, st.Uid, st.Gid, n.mode, n.uid, n.gid)
	x.Assert(n.dir() || st.Size == int64(len(n.data)), "%v gave size %d, want %d", what, st.Size, len(n.data))
	x.Assert(st.LastAccessed.Equal(n.atime) && st.LastModified.Equal(n.mtime), "%v gave times %v, %v, want %v, %v", what, st.LastAccessed, st.LastModified, n.atime, n.mtime)
	x.Assert(st.CreatedAt.Equal(timeOf(s.fs.feat.HasCreatedTime, created)) && st.LastChanged.Equal(timeOf(s.fs.feat.HasChangedTime, changed)) && st.DeviceID == 77 && st.Rdev == 78, "%v gave creation and change times %v, %v, device numbers %d, %d", what, st.CreatedAt, st.LastChanged, st.DeviceID, st.Rdev)
}

// checkEntries compares a listing with a directory, in any order.
func (s *sys) checkEntries(what any, n *node, entries []disko.DirectoryEntry) {
	x := s.x
	var names []string
	for _, e := range entries {
		k := n.kids[e.Name()]
		x.Assert(k != nil, "%v lists %q, which does not exist", what, e.Name())
		s.checkStat(entryOf{what, e.Name()}, k, e.Stat())
		names = append(names, e.Name())
	}
	sort.Strings(names)
	want := append([]string{}, n.names...)
	sort.Strings(want)
	x.Assert(fmt.Sprint(names) == fmt.Sprint(want), "%v lists %q, want %q", what, names, want)
}

// on names an operation on a path, when needed.
type on struct{ what, path string }

func (o on) String() string { return o.what + "(" + o.path + ")" }

func (s *sys) state() uint64 {
	if d := s.fs.compare(s.r, nil); d != "" && !s.contract {
		s.x.Fail("the volume differs: %s", d)
	}
	h := core.NewH().Deep(s.d)
	s.fs.hash(h)
	return h.S(s.r.cwd).Sum()
}

// entryOf names an entry of a listing, when needed.
type entryOf struct {
	what any
	name string
}

func (e entryOf) String() string { return fmt.Sprintf("%v: %s", e.what, e.name) }
