package main

import (
	"fmt"
	"os"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/file_systems/common"
	core "github.com/dargueta/disko/zzverif/core"
)

const permBits = os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.ModeSticky

// inode is an object of the in-memory file system.
type inode struct {
	id       uint64
	mode     os.FileMode
	uid, gid int
	atime    time.Time
	mtime    time.Time
	blocks   []byte // whole blocks
	size     int64
	kids     []kid
	nlink    int
	sizedBy  *hstate // handle that last changed the size
	sizedAt  int     // when
}

type kid struct {
	name string
	ino  *inode
}

func (n *inode) dir() bool  { return n.mode.IsDir() }
func (n *inode) link() bool { return n.mode&os.ModeType == os.ModeSymlink }
func (n *inode) data() []byte {
	return n.blocks[:n.size]
}

func (n *inode) get(name string) *inode {
	for _, k := range n.kids {
		if k.name == name {
			return k.ino
		}
	}
	return nil
}

// memfs implements a file system in memory. It asserts what the driver
// promises to implementations, counts changes, and fails on demand.
type memfs struct {
	x       *core.X
	bsize   int
	root    *inode
	lastID  uint64
	dots    int  // where ListDir puts "." and "..": 0 nowhere, 1 first, 2 last, 3 around
	strict  bool // violating the implementation interface's promises is a violation
	limit   int  // blocks an object may have
	feat    disko.FSFeatures
	handles map[*hstate]bool // open handles
	lacks   *lacking         // what handles lack (nil: depends on feat)
	nop     *inode           // object that can only be looked at

	faulty   bool
	kinds    int    // how many kinds of errors are injected (0: one)
	failed   string // the injected failure
	clock    int
	refused  bool // a resize was refused for lack of space
	after    int  // changes requested after the failure
	changes  []string
	unlinked int
}

// impl is what the driver gets to see. Its state is hidden in a function so
// that hashing the driver does not reach it.
type impl struct{ fs func() *memfs }

// hardLinks adds support for hard links.
type hardLinks struct{ impl }

type hstate struct {
	fs     *memfs
	ino    *inode
	parent *inode
	name   string
	closed bool
	since  int
}

// minimal is a handle without optional features.
type minimal struct{ h func() *hstate }

// listing adds listing of directories.
type listing struct{ minimal }

// full adds everything.
type full struct{ listing }

func newMemfs(x *core.X, bsize int) *memfs {
	fs := &memfs{x: x, bsize: bsize, limit: 64, handles: map[*hstate]bool{}}
	fs.feat = disko.FSFeatures{HasDirectories: true, HasSymbolicLinks: true, HasHardLinks: true, HasAccessedTime: true, HasModifiedTime: true,
		HasCreatedTime: true, HasChangedTime: true, HasUnixPermissions: true, HasUserID: true, HasGroupID: true, DefaultBlockSize: bsize}
	fs.root = fs.newInode(os.ModeDir | 0o755)
	fs.root.nlink = 1
	return fs
}

func (fs *memfs) newInode(mode os.FileMode) *inode {
	fs.lastID++
	return &inode{id: fs.lastID, mode: mode}
}

func (fs *memfs) driver(flags disko.MountFlags) *driver.BaseDriver {
	i := impl{func() *memfs { return fs }}
	if fs.feat.HasHardLinks {
		return driver.New(hardLinks{i}, flags)
	}
	return driver.New(i, flags)
}

// setData stores content without going through a handle.
func (fs *memfs) setData(n *inode, data []byte) {
	n.size = int64(len(data))
	n.blocks = append([]byte{}, data...)
	for len(n.blocks)%fs.bsize != 0 {
		n.blocks = append(n.blocks, 0xDD)
	}
}

// broken reports a broken promise. It returns false when the implementation
// should merely refuse the request.
func (fs *memfs) broken(format string, args ...any) disko.DriverError {
	msg := fmt.Sprintf(format, args...)
	fs.x.Logf("    broken promise: %s", msg)
	if fs.strict {
		fs.x.Fail("%s", msg)
	}
	return disko.ErrInvalidArgument.WithMessage(msg)
}

// faultKinds are the errors a request can fail with.
var faultKinds = []func(what string) disko.DriverError{
	func(what string) disko.DriverError {
		return disko.ErrIOFailed.WithMessage("injected failure of " + what)
	},
	func(what string) disko.DriverError { return disko.ErrNotFound.WithMessage(what) },
	func(what string) disko.DriverError { return disko.ErrExists },
	func(what string) disko.DriverError { return disko.ErrIOFailed.Wrap(disko.ErrNotFound) },
	func(what string) disko.DriverError { return disko.ErrNotADirectory.WithMessage(what) },
	func(what string) disko.DriverError { return disko.ErrNotImplemented },
	func(what string) disko.DriverError { return disko.ErrDirectoryNotEmpty.WithMessage("") },
	func(what string) disko.DriverError { return disko.ErrIsADirectory.Wrap(os.ErrExist) },
}

func (fs *memfs) fault(what string) disko.DriverError {
	if !fs.faulty {
		return nil
	}
	kind := fs.x.Deviate(1+max(1, fs.kinds), what+" fails")
	if kind == 0 {
		return nil
	}
	if (what == "GetObject" || what == "ReadBlocks") && (kind == 2 || kind == 4) {
		kind = 1 // "not found" is an answer here, not a failure
	}
	if fs.failed == "" || fs.failed == "Close" {
		fs.failed = what // (a failing Close says less than any other failure)
	}
	err := faultKinds[kind-1](what)
	fs.x.Logf("    injected: %s fails: %v", what, err)
	return err
}

// changing notes a request to change the volume.
func (fs *memfs) changing(format string, args ...any) {
	if fs.failed != "" && fs.failed != "Close" {
		fs.after++
	}
	fs.changes = append(fs.changes, fmt.Sprintf(format, args...))
	if fs.x.Verbose {
		fs.x.Logf("    "+format, args...)
	}
}

func (fs *memfs) open(n, parent *inode, name string) disko.ObjectHandle {
	s := &hstate{fs: fs, ino: n, parent: parent, name: name, since: fs.clock}
	fs.handles[s] = true
	h := full{listing{minimal{func() *hstate { return s }}}}
	if n == fs.nop && n != nil {
		return nopNode{h: h.h}
	}
	if fs.lacks != nil {
		return without(h, fs.lacks.of(n.dir()))
	}
	if !fs.feat.HasUnixPermissions {
		if n.dir() {
			return h.listing
		}
		return h.minimal
	}
	return h
}

// find locates the object behind a handle of any wrapping.
func (fs *memfs) find(h disko.ObjectHandle, what string) (*inode, disko.DriverError) {
	if h == nil {
		return nil, fs.broken("%s got no handle", what)
	}
	id := h.Stat().InodeNumber
	for s := range fs.handles {
		if s.ino.id == id {
			return s.ino, nil
		}
	}
	return nil, fs.broken("%s got a handle that is not open", what)
}

func (fs *memfs) findDir(h disko.ObjectHandle, what string) (*inode, disko.DriverError) {
	n, err := fs.find(h, what)
	if err == nil && !n.dir() {
		return nil, fs.broken("%s got a parent that is no directory", what)
	}
	if err == nil && n.nlink == 0 {
		return nil, fs.broken("%s got a parent that was removed", what)
	}
	return n, err
}

func (fs *memfs) checkName(name, what string) disko.DriverError {
	bad := name == "" || name == "." || name == ".."
	for _, c := range name {
		bad = bad || c == '/'
	}
	if bad {
		return fs.broken("%s got the name %q", what, name)
	}
	return nil
}

// ---- disko.FileSystemImplementer ----

func (i impl) Mount(flags disko.MountFlags) disko.DriverError { return nil }
func (i impl) Flush() disko.DriverError                       { return nil }
func (i impl) Unmount() disko.DriverError                     { return nil }

func (i impl) CreateObject(name string, parent disko.ObjectHandle, perm os.FileMode) (disko.ObjectHandle, disko.DriverError) {
	fs := i.fs()
	fs.changing("CreateObject(%q, %v)", name, perm)
	dir, err := fs.findDir(parent, "CreateObject("+name+")")
	if err != nil {
		return nil, err
	}
	if err := fs.checkName(name, "CreateObject"); err != nil {
		return nil, err
	}
	if dir.get(name) != nil {
		fs.broken("CreateObject(%q) for an object that exists", name)
		return nil, disko.ErrExists.WithMessage(name)
	}
	if t := perm & os.ModeType; t != 0 && t != os.ModeDir {
		return nil, fs.broken("CreateObject(%q) with mode %v", name, perm)
	}
	if err := fs.fault("CreateObject"); err != nil {
		return nil, err
	}
	n := fs.newInode(perm & (permBits | os.ModeDir))
	n.nlink = 1
	dir.kids = append(dir.kids, kid{name, n})
	return fs.open(n, dir, name), nil
}

func (i impl) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	fs := i.fs()
	dir, err := fs.findDir(parent, "GetObject("+name+")")
	if err != nil {
		return nil, err
	}
	if err := fs.checkName(name, "GetObject"); err != nil {
		return nil, err
	}
	if err := fs.fault("GetObject"); err != nil {
		return nil, err
	}
	n := dir.get(name)
	if n == nil {
		return nil, disko.ErrNotFound.WithMessage(name)
	}
	return fs.open(n, dir, name), nil
}

func (i impl) GetRootDirectory() disko.ObjectHandle {
	fs := i.fs()
	return fs.open(fs.root, nil, "/")
}

func (i impl) FSStat() disko.FSStat            { return disko.FSStat{BlockSize: uint(i.fs().bsize)} }
func (i impl) GetFSFeatures() disko.FSFeatures { return i.fs().feat }

func (i hardLinks) CreateHardLink(source, parent disko.ObjectHandle, name string) (disko.ObjectHandle, disko.DriverError) {
	fs := i.fs()
	fs.changing("CreateHardLink(%q)", name)
	n, err := fs.find(source, "CreateHardLink("+name+")")
	if err != nil {
		return nil, err
	}
	dir, err := fs.findDir(parent, "CreateHardLink("+name+")")
	if err != nil {
		return nil, err
	}
	if err := fs.checkName(name, "CreateHardLink"); err != nil {
		return nil, err
	}
	if n.dir() {
		return nil, fs.broken("CreateHardLink(%q) to a directory", name)
	}
	if dir.get(name) != nil {
		fs.broken("CreateHardLink(%q) onto a name that exists", name)
		return nil, disko.ErrExists.WithMessage(name)
	}
	if err := fs.fault("CreateHardLink"); err != nil {
		return nil, err
	}
	n.nlink++
	dir.kids = append(dir.kids, kid{name, n})
	return fs.open(n, dir, name), nil
}

// ---- disko.ObjectHandle ----

func (m minimal) use(what string) *hstate {
	s := m.h()
	if s.closed {
		s.fs.broken("%s on the closed handle of %q", what, s.name)
	}
	return s
}

func (m minimal) Stat() disko.FileStat {
	s := m.use("Stat")
	n := s.ino
	return disko.FileStat{
		InodeNumber: n.id, Nlinks: uint64(n.nlink), ModeFlags: n.mode, Uid: uint32(n.uid), Gid: uint32(n.gid),
		Size: n.size, BlockSize: int64(s.fs.bsize), NumBlocks: int64(len(n.blocks) / s.fs.bsize),
		LastAccessed: n.atime, LastModified: n.mtime, CreatedAt: timeOf(s.fs.feat.HasCreatedTime, created), LastChanged: timeOf(s.fs.feat.HasChangedTime, changed),
		DeviceID: 77, Rdev: 78,
	}
}

var created, changed = time.Unix(3000000, 0), time.Unix(4000000, 0)

func timeOf(known bool, t time.Time) time.Time {
	if known {
		return t
	}
	return disko.UndefinedTimestamp
}

func (m minimal) Resize(size uint64) disko.DriverError {
	s := m.use("Resize")
	if s.closed {
		return disko.ErrFileDescriptorBadState
	}
	fs, n := s.fs, s.ino
	fs.changing("%s.Resize(%d)", s.name, size)
	if n.dir() {
		return fs.broken("Resize of the directory %q", s.name)
	}
	if err := fs.fault("Resize"); err != nil {
		return err
	}
	if size > uint64(fs.limit*fs.bsize) {
		fs.refused = true
		return disko.ErrNoSpaceOnDevice
	}
	blocks := (int(size) + fs.bsize - 1) / fs.bsize
	for len(n.blocks) < blocks*fs.bsize {
		n.blocks = append(n.blocks, 0xDD) // whatever was in the block
	}
	n.blocks = n.blocks[:blocks*fs.bsize]
	n.size = int64(size)
	fs.clock++
	n.sizedBy, n.sizedAt = s, fs.clock
	return nil
}

func (s *hstate) inside(what string, index common.LogicalBlock, n int) disko.DriverError {
	total := len(s.ino.blocks) / s.fs.bsize
	if uint64(index)+uint64(n) <= uint64(total) {
		return nil
	}
	msg := fmt.Sprintf("%s of blocks %d-%d of %q, which has %d", what, index, uint64(index)+uint64(n)-1, s.name, total)
	if s.ino.sizedBy != s && s.ino.sizedAt > s.since {
		// Someone else changed the size while this handle was open.
		return disko.ErrIOFailed.WithMessage(msg)
	}
	return s.fs.broken("%s", msg)
}

func (m minimal) ReadBlocks(index common.LogicalBlock, buf []byte) disko.DriverError {
	s := m.use("ReadBlocks")
	if s.closed {
		return disko.ErrFileDescriptorBadState
	}
	bs := s.fs.bsize
	if len(buf) == 0 || len(buf)%bs != 0 {
		return s.fs.broken("ReadBlocks of %d bytes from %q with blocks of %d", len(buf), s.name, bs)
	}
	if err := s.inside("ReadBlocks", index, len(buf)/bs); err != nil {
		return err
	}
	if err := s.fs.fault("ReadBlocks"); err != nil {
		return err
	}
	copy(buf, s.ino.blocks[int(index)*bs:])
	return nil
}

func (m minimal) WriteBlocks(index common.LogicalBlock, data []byte) disko.DriverError {
	s := m.use("WriteBlocks")
	if s.closed {
		return disko.ErrFileDescriptorBadState
	}
	bs := s.fs.bsize
	s.fs.changing("%s.WriteBlocks(%d, %d bytes)", s.name, index, len(data))
	if len(data) == 0 || len(data)%bs != 0 {
		return s.fs.broken("WriteBlocks of %d bytes to %q with blocks of %d", len(data), s.name, bs)
	}
	if err := s.inside("WriteBlocks", index, len(data)/bs); err != nil {
		return err
	}
	if s.ino.dir() {
		return s.fs.broken("WriteBlocks to the directory %q", s.name)
	}
	if err := s.fs.fault("WriteBlocks"); err != nil {
		return err
	}
	copy(s.ino.blocks[int(index)*bs:], data)
	return nil
}

func (m minimal) ZeroOutBlocks(index common.LogicalBlock, count uint) disko.DriverError {
	s := m.use("ZeroOutBlocks")
	if s.closed {
		return disko.ErrFileDescriptorBadState
	}
	s.fs.changing("%s.ZeroOutBlocks(%d, %d)", s.name, index, count)
	if count == 0 {
		return s.fs.broken("ZeroOutBlocks of no blocks of %q", s.name)
	}
	if err := s.inside("ZeroOutBlocks", index, int(count)); err != nil {
		return err
	}
	if err := s.fs.fault("ZeroOutBlocks"); err != nil {
		return err
	}
	clear(s.ino.blocks[int(index)*s.fs.bsize : (int(index)+int(count))*s.fs.bsize])
	return nil
}

func (m minimal) Unlink() disko.DriverError {
	s := m.use("Unlink")
	if s.closed {
		return disko.ErrFileDescriptorBadState
	}
	fs := s.fs
	fs.changing("%s.Unlink()", s.name)
	if s.parent == nil {
		return fs.broken("Unlink of the root")
	}
	if len(s.ino.kids) > 0 {
		fs.broken("Unlink of the directory %q, which contains %q", s.name, s.ino.kids[0].name)
		return disko.ErrDirectoryNotEmpty
	}
	if err := fs.fault("Unlink"); err != nil {
		return err
	}
	for i, k := range s.parent.kids {
		if k.name == s.name && k.ino == s.ino {
			s.parent.kids = append(append([]kid{}, s.parent.kids[:i]...), s.parent.kids[i+1:]...)
			s.ino.nlink--
			fs.unlinked++
			return nil
		}
	}
	return disko.ErrNotFound
}

func (m minimal) Name() string { return m.use("Name").name }

func (m minimal) SameAs(other disko.ObjectHandle) bool {
	s := m.use("SameAs")
	return other.Stat().InodeNumber == s.ino.id
}

func (m minimal) Close() error {
	s := m.use("Close")
	if s.closed {
		return disko.ErrFileDescriptorBadState
	}
	s.closed = true
	delete(s.fs.handles, s)
	if err := s.fs.fault("Close"); err != nil {
		return err
	}
	return nil
}

func (l listing) ListDir() ([]string, disko.DriverError) {
	s := l.use("ListDir")
	if s.closed {
		return nil, disko.ErrFileDescriptorBadState
	}
	fs := s.fs
	if !s.ino.dir() {
		return nil, fs.broken("ListDir of %q, which is no directory", s.name)
	}
	if err := fs.fault("ListDir"); err != nil {
		return nil, err
	}
	var names []string
	if fs.dots == 1 {
		names = append(names, ".", "..")
	} else if fs.dots == 3 {
		names = append(names, ".")
	}
	for _, k := range s.ino.kids {
		names = append(names, k.name)
	}
	if fs.dots == 2 {
		names = append(names, ".", "..")
	} else if fs.dots == 3 {
		names = append(names, "..")
	}
	return names, nil
}

func (f full) Chmod(mode os.FileMode) disko.DriverError {
	s := f.use("Chmod")
	if s.closed {
		return disko.ErrFileDescriptorBadState
	}
	s.fs.changing("%s.Chmod(%v)", s.name, mode)
	if mode&^permBits != 0 {
		return s.fs.broken("Chmod of %q with more than permission bits: %v", s.name, mode)
	}
	if err := s.fs.fault("Chmod"); err != nil {
		return err
	}
	s.ino.mode = s.ino.mode&^permBits | mode
	return nil
}

func (f full) Chown(uid, gid int) disko.DriverError {
	s := f.use("Chown")
	if s.closed {
		return disko.ErrFileDescriptorBadState
	}
	s.fs.changing("%s.Chown(%d, %d)", s.name, uid, gid)
	if err := s.fs.fault("Chown"); err != nil {
		return err
	}
	s.ino.uid, s.ino.gid = uid, gid
	return nil
}

func (f full) Chtimes(created, accessed, modified, changed, deleted time.Time) disko.DriverError {
	s := f.use("Chtimes")
	if s.closed {
		return disko.ErrFileDescriptorBadState
	}
	fs := s.fs
	fs.changing("%s.Chtimes(%v, %v)", s.name, accessed, modified)
	for _, t := range []struct {
		what      string
		supported bool
		t         time.Time
	}{{"created", fs.feat.HasCreatedTime, created}, {"accessed", fs.feat.HasAccessedTime, accessed}, {"modified", fs.feat.HasModifiedTime, modified},
		{"changed", fs.feat.HasChangedTime, changed}, {"deleted", fs.feat.HasDeletedTime, deleted}} {
		if !t.supported && !t.t.IsZero() {
			fs.broken("Chtimes sets the unsupported %s time of %q", t.what, s.name)
		}
	}
	if !deleted.IsZero() {
		return fs.broken("Chtimes sets the deletion time of %q, which exists", s.name)
	}
	if !created.IsZero() {
		return fs.broken("Chtimes sets the time of creation of %q", s.name)
	}
	if err := fs.fault("Chtimes"); err != nil {
		return err
	}
	if !accessed.IsZero() {
		s.ino.atime = accessed
	}
	if !modified.IsZero() {
		s.ino.mtime = modified
	}
	return nil
}

// hash is the canonical state of the volume.
func (fs *memfs) hash(h *core.H) *core.H {
	ids := map[*inode]int{}
	var walk func(n *inode)
	walk = func(n *inode) {
		if id, ok := ids[n]; ok {
			h.U(0x77).I(id)
			return
		}
		ids[n] = len(ids)
		h.U(uint64(n.mode)).I(n.uid).I(n.gid).I(n.nlink).I(int(n.size)).B(n.blocks).I(int(n.atime.Unix())).I(n.atime.Nanosecond()).I(int(n.mtime.Unix())).I(n.mtime.Nanosecond()).I(len(n.kids))
		for _, k := range n.kids {
			h.S(k.name)
			walk(k.ino)
		}
	}
	walk(fs.root)
	// Objects that only exist because they are open.
	for _, s := range fs.orphans() {
		if _, ok := ids[s]; !ok {
			walk(s)
		}
	}
	return h
}

func (fs *memfs) orphans() []*inode {
	var l []*inode
	for s := range fs.handles {
		if s.ino.nlink == 0 {
			l = append(l, s.ino)
		}
	}
	if len(l) > 1 {
		for i := range l {
			for j := i + 1; j < len(l); j++ {
				if l[j].id < l[i].id {
					l[i], l[j] = l[j], l[i]
				}
			}
		}
	}
	return l
}
