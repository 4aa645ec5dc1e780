package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	core "github.com/dargueta/disko/zzverif/core"
)

// What the handles of a file system may lack.
const (
	noList = 1 << iota
	noChmod
	noChown
	noChtimes
	noData     // reading, writing, resizing, removing
	allMissing = noData - 1
)

// lacking says what handles of directories and of other objects lack.
type lacking struct{ dir, other int }

func (l lacking) of(isDir bool) int {
	if isDir {
		return l.dir
	}
	return l.other
}

// The optional interfaces one by one.
type (
	canList    struct{ f full }
	canChmod   struct{ f full }
	canChown   struct{ f full }
	canChtimes struct{ f full }
)

func (c canList) ListDir() ([]string, disko.DriverError)    { return c.f.ListDir() }
func (c canChmod) Chmod(mode os.FileMode) disko.DriverError { return c.f.Chmod(mode) }
func (c canChown) Chown(uid, gid int) disko.DriverError     { return c.f.Chown(uid, gid) }
func (c canChtimes) Chtimes(created, accessed, modified, changed, deleted time.Time) disko.DriverError {
	return c.f.Chtimes(created, accessed, modified, changed, deleted)
}

// without makes a handle that lacks some of the optional interfaces.
func without(f full, lacks int) disko.ObjectHandle {
	type m = minimal
	b, l, c, o, t := f.minimal, canList{f}, canChmod{f}, canChown{f}, canChtimes{f}
	switch allMissing &^ lacks {
	case 0:
		return b
	case noList:
		return struct {
			m
			canList
		}{b, l}
	case noChmod:
		return struct {
			m
			canChmod
		}{b, c}
	case noList | noChmod:
		return struct {
			m
			canList
			canChmod
		}{b, l, c}
	case noChown:
		return struct {
			m
			canChown
		}{b, o}
	case noList | noChown:
		return struct {
			m
			canList
			canChown
		}{b, l, o}
	case noChmod | noChown:
		return struct {
			m
			canChmod
			canChown
		}{b, c, o}
	case noList | noChmod | noChown:
		return struct {
			m
			canList
			canChmod
			canChown
		}{b, l, c, o}
	case noChtimes:
		return struct {
			m
			canChtimes
		}{b, t}
	case noList | noChtimes:
		return struct {
			m
			canList
			canChtimes
		}{b, l, t}
	case noChmod | noChtimes:
		return struct {
			m
			canChmod
			canChtimes
		}{b, c, t}
	case noList | noChmod | noChtimes:
		return struct {
			m
			canList
			canChmod
			canChtimes
		}{b, l, c, t}
	case noChown | noChtimes:
		return struct {
			m
			canChown
			canChtimes
		}{b, o, t}
	case noList | noChown | noChtimes:
		return struct {
			m
			canList
			canChown
			canChtimes
		}{b, l, o, t}
	case noChmod | noChown | noChtimes:
		return struct {
			m
			canChmod
			canChown
			canChtimes
		}{b, c, o, t}
	}
	return f
}

func (n *node) contains(k *node) bool {
	for _, name := range n.names {
		if n.kids[name] == k || n.kids[name].contains(k) {
			return true
		}
	}
	return false
}

// lacksOf says what the handles of an object lack.
func (s *sys) lacksOf(n *node) int {
	if s.fs.lacks == nil {
		return 0
	}
	if s.special != "" {
		if sp, _, err := s.r.lookup(s.special, false); err == nil && sp == n {
			return allMissing | noData
		}
	}
	return s.fs.lacks.of(n.dir())
}

var unsupported = oneOf(disko.ErrNotImplemented, disko.ErrNotSupported)

func isUnsupported(err error) bool {
	return errors.Is(err, disko.ErrNotImplemented) || errors.Is(err, disko.ErrNotSupported)
}

// missing adjusts what is expected of an operation to what the file system lacks.
func (s *sys) missing(o op, next *ref, e expect) (*ref, expect) {
	if s.fs.lacks == nil {
		return next, e
	}
	if o.k == oLink && !s.fs.feat.HasHardLinks {
		with := *s.r.feat
		with.HasHardLinks = true
		c := s.r.clone()
		c.feat = &with
		if c.apply(o).ok {
			return s.r, unsupported
		}
	}
	if !e.ok && !e.free {
		// It fails anyway. Which of the reasons is reported does not matter.
		if n, _, err := s.r.lookup(o.path, false); e.errs != nil && err == nil && s.lacksOf(n) != 0 {
			e.errs = append(append([]error{}, e.errs...), unsupported.errs...)
		}
		return next, e
	}
	if o.k == oRemoveAll && s.special != "" {
		n, _, _ := s.r.lookup(o.path, false)
		sp, _, _ := s.r.lookup(s.special, false)
		if n != nil && n.dir() && n != sp && n.contains(sp) {
			// The object stays, and so does the directory.
			return nil, unsupported
		}
	}
	n, _, err := s.r.lookup(o.path, o.k != oLchown && o.k != oRemove && o.k != oRemoveAll)
	if err != nil {
		return next, e
	}
	lacks := s.lacksOf(n)
	needs := 0
	switch o.k {
	case oRemove, oRemoveAll:
		needs = noData
		if n.dir() {
			needs |= noList
		}
		if e.free {
			return next, e
		}
	case oWriteFile, oTruncate, oOpen:
		if o.k != oOpen || truncates(o.flags) {
			needs = noData
		}
		if lacks&needs != 0 && o.k != oWriteFile && len(n.data) == 0 {
			return next, expect{free: true} // nothing to do
		}
	case oChmod:
		needs = noChmod
	case oChown, oLchown:
		needs = noChown
	case oChtimes:
		needs = noChtimes
	case oFileAttr:
		needs = noChmod
		if lacks&noChmod == 0 && lacks&noChown != 0 {
			// The mode is changed, then the owner cannot be.
			half := s.r.clone()
			n, _, _ := half.lookup(o.path, true)
			n.mode = n.mode&^permBits | o.perm&permBits
			return half, unsupported
		}
	}
	if lacks&needs != 0 {
		return s.r, unsupported
	}
	return next, e
}

// refused settles what an operation that failed left behind. What it may leave
// is next, or for nil, a part of what was to be removed.
func (s *sys) refused(o op, next *ref) {
	if next == nil {
		now := s.fs.load(s.r.cwd)
		after := s.r.clone()
		after.apply(o)
		s.x.Assert(between(after.root, now.root, s.r.root), "the refused %v changed something outside the directory", o)
		_, _, err := now.lookup(s.special, false)
		s.x.Assert(err == nil, "the refused %v removed %s", o, s.special)
		s.r = now
		return
	}
	if o.k == oFileAttr && !same(next, s.r) {
		s.r = next
	}
	if o.k == oMkdirAll {
		s.r = s.fs.load(s.r.cwd)
		return
	}
	d := s.fs.compare(s.r, nil)
	s.x.Assert(d == "", "the refused %v changed the volume: %s", o, d)
}

// plain trees have no symbolic links.
var plainTrees = []struct {
	name string
	make func() *node
}{
	{"no links", func() *node {
		root, a, aa, f := dirNode(0o755), dirNode(0o751), dirNode(0o711), fileNode("shared")
		root.add("a", a)
		a.add("b", f)
		a.add("a", aa)
		aa.add("b", fileNode(""))
		root.add("b", f)
		root.add("l", dirNode(0o700))
		return root
	}},
}

func newLackingSys(x *core.X, tree int, l lacking, hard bool) *sys {
	t := append(plainTrees[:1:1], trees...)[tree]
	s := newSysFeat(x, t.make(), 3, disko.MountFlagsAllowAll, func(f *disko.FSFeatures) {
		f.HasHardLinks = hard
		f.HasSymbolicLinks = tree > 1
	})
	s.fs.lacks = &l
	s.fs.strict = true
	x.Logf("tree %q; handles of directories lack %#b, others %#b (1: list, 10: chmod, 100: chown, 1000: chtimes); hard links %v, symbolic links %v", t.name, l.dir, l.other, hard, s.fs.feat.HasSymbolicLinks)
	return s
}

var missingPaths = append(append([]string{}, namePaths...), "a", ".")

// lackingHistory: operations on file systems that lack something.
func lackingHistory(menu []op, lacks []lacking, trees ...int) func(x *core.X) {
	return func(x *core.X) {
		l := core.Pick(x, "lacking", lacks...)
		hard := x.Bool("hard links")
		tree := core.Pick(x, "tree", trees...)
		x.Config()
		first := x.Choose(len(menu), "first operation")
		x.Begin()
		s := newLackingSys(x, tree, l, hard)
		x.Step(s.state, nil)
		o := menu[first]
		for {
			s.do(o)
			s.checkHandles(0)
			x.Step(s.state, func() { s.verify(missingPaths); s.checkHandles(0) })
			o = menu[x.Choose(len(menu), "")]
		}
	}
}

// lackingFile: an open file or directory is used.
func lackingFile(uses int, lacks []lacking) func(x *core.X) {
	return func(x *core.X) {
		l := core.Pick(x, "lacking", lacks...)
		tree := core.Pick(x, "tree", 0, 2, 4)
		path := core.Pick(x, "path", "/a", "/b", "/", "/a/b", "/l")
		x.Begin()
		s := newLackingSys(x, tree, l, true)
		n, _, err := s.r.lookup(path, true)
		if err != nil {
			x.Abandon()
		}
		flags := disko.IOFlags(rd)
		if !n.dir() {
			flags = rw
		}
		f, err := s.d.OpenFile(path, flags, 0)
		x.Assert(err == nil, "OpenFile(%q, %#x): %v", path, int(flags), err)
		lack := l.of(n.dir())
		for i := 0; i < uses; i++ {
			var err error
			var what string
			var needs int
			ok := true
			switch x.Choose(8, "use") {
			case 0:
				what, needs = "Chmod", noChmod
				if err = f.Chmod(0o640 + os.FileMode(i)); lack&noChmod == 0 {
					n.mode = n.mode&^permBits | 0o640 + os.FileMode(i)
				}
			case 1:
				what, needs = "Chown", noChown
				if err = f.Chown(3+i, 4); lack&noChown == 0 {
					n.uid, n.gid = 3+i, 4
				}
			case 2, 3, 4:
				needs, ok = noList, n.dir()
				var count int
				switch x.Choose(3, "method") {
				case 0:
					what = "ReadDir"
					var p []os.DirEntry
					p, err = f.ReadDir(-1)
					count = len(p)
				case 1:
					what = "Readdir"
					var p []os.FileInfo
					p, err = f.Readdir(-1)
					count = len(p)
				case 2:
					what = "Readdirnames"
					var p []string
					p, err = f.Readdirnames(-1)
					count = len(p)
				}
				x.Assert(err == nil || count == 0, "%s failed with %v and returned %d entries", what, err, count)
			case 5:
				what = "Stat"
				_, err = f.Stat()
			case 6:
				what, ok = "Read", !n.dir()
				_, err = f.Seek(0, 0)
				if ok && err == nil && len(n.data) > 0 {
					b := make([]byte, len(n.data))
					_, err = f.Read(b)
					x.Assert(err != nil || string(b) == string(n.data), "Read gave %q, want %q", b, n.data)
				} else {
					ok = true
				}
			case 7:
				what, ok = "WriteAt", !n.dir()
				if ok {
					_, err = f.WriteAt([]byte("new"), 0)
					if err == nil {
						n.data = append([]byte("new"), n.data[min(3, len(n.data)):]...)
					}
				} else {
					ok = true
				}
			}
			x.Logf("%s: %v", what, err)
			switch {
			case ok && lack&needs != 0:
				x.Assert(isUnsupported(err), "%s of %s, whose handle does not support it, reported %v", what, path, err)
			case ok:
				x.Assert(err == nil, "%s of %s: %v", what, path, err)
			default:
				x.Assert(err != nil, "%s of %s succeeded", what, path)
			}
		}
		x.Assert(f.Close() == nil, "Close of %s failed", path)
		s.checkHandles(0)
		s.verify(missingPaths)
		s.checkHandles(0)
	}
}

// nopNode is an object that can only be looked at: a handle as an implementation
// would write it on top of NopObjectHandle.
type nopNode struct {
	driver.NopObjectHandle
	h func() *hstate
}

func (n nopNode) Stat() disko.FileStat                 { return minimal{n.h}.Stat() }
func (n nopNode) Name() string                         { return minimal{n.h}.Name() }
func (n nopNode) Close() error                         { return minimal{n.h}.Close() }
func (n nopNode) SameAs(other disko.ObjectHandle) bool { return minimal{n.h}.SameAs(other) }

// nopVolume: one object can only be looked at.
func nopVolume(menu []op) func(x *core.X) {
	return func(x *core.X) {
		special := core.Pick(x, "object", "/a/b", "/a/a/b", "/a/a", "/a", "/l")
		x.Config()
		first := x.Choose(len(menu), "first operation")
		x.Begin()
		s := newSysFeat(x, plainTrees[0].make(), 3, disko.MountFlagsAllowAll, func(f *disko.FSFeatures) { f.HasSymbolicLinks = false })
		s.fs.lacks = &lacking{}
		s.special = special
		n := s.fs.root
		for _, c := range strings.Split(special[1:], "/") {
			n = n.get(c)
		}
		s.fs.nop = n
		x.Logf("%s is implemented by NopObjectHandle", special)
		x.Step(s.state, nil)
		o := menu[first]
		for {
			s.do(o)
			s.checkHandles(0)
			x.Step(s.state, func() { s.verify(missingPaths); s.checkHandles(0) })
			o = menu[x.Choose(len(menu), "")]
		}
	}
}

// nopHandle: a NopObjectHandle does nothing at all.
func nopHandle(x *core.X) {
	x.Begin()
	h := driver.NopObjectHandle{}
	var o disko.ObjectHandle = h
	if x.Bool("pointer") {
		o = &h
	}
	for i := 0; i < 2; i++ {
		var what string
		var err error
		switch x.Choose(14, "operation") {
		case 0:
			what, err = "Resize", o.Resize(uint64(x.Choose(2, "size")))
		case 1:
			what, err = "ReadBlocks", o.ReadBlocks(0, make([]byte, 4))
		case 2:
			what, err = "WriteBlocks", o.WriteBlocks(1, make([]byte, 4))
		case 3:
			what, err = "ZeroOutBlocks", o.ZeroOutBlocks(0, 1)
		case 4:
			what, err = "Unlink", o.Unlink()
		case 5:
			what, err = "Chmod", h.Chmod(0)
		case 6:
			what, err = "Chown", h.Chown(0, 0)
		case 7:
			what, err = "Chtimes", h.Chtimes(t1, t1, t1, t1, t1)
		case 8:
			var l []string
			l, err = h.ListDir()
			what = "ListDir"
			x.Assert(l == nil, "ListDir returned %q", l)
		case 9:
			what, err = "Close", o.Close()
		case 10:
			x.Assert(!o.SameAs(o), "SameAs is true, not the zero value")
			continue
		case 11:
			x.Assert(o.Name() == "", "Name is %q", o.Name())
			continue
		case 12:
			x.Assert(h.AbsolutePath() == "", "AbsolutePath is %q", h.AbsolutePath())
			continue
		case 13:
			x.Assert(o.Stat() == disko.FileStat{}, "Stat is not zero")
			continue
		}
		x.T()
		x.Assert(errors.Is(err, disko.ErrNotImplemented), "%s of a NopObjectHandle reported %v", what, err)
	}
}

func missingParts(t bool) []*core.Part {
	var all, some []lacking
	for d := 0; d <= allMissing; d++ {
		for o := 0; o <= allMissing; o += 2 {
			all = append(all, lacking{d, o})
			if d|noList == o|noList {
				some = append(some, lacking{d, o})
			}
		}
	}
	few := []lacking{{allMissing, allMissing}, {noList, 0}, {noChmod, noChown}, {noChtimes, noChmod | noChtimes}}
	return []*core.Part{
		{Name: "operations", Mode: core.BFS, Depth: 1, Bounds: fmt.Sprintf("handles of directories lacking any of listing, chmod, chown, chtimes, other handles any of the last three (%d combinations), with and without hard links, without and with symbolic links: %d operations; then everything is read", len(all), len(bigMenu)), Body: lackingHistory(bigMenu, all, 0, 2, 3, 4)},
		{Name: "histories", Mode: core.BFS, Depth: pick(t, 3, 4), Bounds: fmt.Sprintf("histories of %d operations, every reachable state", len(smallMenu)), Body: lackingHistory(smallMenu, pick2(t, few, some), 0, 2, 4)},
		{Name: "open files", Mode: core.DFS, Bounds: "two (thorough: three) uses of an open file or directory in every order, for every combination", Body: lackingFile(pick(t, 2, 3), pick2(t, some, all))},
		{Name: "one object", Mode: core.BFS, Depth: pick(t, 2, 3), Bounds: fmt.Sprintf("one file or directory of the volume implemented on top of NopObjectHandle: %d operations", len(nopMenu)), Body: nopVolume(nopMenu)},
		{Name: "no object", Mode: core.DFS, Bounds: "every pair of operations of a NopObjectHandle", Body: nopHandle},
	}
}

func pick2(t bool, a, b []lacking) []lacking {
	if t {
		return b
	}
	return a
}

var nopMenu = func() []op {
	var m []op
	for _, p := range []string{"/a", "/b", "/a/a", "/a/b", "/a/a/b", "/l", "/l/x", "/x", "/a/a/x"} {
		m = append(m, opsOn(p)...)
	}
	return append(m, linkOpsOf([]string{"/a", "/b", "/a/b", "/a/a/b", "/l/x"})...)
}()
