package main

import (
	"fmt"
	"io"
	"os"

	"github.com/dargueta/disko"
	core "github.com/dargueta/disko/zzverif/core"
)

// trees are the initial volumes.
var trees = []struct {
	name string
	make func() *node
}{
	{"empty", func() *node { return dirNode(0o755) }},
	{"nested", func() *node {
		root, a, aa := dirNode(0o755), dirNode(0o751), dirNode(0o711)
		root.add("a", a)
		a.add("b", fileNode("file /a/b"))
		a.add("a", aa)
		aa.add("b", fileNode(""))
		root.add("b", fileNode("file /b"))
		root.add("l", linkNode("a"))
		return root
	}},
	{"links", func() *node {
		root, a := dirNode(0o755), dirNode(0o700)
		root.add("l", linkNode("/b"))
		root.add("a", a)
		a.add("b", linkNode("../l"))
		a.add("a", linkNode(".."))
		return root
	}},
	{"hard links", func() *node {
		root, a, f := dirNode(0o755), dirNode(0o777), fileNode("shared")
		f.mode, f.uid, f.gid, f.atime, f.mtime = 0o640|os.ModeSetuid, 3, 4, t2, t1
		root.add("b", f)
		root.add("a", a)
		a.add("b", f)
		a.add("a", dirNode(0o755))
		root.add("l", linkNode("a/b"))
		return root
	}},
	{"deep", func() *node {
		root := chain([]string{"a", "a", "b"})
		root.kids["a"].add("b", chain([]string{"a"}))
		root.add("b", linkNode("a/b"))
		root.add("l", linkNode("b/../l"))
		return root
	}},
	{"hidden", func() *node {
		root, a, b, l := dirNode(0o755), dirNode(0o755|os.ModeSticky), dirNode(0o711|os.ModeSetgid), dirNode(0o700)
		root.add("..b", fileNode("hidden"))
		root.add("a", a)
		a.add(".b", fileNode(""))
		root.add("b", b)
		b.add("...", dirNode(0o755))
		root.add("l", l)
		l.add("..a", linkNode("../..b"))
		return root
	}},
}

var namePaths = []string{"/", "/a", "/b", "/a/a", "/a/b", "/a/b/a", "/l", "/l/a", "/a/a/b", "/..b", "/l/..a"}

// opsOn are the operations on a path.
func opsOn(p string) []op {
	return []op{
		{k: oMkdir, path: p, perm: 0o755},
		{k: oMkdir, path: p, perm: 0o707 | os.ModeSticky | os.ModeSetgid},
		{k: oMkdirAll, path: p, perm: 0o711 | os.ModeSetuid},
		{k: oCreate, path: p},
		{k: oOpen, path: p, flags: rd | creat, perm: 0o604},
		{k: oOpen, path: p, flags: rw | creat | excl, perm: 0o620 | os.ModeSticky},
		{k: oOpen, path: p, flags: wr | trunc},
		{k: oOpen, path: p, flags: rd | creat | trunc, perm: 0o600},
		{k: oOpen, path: p, flags: wr | app | creat | syn, perm: 0o600 | os.ModeDir},
		{k: oWriteFile, path: p, perm: 0o666 | os.ModeSetuid | os.ModeSetgid, data: "0123456"},
		{k: oTruncate, path: p},
		{k: oRemove, path: p},
		{k: oRemoveAll, path: p},
		{k: oChmod, path: p, perm: 0o000 | os.ModeDir | os.ModeSetuid},
		{k: oChmod, path: p, perm: 0o777 | os.ModeSymlink},
		{k: oChown, path: p},
		{k: oLchown, path: p},
		{k: oChtimes, path: p},
		{k: oChdir, path: p},
		{k: oFileChdir, path: p},
		{k: oFileAttr, path: p, perm: 0o123},
	}
}

func linkOpsOf(paths []string) []op {
	var m []op
	for _, from := range paths {
		for _, to := range paths {
			m = append(m, op{k: oLink, path: from, to: to})
		}
	}
	return m
}

// bigMenu has every operation on every path.
var bigMenu = func() []op {
	var m []op
	for _, p := range append(append([]string{}, namePaths...), "a", "../b", "", "b/../a/", "/a/.b", "/b/...") {
		m = append(m, opsOn(p)...)
	}
	m = append(m, op{k: oMkdir, path: "/a/b/", perm: 0o755 | os.ModeSymlink}, op{k: oMkdirAll, path: "/a/b/a/b", perm: 0o700})
	for i := range opTimes[1:] {
		m = append(m, op{k: oChtimes, path: "/b", times: i + 1})
	}
	for _, perm := range []os.FileMode{0, 0o050, 0o477, os.ModeSticky | 0o077, os.ModeDir | 0o300} {
		m = append(m, op{k: oMkdirAll, path: "/a/n/o/p", perm: perm})
	}
	m = append(m, op{k: oOpen, path: "/a/n", flags: rw | creat, perm: 0}, op{k: oWriteFile, path: "/a/n", perm: 0o077, data: "z"}, op{k: oMkdir, path: "/a/n", perm: 0})
	return append(m, linkOpsOf([]string{"/a", "/b", "/a/b", "/l", "a/a"})...)
}()

// smallMenu has the operations that change which objects exist.
var smallMenu = func() []op {
	var m []op
	for _, p := range []string{"/a", "/b", "/a/a", "/a/b", "/l", "b", "/l/a"} {
		m = append(m, op{k: oMkdir, path: p, perm: 0o755}, op{k: oMkdirAll, path: p + "/b", perm: 0o700}, op{k: oOpen, path: p, flags: rw | creat | excl, perm: 0o620},
			op{k: oWriteFile, path: p, perm: 0o666, data: "012"}, op{k: oRemove, path: p}, op{k: oRemoveAll, path: p})
	}
	m = append(m, op{k: oChdir, path: "/a"}, op{k: oChdir, path: ".."}, op{k: oLink, path: "/b", to: "/a/b"}, op{k: oLink, path: "/a/b", to: "/b"}, op{k: oLink, path: "/l", to: "a"},
		op{k: oChmod, path: "/b", perm: 0o600}, op{k: oLchown, path: "/l"})
	return m
}()

// nameHistory explores histories of operations on a tree.
func nameHistory(menu []op, blocks []int, prepare func(x *core.X, s *sys)) func(x *core.X) {
	paths := append(append([]string{}, namePaths...), "a", "../b", ".", "/a/.b", "/b/...")
	return func(x *core.X) {
		tree := x.Choose(len(trees), "tree")
		bs := core.Pick(x, "block size", blocks...)
		dots := 0
		if len(blocks) > 1 {
			dots = x.Choose(4, "dots")
		}
		x.Config()
		first := x.Choose(len(menu), "first operation")
		if dots != 0 && trees[tree].name == "empty" {
			x.Abandon()
		}
		x.Begin()
		s := newSys(x, trees[tree].make(), bs, disko.MountFlagsAllowAll)
		s.fs.dots = dots
		x.Logf("tree %q, blocks of %d bytes, dot entries %d", trees[tree].name, bs, dots)
		if prepare != nil {
			prepare(x, s)
		}
		final := func() {
			s.checkHandles(0)
			if !s.contract {
				s.verify(paths)
			}
			x.Outcome(s.fs.hash(core.NewH()).Sum())
		}
		x.Step(s.state, final)
		o := menu[first]
		for {
			s.do(o)
			s.checkHandles(0)
			x.Step(s.state, final)
			o = menu[x.Choose(len(menu), "")]
		}
	}
}

// readFaults: a reading operation reports what failed, or its result is right
// all the same.
func readFaults(x *core.X) {
	tree := x.Choose(len(trees), "tree")
	p := core.Pick(x, "path", append(append([]string{}, namePaths...), "a", "../b", ".", "/a/.b", "/b/...", "/l/../a")...)
	cwd := core.Pick(x, "working directory", "/", "/a", "/a/b")
	x.Begin()
	which := x.Choose(9, "operation")
	s := newSys(x, trees[tree].make(), 4, disko.MountFlagsAllowAll)
	d := s.d
	if n, phys, err := s.r.lookup(cwd, true); err == nil && n.dir() {
		x.Assert(d.Chdir(cwd) == nil, "Chdir(%q) failed", cwd)
		s.r.cwd = phys
	}
	s.fs.faulty, s.fs.strict, s.fs.kinds = true, true, len(faultKinds)
	n, _, err := s.r.lookup(p, which != 1 && which != 2)
	var what string
	var gerr error
	var check func() // the result, if there is no error
	nothing := func() { x.Fail("%s of %q succeeded", what, p) }
	check = nothing
	x.T()
	switch which {
	case 0:
		st, e := d.Stat(p)
		what, gerr = "Stat", e
		if err == nil {
			check = func() { s.checkStat(what, n, st) }
		}
	case 1:
		st, e := d.Lstat(p)
		what, gerr = "Lstat", e
		if err == nil {
			check = func() { s.checkStat(what, n, st) }
		}
	case 2:
		text, e := d.Readlink(p)
		what, gerr = "Readlink", e
		if err == nil && n.link() {
			check = func() { x.Assert(text == string(n.data), "Readlink(%q) gave %q", p, text) }
		}
	case 3:
		l, e := d.ReadDir(p)
		what, gerr = "ReadDir", e
		if err == nil && n.dir() {
			check = func() { s.checkEntries(on{what, p}, n, l) }
		}
	case 4:
		b, e := d.ReadFile(p)
		what, gerr = "ReadFile", e
		if err == nil && !n.dir() {
			check = func() { x.Assert(string(b) == string(n.data), "ReadFile(%q) gave %q", p, b) }
		} else if err == nil {
			return // unspecified
		}
	case 5, 6, 7:
		f, e := d.Open(p)
		what, gerr = "Open", e
		if e != nil {
			if err == nil {
				check = nil
			}
			break
		}
		x.Assert(err == nil, "Open(%q) succeeded", p)
		if which == 5 {
			fi, e := f.Stat()
			what, gerr = "File.Stat", e
			check = func() { x.Assert(fi.Mode() == n.mode, "File.Stat of %q gave %v", p, fi.Mode()) }
		} else if which == 6 {
			l, e := f.Readdir(-1)
			what, gerr = "File.Readdir", e
			if n.dir() {
				check = func() {
					x.Assert(len(l) == len(n.names), "Readdir(%q) gave %d entries, want %d", p, len(l), len(n.names))
				}
			}
		} else {
			b := make([]byte, 100)
			if n.dir() {
				f.Close()
				return // unspecified
			}
			var k int
			k, gerr = f.Read(b)
			what = "Read"
			if gerr == io.EOF {
				gerr = nil
			}
			check = func() { x.Assert(string(b[:k]) == string(n.data), "Read of %q gave %q", p, b[:k]) }
		}
		f.Close()
	default:
		gerr = d.Chdir(p)
		what = "Chdir"
		if err == nil && n.dir() {
			_, phys, _ := s.r.lookup(p, true)
			check = func() { s.r.cwd = phys }
		}
	}
	x.Logf("%s(%q): %v", what, p, gerr)
	if gerr == nil {
		check()
	} else if s.fs.failed == "" {
		x.Assert(err != nil || n.dir() != (which == 3 || which == 6 || which == 8) || which == 2, "%s of %q: %v", what, p, gerr)
	}
	wd, _ := d.Getwd()
	x.Assert(wd == s.r.cwd, "after %s(%q) the working directory is %q, want %q", what, p, wd, s.r.cwd)
	s.checkHandles(0)
	x.Assert(len(s.fs.changes) == 0, "%s(%q) requested %v", what, p, s.fs.changes)
	x.OutcomeS(what, s.fs.failed)
}

func withFaults(x *core.X, s *sys) { s.fs.faulty, s.fs.kinds = true, len(faultKinds) }

// poorHistory: implementations without some features.
func poorHistory(menu []op) func(x *core.X) {
	return func(x *core.X) {
		tree := x.Choose(len(trees), "tree")
		which := x.Choose(5, "missing features")
		x.Config()
		first := x.Choose(len(menu), "first operation")
		x.Begin()
		s := newSysFeat(x, trees[tree].make(), 2, disko.MountFlagsAllowAll, func(f *disko.FSFeatures) {
			switch which {
			case 0:
				f.HasHardLinks = false
			case 1:
				f.HasUnixPermissions = false
			case 2:
				f.HasAccessedTime = false
			case 3:
				f.HasModifiedTime = false
			case 4:
				f.HasCreatedTime, f.HasChangedTime = false, false
			}
		})
		s.fs.strict = true
		o := menu[first]
		x.Step(nil, nil)
		for {
			s.do(o)
			s.checkHandles(0)
			x.Step(nil, func() { s.verify(namePaths) })
			o = menu[x.Choose(len(menu), "")]
		}
	}
}

// twoDrivers: two volumes do not affect each other.
func twoDrivers(x *core.X) {
	menu := smallMenu
	tree := x.Choose(len(trees), "tree")
	x.Config()
	first := x.Choose(len(menu), "first operation")
	x.Begin()
	var s [2]*sys
	for i := range s {
		s[i] = newSys(x, trees[(tree+i)%len(trees)].make(), 2+i, disko.MountFlagsAllowAll)
	}
	o, i := menu[first], 0
	x.Step(nil, nil)
	for {
		x.Logf("volume %d", i)
		s[i].do(o)
		x.Step(nil, func() {
			for i := range s {
				x.Logf("volume %d", i)
				s[i].verify(namePaths)
				s[i].checkHandles(0)
			}
		})
		i = 1 - i
		o = menu[x.Choose(len(menu), "")]
	}
}

func nameParts(t bool) []*core.Part {
	return []*core.Part{
		{Name: "reachable", Mode: core.BFS, Depth: pick(t, 2, 3), Bounds: fmt.Sprintf("%d initial trees (empty, nested, symbolic links, hard links, deep), %d operations (every kind on 13 paths, absolute, relative, through links, the root), every reachable state; results compared, all of the tree read in every state", len(trees), len(bigMenu)), Body: nameHistory(bigMenu, []int{4}, nil)},
		{Name: "small-reachable", Mode: core.BFS, Depth: pick(t, 4, 6), Bounds: fmt.Sprintf("the same trees, %d operations that change which objects exist, every reachable state to a larger depth", len(smallMenu)), Body: nameHistory(smallMenu, []int{4}, nil)},
		{Name: "dots", Mode: core.DFS, Depth: pick(t, 1, 2), Bounds: "directories that list dot entries first, last, around or not, blocks of 1 and 512 bytes", Body: nameHistory(pickMenu(t), []int{1, 512}, nil)},
		{Name: "features", Mode: core.DFS, Depth: pick(t, 1, 2), Bounds: "implementations without hard links, attributes or some timestamps", Body: poorHistory(bigMenu)},
		{Name: "faults", Mode: core.DFS, Depth: pick(t, 1, 2), Budget: 1, Bounds: "every request to the implementation failing once: the operation reports it and changes nothing, or only what it is for", Body: nameHistory(pickMenu(!t), []int{4}, withFaults)},
		{Name: "read-faults", Mode: core.DFS, Budget: pick(t, 1, 2), Bounds: "every reading operation in every tree with every request failing once (thorough: two): the failure is reported or the result is right", Body: readFaults},
		{Name: "two-drivers", Mode: core.DFS, Depth: pick(t, 2, 3), Bounds: "two volumes used alternately", Body: twoDrivers},
		{Name: "values", Mode: core.DFS, Bounds: "Mkdir, MkdirAll, OpenFile, WriteFile, Chmod and File.Chmod with all 4096 permissions, each with 8 sets of other mode bits; Chown, Lchown and File.Chown with 14x14 owners; Chtimes with 39x39 times", Body: values(plainly)},
		{Name: "deep-tree", Mode: core.DFS, Bounds: "directories up to 300 deep (names of 26 bytes: 128, of 255 bytes: 33), reached absolutely, relatively, up and down: 15 operations", Body: deepTree(plainly)},
		{Name: "wide-tree", Mode: core.DFS, Bounds: "directories with up to 1025 entries (files, directories, names of one file): 14 operations on the first, middle, last and a missing entry", Body: wideTree(plainly)},
		oddPart(oddOps, "missing, a file, an empty or full directory, a link; 24 operations on 4 paths"),
		nameCycles(t),
	}
}

func pickMenu(small bool) []op {
	if small {
		return smallMenu
	}
	return bigMenu
}
