package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	core "github.com/dargueta/disko/zzverif/core"
)

var mountBits = []disko.MountFlags{disko.MountFlagsAllowRead, disko.MountFlagsAllowWrite, disko.MountFlagsAllowInsert, disko.MountFlagsAllowDelete, disko.MountFlagsAllowAdminister,
	disko.MountFlagsPreserveTimestamps, disko.MountFlagsCustomStart, disko.MountFlagsCustomStart << 3}

// mounts are the combinations of flags with and without the given ones.
func mounts(with, without disko.MountFlags, few bool) []disko.MountFlags {
	var out []disko.MountFlags
	for i := 0; i < 1<<len(mountBits); i++ {
		var f disko.MountFlags
		for j, b := range mountBits {
			if i>>j&1 == 1 {
				f |= b
			}
		}
		if f&with != with || f&without != 0 || few && f > disko.MountFlagsMask {
			continue
		}
		out = append(out, f)
	}
	return out
}

// guarded explores histories on volumes mounted without permissions.
func guarded(flags []disko.MountFlags, menu []op, which ...int) func(x *core.X) {
	paths := append(append([]string{}, namePaths...), "a", "../b", ".")
	return func(x *core.X) {
		tree := which[x.Choose(len(which), "tree")]
		fl := flags[x.Choose(len(flags), "mount flags")]
		first := x.Choose(len(menu), "first operation")
		x.Begin()
		s := newSys(x, trees[tree].make(), 3, fl)
		x.Logf("tree %q mounted with flags %#x", trees[tree].name, int(fl))
		o := menu[first]
		x.Step(nil, nil)
		for {
			s.do(o)
			s.checkHandles(0)
			x.Step(nil, func() { s.verify(paths) })
			o = menu[x.Choose(len(menu), "")]
		}
	}
}

// guardedFile: nothing done with an open file changes a read-only volume.
func guardedFile(flags []disko.MountFlags) func(x *core.X) {
	return func(x *core.X) {
		mf := flags[x.Choose(len(flags), "mount flags")]
		fl := core.Pick(x, "open flags", allFlags...)
		name := core.Pick(x, "name", "/f", "/s", "/n", "/d", "/dangling")
		x.Begin()
		root := fileTree(5)
		root.add("dangling", linkNode("d/new"))
		s := newSys(x, root, 2, mf)
		n, _, want := s.r.clone().openFile(name, fl, 0o640)
		_, _, missing := s.r.lookup(name, true)
		x.T()
		f, err := s.d.OpenFile(name, fl, 0o640)
		x.Logf("OpenFile(%q, %#x): %v", name, int(fl), err)
		switch {
		case needsWriting(fl), missing != nil && want.ok:
			x.Assert(err != nil, "OpenFile(%q, %#x) of a read-only volume succeeded", name, int(fl))
			if want.ok {
				x.Assert(isReadOnly(err), "OpenFile(%q, %#x) of a read-only volume reported %v", name, int(fl), err)
			}
		default:
			x.Assert((err == nil) == want.ok, "OpenFile(%q, %#x) of a read-only volume: %v", name, int(fl), err)
		}
		if err == nil {
			x.Step(nil, nil)
			guardedUse(x, s, &f, n)
		}
		x.Assert(len(s.fs.changes) == 0, "the driver requested %s", strings.Join(s.fs.changes, ", "))
		s.verify([]string{"/", "/f", "/h", "/s", "/d", "/d/f", "/n", "/dangling", "/d/new", "/g"})
		s.checkHandles(0)
	}
}

func isReadOnly(err error) bool {
	return errors.Is(err, disko.ErrReadOnlyFileSystem)
}

func guardedUse(x *core.X, s *sys, f *driver.File, n *node) {
	uses := []struct {
		name   string
		change bool
		f      func() error
	}{
		{"Write", true, func() error { _, err := f.Write([]byte("xyz")); return err }},
		{"WriteAt", true, func() error { _, err := f.WriteAt([]byte("xyz"), 4); return err }},
		{"WriteString", true, func() error { _, err := f.WriteString("xyz"); return err }},
		{"ReadFrom", true, func() error { _, err := f.ReadFrom(strings.NewReader("xyz")); return err }},
		{"Truncate(0)", true, func() error { return f.Truncate(0) }},
		{"Truncate(9)", true, func() error { return f.Truncate(9) }},
		{"Chmod", true, func() error { return f.Chmod(0o600) }},
		{"Chown", true, func() error { return f.Chown(1, 1) }},
		{"Seek", false, func() error { _, err := f.Seek(7, io.SeekStart); return err }},
		{"Sync", false, func() error { return f.Sync() }},
		{"Stat", false, func() error { _, err := f.Stat(); return err }},
	}
	for i := 0; i < 2; i++ {
		u := uses[x.Choose(len(uses), "use")]
		err := u.f()
		x.Logf("%s: %v", u.name, err)
		if u.change && !(n.dir() && u.name != "Chmod" && u.name != "Chown") {
			x.Assert(err != nil, "%s on a read-only volume succeeded", u.name)
		}
	}
	if !n.dir() {
		f.Seek(0, io.SeekStart)
		b, err := io.ReadAll(f)
		x.Assert(err == nil && string(b) == string(n.data), "read %q, %v, want %q", b, err, n.data)
	}
	x.Assert(f.Close() == nil, "Close failed")
}

func allTrees() []int {
	var out []int
	for i := range trees {
		out = append(out, i)
	}
	return out
}

func readOnlyParts(t bool) []*core.Part {
	ro := mounts(0, disko.MountFlagsAllowWrite, !t)
	nodel := mounts(disko.MountFlagsAllowWrite, disko.MountFlagsAllowDelete, true)
	few := []disko.MountFlags{0, disko.MountFlagsAllowRead, disko.MountFlagsAllowAll &^ disko.MountFlagsAllowWrite}
	fewDel := []disko.MountFlags{disko.MountFlagsAllowReadWrite, disko.MountFlagsAllowAll &^ disko.MountFlagsAllowDelete}
	return append([]*core.Part{
		{Name: "read-only", Mode: core.DFS, Depth: 1, Bounds: fmt.Sprintf("%d combinations of mount flags without write permission, %d trees, %d operations; no change is requested, the refusal is a read-only error, everything can be read", len(ro), len(trees), len(bigMenu)), Body: guarded(ro, bigMenu, allTrees()...)},
		{Name: "read-only-histories", Mode: core.DFS, Depth: 2, Bounds: "histories of two operations", Body: guarded(few[pick(t, 1, 0):pick(t, 2, 3)], bigMenu, pickTrees(t)...)},
		{Name: "no-delete", Mode: core.DFS, Depth: 1, Bounds: fmt.Sprintf("%d combinations of mount flags with write permission but without delete permission: nothing is ever unlinked, everything else works", len(nodel)), Body: guarded(nodel, bigMenu, allTrees()...)},
		{Name: "no-delete-histories", Mode: core.DFS, Depth: pick(t, 2, 3), Bounds: "histories", Body: guarded(fewDel, smallMenu, allTrees()...)},
		{Name: "files", Mode: core.DFS, Bounds: "read-only volumes: all 96 combinations of open flags on files, directories, links, missing files; then any two uses of the file", Body: guardedFile(append(append([]disko.MountFlags{}, few...), ro[len(ro)-1]))},
	}, readOnlyCycles(t)...)
}

func pickTrees(t bool) []int {
	if t {
		return allTrees()
	}
	return []int{1, 3}
}

// ---- removal ----

// kinds of objects inside the directory to remove
var inside = []string{"none", "file", "empty directory", "link to a file outside", "link to a directory outside", "link to the parent", "link to itself", "dangling link", "hard link to a file outside", "link to the root", "nested directory", "named pipe", "device"}

func addInside(root, dir *node, name string, kind int) {
	switch kind {
	case 1:
		dir.add(name, fileNode("inside"))
	case 2:
		dir.add(name, dirNode(0o755))
	case 3:
		dir.add(name, linkNode("/out"))
	case 4:
		dir.add(name, linkNode("/o"))
	case 5:
		dir.add(name, linkNode(".."))
	case 6:
		dir.add(name, linkNode("."))
	case 7:
		dir.add(name, linkNode("nowhere"))
	case 8:
		dir.add(name, root.kids["out"])
	case 9:
		dir.add(name, linkNode("/"))
	case 11, 12:
		k := fileNode("")
		k.mode = specialTypes[kind-11] | 0o600
		dir.add(name, k)
	case 10:
		k := dirNode(0o700)
		k.add("f", fileNode("deep"))
		k.add("l", linkNode("/o/sub"))
		dir.add(name, k)
	}
}

// removeTree makes the volume; removal is to hit /v only.
func removeTree(a, b, s1, s2 int) *node {
	root := dirNode(0o755)
	o, sub, vv, v := dirNode(0o755), dirNode(0o755), dirNode(0o755), dirNode(0o755)
	root.add("vv", vv)
	vv.add("f", fileNode("1"))
	root.add("out", fileNode("outside"))
	root.add("v", v)
	root.add("o", o)
	o.add("f", fileNode("2"))
	o.add("sub", sub)
	sub.add("v", fileNode("3"))
	root.add("lv", linkNode("v"))
	root.add("r", linkNode("."))
	addInside(root, v, "1", a)
	if s1+s2 > 0 {
		s := dirNode(0o755)
		v.add("s", s)
		addInside(root, s, "1", s1)
		addInside(root, s, "v", s2)
	}
	addInside(root, v, "vv", b)
	return root
}

var outsidePaths = []string{"/", "/v", "/vv", "/vv/f", "/out", "/o", "/o/f", "/o/sub/v", "/lv", "/r", "/v/1", "/v/s", "/v/s/v"}

// removal of one directory.
func removeSubtrees(x *core.X) {
	a := x.Choose(len(inside), "v/1")
	b := x.Choose(len(inside), "v/vv")
	x.Begin()
	s1 := x.Choose(len(inside), "v/s/1")
	s2 := x.Choose(len(inside), "v/s/v")
	dots := x.Choose(4, "dots")
	s := newSys(x, removeTree(a, b, s1, s2), 4, disko.MountFlagsAllowAll)
	s.fs.dots = dots
	s.fs.strict = true
	x.Logf("/v contains 1 (%s), vv (%s), s/1 (%s), s/v (%s)", inside[a], inside[b], inside[s1], inside[s2])
	x.Step(nil, nil)
	s.do(op{k: oRemoveAll, path: "/v"})
	x.End(func() { s.verify(outsidePaths); s.checkHandles(0) })
}

var spellings = []string{"/v", "v", "/v/", "./v/.", "/o/../v", "../v", "/lv", "/lv/", "/lv/s", "/r/v", "/r/r/v/s", "s", "..", ".", "", "/", "//", "/..", "/r", "/r/", "../..", "/v/..", "/v/s", "/v/1", "/v/1/", "/v/s/1", "/missing", "/missing/x", "/out", "/out/x", "/o", "/vv", "/lv/..", "/v/s/..", "/v/s/v"}

// removeSpelled: the directory, or another object, is named in other ways.
func removeSpelled(kinds []int) func(x *core.X) {
	return func(x *core.X) {
		a := core.Pick(x, "v/1", kinds...)
		s1 := core.Pick(x, "v/s/1", kinds...)
		s2 := core.Pick(x, "v/s/v", kinds...)
		x.Begin()
		cwd := core.Pick(x, "working directory", "/", "/v", "/v/s", "/o", "/lv")
		p := core.Pick(x, "path", spellings...)
		s := newSys(x, removeTree(a, 0, s1, s2), 4, disko.MountFlagsAllowAll)
		s.fs.strict = true
		x.Logf("/v contains 1 (%s), s/1 (%s), s/v (%s)", inside[a], inside[s1], inside[s2])
		x.Step(nil, nil)
		s.do(op{k: oChdir, path: cwd})
		s.do(op{k: oRemoveAll, path: p})
		x.End(func() { s.verify(outsidePaths); s.checkHandles(0) })
	}
}

// removeFaults: a request fails somewhere; then the removal is repeated.
func removeFaults(kinds []int) func(x *core.X) {
	return func(x *core.X) {
		a := core.Pick(x, "v/1", kinds...)
		b := core.Pick(x, "v/vv", kinds...)
		s1 := core.Pick(x, "v/s/1", kinds...)
		s2 := core.Pick(x, "v/s/v", kinds...)
		x.Begin()
		dots := core.Pick(x, "dots", 0, 3)
		s := newSys(x, removeTree(a, b, s1, s2), 4, disko.MountFlagsAllowAll)
		s.fs.dots = dots
		s.fs.strict = true
		s.fs.faulty = true
		s.fs.kinds = len(faultKinds)
		x.Logf("/v contains 1 (%s), vv (%s), s/1 (%s), s/v (%s)", inside[a], inside[b], inside[s1], inside[s2])
		x.Step(nil, nil)
		s.do(op{k: oRemoveAll, path: "/v"})
		x.OutcomeS(s.fs.failed)
		if f := s.fs.failed; f != "" && f != "Close" {
			x.Assert(s.last != nil, "RemoveAll succeeded although %s failed", f)
			x.Assert(s.fs.after == 0, "after %s failed, RemoveAll went on", f)
		}
		s.checkHandles(0)
		if d := s.fs.compare(s.r, nil); d != "" {
			x.Fail("the volume differs: %s", d)
		}
		if s.r.root.kids["v"] != nil {
			s.do(op{k: oRemoveAll, path: "/v"})
		}
		x.End(func() { s.verify(outsidePaths); s.checkHandles(0) })
	}
}

// removeLarge: deep and wide directories.
func removeLarge(x *core.X) {
	depth := 1 + x.Choose(43, "depth")
	width := x.Choose(21, "width")
	if depth > 40 {
		depth = []int{65, 129, 300}[depth-41]
		if width > 1 {
			x.Abandon()
		}
	}
	if width > 11 {
		width = []int{16, 64, 100, 130, 300, 513, 1025, 2049, 4100}[width-12]
		if depth > 2 || width > 300 && depth > 1 {
			x.Abandon()
		}
	}
	dots := x.Choose(4, "dots")
	x.Begin()
	root := removeTree(4, 3, 0, 0)
	cur := root.kids["v"]
	for i := 0; i < depth; i++ {
		for j := 0; j < width; j++ {
			addInside(root, cur, fmt.Sprintf("%d", 1000-j), []int{1, 4, 2, 8, 5, 10}[(i+j)%6])
		}
		k := dirNode(0o755)
		cur.add("d", k)
		cur = k
	}
	s := newSys(x, root, 4, disko.MountFlagsAllowAll)
	s.fs.dots = dots
	s.fs.strict = true
	x.Step(nil, nil)
	s.do(op{k: oRemoveAll, path: "/v"})
	x.End(func() { s.verify(outsidePaths); s.checkHandles(0) })
}

// removeHistory: removals follow each other and other changes.
var removeMenu = func() []op {
	var m []op
	for _, p := range []string{"/v", "/v/s", "/o", "/o/sub", "vv", "/lv/s", "/r/o", "/", "/lv"} {
		m = append(m, op{k: oRemoveAll, path: p})
	}
	for _, p := range []string{"/v/1", "/lv", "/out", "/o/f"} {
		m = append(m, op{k: oRemove, path: p})
	}
	return append(m, op{k: oMkdirAll, path: "/v/s/x", perm: 0o755}, op{k: oWriteFile, path: "/v/s/new", perm: 0o644, data: "new"}, op{k: oLink, path: "/out", to: "/v/k"}, op{k: oLink, path: "/v/1", to: "/o/k"}, op{k: oChdir, path: "/v/s"}, op{k: oChdir, path: "/"})
}()

func removeHistory(kinds []int) func(x *core.X) {
	return func(x *core.X) {
		a := core.Pick(x, "v/1", kinds...)
		s1 := core.Pick(x, "v/s/1", kinds...)
		x.Config()
		first := x.Choose(len(removeMenu), "first operation")
		x.Begin()
		s := newSys(x, removeTree(a, 10, s1, 1), 4, disko.MountFlagsAllowAll)
		s.fs.strict = true
		x.Step(s.state, nil)
		o := removeMenu[first]
		for {
			s.do(o)
			s.checkHandles(0)
			x.Step(s.state, func() { s.verify(outsidePaths) })
			o = removeMenu[x.Choose(len(removeMenu), "")]
		}
	}
}

func removeParts(t bool) []*core.Part {
	few, more := []int{0, 1, 4, 8, 10}, []int{0, 1, 2, 3, 4, 5, 8, 10}
	if t {
		few = more
	}
	return []*core.Part{
		{Name: "subtrees", Mode: core.DFS, Bounds: "every directory with up to 2 entries and a subdirectory with up to 2, each of 12 kinds (files, directories, pipes, devices, links to files and directories outside, to the parent, to itself, nowhere, hard links); 4 kinds of dot entries", Body: removeSubtrees},
		{Name: "spellings", Mode: core.DFS, Bounds: fmt.Sprintf("%d paths (relative, through links, of the root, of files, links, missing objects) in 5 working directories", len(spellings)), Body: removeSpelled(few)},
		{Name: "faults", Mode: core.DFS, Budget: pick(t, 1, 2), Bounds: "every request to the implementation failing once (thorough: two): the error is reported, nothing else is removed, nothing outside is touched, repeating the removal works", Body: removeFaults([]int{0, 1, 4, 10, 2, 8}[:pick(t, 4, 6)])},
		{Name: "large", Mode: core.DFS, Bounds: "1-40 levels, 0-11 entries each; 65, 129, 300 levels of 0-1 entries; 16-300 entries in 1-2 levels; 513-4100 entries", Body: removeLarge},
		{Name: "histories", Mode: core.BFS, Depth: pick(t, 5, 6), Bounds: fmt.Sprintf("%d removals and other operations following each other, all reachable states", len(removeMenu)), Body: removeHistory(few)},
		oddPart(oddRemovals, "of an object of 10 kinds in the removed directory, below, beside it, and of the directory itself"),
		removeCycles(t),
	}
}

// ---- the contract with implementations ----

func strictly(x *core.X, s *sys) {
	s.fs.strict = true
	s.contract = true
}

func strictlyWithFaults(x *core.X, s *sys) {
	strictly(x, s)
	s.fs.faulty, s.fs.kinds = true, 3
}

// contractMenu adds strange paths and modes, and reading.
var contractMenu = func() []op {
	m := append([]op{}, bigMenu...)
	for _, p := range append(append([]string{}, namePaths...), "a", "..", "/a/", "/../..", "/b/../l/.", "\x00", "/a/x/y") {
		m = append(m, op{k: oRead, path: p})
	}
	for _, p := range []string{"/..", "/a/.", "", "/l/", "/a//b/", "\\", "/a/\x00", strings.Repeat("/a", 20)} {
		m = append(m, opsOn(p)...)
	}
	for _, mode := range []os.FileMode{os.ModeSymlink | 0o777, os.ModeDevice, os.ModeNamedPipe | 0o1, ^os.FileMode(0)} {
		for _, k := range []kindOf{oMkdir, oMkdirAll, oOpen, oWriteFile, oChmod, oFileAttr} {
			for _, p := range []string{"/a", "/n"} {
				m = append(m, op{k: k, path: p, perm: mode, flags: rw | creat, data: "x"})
			}
		}
	}
	return m
}()

// blindMenu lists what can be done with files, sensible or not.
func (e *files) blindMenu() []fop {
	var m []fop
	names := []string{"/f", "/s", "n", "/d"}
	for i, s := range e.slots {
		if s == nil || s.closed {
			for _, name := range names {
				for _, fl := range []disko.IOFlags{rd, rw | creat, wr | trunc, rw | syn | creat} {
					m = append(m, fop{k: fOpen, slot: i, name: name, flags: fl})
				}
			}
		}
		if s == nil {
			continue
		}
		m = append(m, fop{k: fSync, slot: i}, fop{k: fClose, slot: i}, fop{k: fAbuse, slot: i, n: 1},
			fop{k: fWrite, slot: i, n: 3}, fop{k: fRead, slot: i, n: 3}, fop{k: fSeek, slot: i, off: 4}, fop{k: fTruncate, slot: i, n: 1}, fop{k: fTruncate, slot: i, n: 5},
			fop{k: fWriteAt, slot: i, n: 1, off: 5}, fop{k: fReadFrom, slot: i, n: 3}, fop{k: fWriteTo, slot: i})
	}
	return append(m, fop{k: pWriteFile, name: "/h", n: 5}, fop{k: pTruncate, name: "/f"}, fop{k: pRead, name: "/s"}, fop{k: pRemove, name: "/f"}, fop{k: pRemove, name: "/d"}, fop{k: pRemove, name: "n"})
}

func blindHistory(bsizes []int, limit int, faults bool) func(x *core.X) {
	return func(x *core.X) {
		bs := core.Pick(x, "block size", bsizes...)
		size := core.Pick(x, "size", 0, 1, bs, 2*bs+1)
		e := newFiles(x, size, bs, false)
		v := e.vols[0]
		v.contract, v.fs.strict, v.fs.faulty = true, true, faults
		if limit > 0 {
			v.fs.limit = limit
		}
		x.Config()
		m := e.blindMenu()
		first := x.Choose(len(m), "first operation")
		x.Begin()
		x.Step(e.state, e.final)
		o := m[first]
		for {
			e.do(o)
			x.Step(e.state, e.final)
			m := e.blindMenu()
			o = m[x.Choose(len(m), "")]
		}
	}
}

func contractParts(t bool) []*core.Part {
	return append([]*core.Part{
		{Name: "names", Mode: core.BFS, Depth: pick(t, 2, 3), Bounds: fmt.Sprintf("%d initial trees, %d operations (also on strange paths, with strange modes), every reachable state; each request to the implementation checked, handles counted after each operation", len(trees), len(contractMenu)), Body: nameHistory(contractMenu, []int{4}, strictly)},
		{Name: "names-deep", Mode: core.BFS, Depth: pick(t, 5, 6), Bounds: "the same with fewer operations to a larger depth", Body: nameHistory(smallMenu, []int{4}, strictly)},
		{Name: "names-faults", Mode: core.DFS, Depth: 1, Budget: pick(t, 1, 2), Bounds: "the same, every request failing once (thorough: two)", Body: nameHistory(contractMenu, []int{4}, strictlyWithFaults)},
		{Name: "removal", Mode: core.DFS, Bounds: "recursive removal of every small directory: only empty directories are unlinked, handles are closed", Body: removeSubtrees},
		{Name: "files", Mode: core.BFS, Depth: pick(t, 4, 5), Bounds: "histories of two files open at the same time, perhaps on the same object, closed twice, used after closing or removing; blocks of 1-3 bytes", Body: blindHistory([]int{1, 2, 3}, 0, false)},
		{Name: "files-faults", Mode: core.BFS, Depth: 3, Budget: pick(t, 1, 2), Bounds: "the same with every request failing once (thorough: two)", Body: blindHistory([]int{2, 3}[:pick(t, 1, 2)], 0, true)},
		{Name: "files-full", Mode: core.BFS, Depth: pick(t, 4, 5), Bounds: "the same with files that cannot grow beyond 1 or 2 blocks", Body: blindHistory([]int{2, 3}, 1, false)},
		{Name: "files-large", Mode: core.DFS, Depth: pick(t, 2, 3), Bounds: "blocks of 512 bytes", Body: blindHistory([]int{512}, 0, false)},
		{Name: "values", Mode: core.DFS, Bounds: "operations with all 4096 permissions (each with 8 sets of other mode bits), 14x14 owners, 39x39 times", Body: values(strictly)},
		{Name: "deep-tree", Mode: core.DFS, Bounds: "15 operations in directories up to 300 deep", Body: deepTree(strictly)},
		{Name: "wide-tree", Mode: core.DFS, Bounds: "14 operations in directories with up to 1025 entries", Body: wideTree(strictly)},
	}, contractCycles(t)...)
}
