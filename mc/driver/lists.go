package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"os"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	core "github.com/dargueta/disko/zzverif/core"
)

// the names are not in alphabetical order
var entryNames = []string{"m", ".z", "a", "...", "B", "b c", "Zz", "0", "l", "..x"}

// other kinds of objects an implementation may have
var specialTypes = []os.FileMode{os.ModeNamedPipe, os.ModeDevice, os.ModeDevice | os.ModeCharDevice, os.ModeSocket, os.ModeIrregular}

// listTree makes a directory /d with n entries of all kinds, and others.
func listTree(n, rotate int) *node {
	root := dirNode(0o755)
	root.add("q", fileNode("q"))
	d := dirNode(0o751)
	for i := 0; i < n; i++ {
		var k *node
		switch (i + rotate) % 7 {
		case 0:
			k = fileNode("0123456789"[:i%10])
		case 1:
			k = dirNode(0o700)
			k.add("below", fileNode("x"))
		case 2:
			k = linkNode("/q")
		case 3:
			k = fileNode("")
			k.mode = 0o123 | os.ModeSetuid
		case 5:
			k = linkNode("")
		case 6:
			k = fileNode("")
			k.mode = specialTypes[(i/7+rotate)%len(specialTypes)] | 0o600
		default:
			k = root.kids["q"] // a hard link
		}
		if k != root.kids["q"] {
			k.uid, k.gid, k.atime, k.mtime = i, i+1, t1, t2
		}
		name := entryNames[i%len(entryNames)]
		if i >= len(entryNames) {
			name += fmt.Sprint(i / len(entryNames))
		}
		d.add(name, k)
	}
	root.add("d", d)
	root.add("ld", linkNode("d"))
	root.add("c", dirNode(0o755))
	return root
}

// checkEntry compares an entry with what it should be.
func (s *sys) checkEntry(what string, dir *node, name string, e os.DirEntry) {
	x := s.x
	k := dir.kids[name]
	x.Assert(e.Name() == name, "%s: the entry is %q, want %q", what, e.Name(), name)
	x.Assert(e.IsDir() == k.dir(), "%s: entry %q is a directory: %v", what, name, e.IsDir())
	x.Assert(e.Type()&os.ModeType == k.mode&os.ModeType, "%s: entry %q has type %v, want %v", what, name, e.Type(), k.mode.Type())
	fi, err := e.Info()
	x.Assert(err == nil, "%s: Info of entry %q: %v", what, name, err)
	s.checkInfo(what, dir, name, fi)
}

func (s *sys) checkInfo(what string, dir *node, name string, fi os.FileInfo) {
	x := s.x
	k := dir.kids[name]
	x.Assert(fi.Name() == name, "%s: the entry is %q, want %q", what, fi.Name(), name)
	x.Assert(fi.IsDir() == k.dir() && fi.Mode() == k.mode, "%s: entry %q has mode %v, want %v", what, name, fi.Mode(), k.mode)
	x.Assert(k.dir() || int(fi.Size()) == len(k.data), "%s: entry %q has size %d, want %d", what, name, fi.Size(), len(k.data))
	x.Assert(fi.ModTime().Equal(k.mtime), "%s: entry %q was modified at %v, want %v", what, name, fi.ModTime(), k.mtime)
	st, ok := fi.Sys().(disko.FileStat)
	x.Assert(ok, "%s: Sys of entry %q is no FileStat", what, name)
	s.checkStat(what, k, st)
}

// lister reads a directory in pages.
type lister struct {
	s    *sys
	f    *driver.File
	dir  *node
	pos  int
	done bool
}

func newLister(s *sys, path string) *lister {
	n, _, err := s.r.lookup(path, true)
	s.x.Assert(err == nil, "harness: %v", err)
	f, err := s.d.Open(path)
	s.x.Assert(err == nil, "Open(%q): %v", path, err)
	return &lister{s: s, f: &f, dir: n}
}

// page reads a page. After an empty page, what follows is unspecified.
func (l *lister) page(method, n int) {
	x, s := l.s.x, l.s
	what := fmt.Sprintf("%s(%d)", []string{"ReadDir", "Readdir", "Readdirnames"}[method], n)
	var count int
	var err error
	var check func(i int, name string)
	var isNil bool
	s.x.T()
	switch method {
	case 0:
		var p []os.DirEntry
		p, err = l.f.ReadDir(n)
		count, isNil = len(p), p == nil
		check = func(i int, name string) { s.checkEntry(what, l.dir, name, p[i]) }
	case 1:
		var p []os.FileInfo
		p, err = l.f.Readdir(n)
		count, isNil = len(p), p == nil
		check = func(i int, name string) { s.checkInfo(what, l.dir, name, p[i]) }
	default:
		var p []string
		p, err = l.f.Readdirnames(n)
		count, isNil = len(p), p == nil
		check = func(i int, name string) {
			x.Assert(p[i] == name, "%s: the entry is %q, want %q", what, p[i], name)
		}
	}
	x.Logf("%s at %d of %d: %d entries, %v", what, l.pos, len(l.dir.names), count, err)
	_ = isNil
	if s.fs.failed != "" {
		if err != nil && err != io.EOF {
			// Nothing of the page is lost: it is read again.
			x.Assert(count == 0 || n <= 0, "the failed %s returned %d entries", what, count)
			return
		}
		x.Assert(s.fs.failed == "Close", "%s succeeded although %s failed", what, s.fs.failed)
	}
	left := len(l.dir.names) - l.pos
	want := left
	if n > 0 {
		want = min(n, left)
	}
	x.Assert(n <= 0 || count <= n, "%s returned %d entries", what, count)
	x.Assert(count == want, "%s with %d entries left returned %d entries, %v", what, left, count, err)
	if n > 0 && left == 0 {
		x.Assert(err == io.EOF, "%s at the end returned %v", what, err)
	} else {
		x.Assert(err == nil, "%s with %d entries left: %v", what, left, err)
	}
	for i := 0; i < count; i++ {
		check(i, l.dir.names[l.pos+i])
	}
	l.pos += count
	l.done = left == 0
}

var pageSizes = []int{1, 2, 3, 0, -1, math.MaxInt}

func pages(maxEntries int, methods int) func(x *core.X) {
	return func(x *core.X) {
		n := x.Choose(maxEntries+1, "entries")
		rotate := x.Choose(2, "kinds")
		dots := x.Choose(4, "dots")
		path := core.Pick(x, "path", "/d", "ld")
		first := x.Choose(methods*len(pageSizes), "first page")
		x.Begin()
		s := newSys(x, listTree(n, 5*rotate), 2, disko.MountFlagsAllowAll)
		s.fs.dots = dots
		s.fs.strict = true
		l := newLister(s, path)
		final := func() {
			x.Assert(l.f.Close() == nil, "Close failed")
			s.checkHandles(0)
		}
		c := first
		x.Step(nil, nil)
		for {
			l.page(c%methods, pageSizes[c/methods])
			x.Step(nil, final)
			if l.done {
				return
			}
			c = x.Choose(methods*len(pageSizes), "page")
		}
	}
}

// whole: listings at once, of all kinds of directories, by all kinds of paths.
func whole(maxEntries int) func(x *core.X) {
	return func(x *core.X) {
		n := x.Choose(maxEntries+1, "entries")
		rotate := x.Choose(7, "kinds")
		dots := x.Choose(4, "dots")
		x.Begin()
		s := newSys(x, listTree(n, rotate), 3, disko.MountFlagsAllowAll)
		s.fs.dots = dots
		s.fs.strict = true
		for _, p := range []string{"/d", "ld", "d/", "/d/../ld", "/", "c", "."} {
			dir, _, _ := s.r.lookup(p, true)
			entries, err := s.d.ReadDir(p)
			x.T()
			x.Assert(err == nil && len(entries) == len(dir.names), "ReadDir(%q) gave %d entries, %v, want %d", p, len(entries), err, len(dir.names))
			for i, e := range entries {
				s.checkEntry("ReadDir("+p+")", dir, dir.names[i], e)
				s.checkStat("ReadDir("+p+")", dir.kids[dir.names[i]], e.Stat())
			}
			l := newLister(s, p)
			l.page(0, -1)
			x.Assert(l.f.Close() == nil, "Close failed")
		}
		for _, p := range []string{"q", "/ld/../q", "/d/m/x", "/missing", "/q/x"} {
			_, err := s.d.ReadDir(p)
			_, _, want := s.r.lookup(p, true)
			x.Assert(err != nil, "ReadDir(%q) succeeded", p)
			x.Assert(want != nil || errors.Is(err, disko.ErrNotADirectory), "ReadDir(%q) of a file reported %v", p, err)
		}
		f, err := s.d.Open("q")
		x.Assert(err == nil, "Open(q): %v", err)
		for _, n := range pageSizes {
			a, e1 := f.ReadDir(n)
			b, e2 := f.Readdir(n)
			c, e3 := f.Readdirnames(n)
			x.T()
			for _, e := range []error{e1, e2, e3} {
				x.Assert(errors.Is(e, disko.ErrNotADirectory), "listing a file in pages of %d reported %v", n, e)
			}
			x.Assert(len(a)+len(b)+len(c) == 0, "listing a file gave entries")
		}
		f.Close()
		s.checkHandles(0)
		s.verify([]string{"/", "/d", "/q"})
	}
}

// manyPages: large directories in pages of one size.
func manyPages(x *core.X) {
	n := core.Pick(x, "entries", 10, 31, 64, 100, 128, 257, 1000, 1025, 2049, 4097, 5000, 10001)
	size := core.Pick(x, "page", 1, 2, 7, 10, 31, 64, 99, 100, 101, 128, 257, 999, 1000, 1024, 5000, -1)
	method := x.Choose(3, "method")
	dots := x.Choose(4, "dots")
	if n > 1025 && (dots > 1 || size > 2 && size < 99) {
		x.Abandon()
	}
	x.Begin()
	s := newSys(x, listTree(n, 0), 2, disko.MountFlagsAllowAll)
	s.fs.dots = dots
	l := newLister(s, "/d")
	for i := 0; !l.done; i++ {
		x.Assert(i <= n, "the listing does not end")
		l.page(method, size)
	}
	x.Assert(l.f.Close() == nil, "Close failed")
	s.checkHandles(0)
}

// twoListings: handles on the same or different directories do not interfere,
// and neither does anything else done meanwhile.
func twoListings(x *core.X) {
	n := core.Pick(x, "entries", 3, 5)
	paths := core.Pick(x, "directories", []string{"/d", "/d"}, []string{"/d", "/ld"}, []string{"/", "/d"})
	first := x.Choose(9, "first")
	x.Begin()
	s := newSys(x, listTree(n, 1), 2, disko.MountFlagsAllowAll)
	l := []*lister{newLister(s, paths[0]), newLister(s, paths[1])}
	c := first
	x.Step(nil, nil)
	for {
		switch {
		case c < 6:
			if h := l[c%2]; !h.done {
				h.page(c/2, []int{1, 2, -1}[c/2])
			}
		case c == 6:
			e, err := s.d.ReadDir("/d")
			x.Assert(err == nil && len(e) == n, "ReadDir: %d entries, %v", len(e), err)
		case c == 7:
			s.d.Stat("/d/m")
			s.d.Chdir("/ld")
		case c == 8:
			_, err := l[0].f.Stat()
			x.Assert(err == nil, "Stat: %v", err)
			x.Assert(l[0].f.Chdir() == nil, "Chdir failed")
		}
		x.Step(nil, func() {
			for _, h := range l {
				for i := 0; !h.done; i++ {
					x.Assert(i < 20, "the listing does not end")
					h.page(0, 2)
				}
				h.f.Close()
			}
			s.checkHandles(0)
		})
		c = x.Choose(9, "")
	}
}

// listFaults: a failure while listing is reported; the listing then goes on.
func listFaults(x *core.X) {
	n := x.Choose(5, "entries")
	dots := core.Pick(x, "dots", 0, 1)
	method := x.Choose(3, "method")
	size := core.Pick(x, "page", 1, 2, -1, 100)
	x.Begin()
	s := newSys(x, listTree(n, 1), 2, disko.MountFlagsAllowAll)
	s.fs.dots = dots
	s.fs.strict = true
	s.fs.faulty = true
	s.fs.kinds = len(faultKinds)
	entries, err := s.d.ReadDir("/d")
	x.T()
	if f := s.fs.failed; f == "" || f == "Close" && err == nil {
		x.Assert(err == nil && len(entries) == n, "ReadDir: %d entries, %v", len(entries), err)
	} else {
		x.Assert(err != nil, "ReadDir succeeded although %s failed", f)
		x.OutcomeS("list", f)
	}
	s.fs.failed = ""
	s.checkHandles(0)
	f, err := s.d.Open("ld")
	if err != nil {
		x.Assert(s.fs.failed != "", "Open: %v", err)
		return
	}
	dir := s.r.root.kids["d"]
	l := &lister{s: s, f: &f, dir: dir}
	s.fs.failed = ""
	for i := 0; !l.done; i++ {
		x.Assert(i < 20, "the listing does not end")
		l.page(method, size)
		if s.fs.failed != "" {
			x.OutcomeS("page", s.fs.failed)
		}
		s.fs.failed = ""
	}
	f.Close()
	s.checkHandles(0)
}

func listParts(t bool) []*core.Part {
	return []*core.Part{
		{Name: "whole", Mode: core.DFS, Bounds: "directories with 0-12 (thorough: 0-60) files, directories, links and hard links in no alphabetical order, 4 kinds of dot entries, several paths, the root; files and missing objects are refused", Body: whole(pick(t, 12, 60))},
		{Name: "pages", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: "0-5 entries; every sequence of pages of 1, 2, 3, the largest number of, or all entries by ReadDir, Readdir and Readdirnames", Body: pages(5, 3)},
		{Name: "page-sequences", Mode: core.DFS, Depth: pick(t, 5, 7), Bounds: "0-6 entries, longer sequences of ReadDir", Body: pages(6, 1)},
		{Name: "many-pages", Mode: core.DFS, Bounds: "10-1025 entries in pages of 16 sizes, 2049-10001 in pages of 12", Body: manyPages},
		{Name: "two-listings", Mode: core.DFS, Depth: pick(t, 4, 6), Bounds: "two handles on the same or different directories, other calls in between", Body: twoListings},
		{Name: "faults", Mode: core.DFS, Budget: pick(t, 1, 3), Bounds: "every request failing once (thorough: three of them) while listing 0-4 entries", Body: listFaults},
		oddPart(oddListings, "among 0-2 others, objects of 7 kinds, 3 methods, pages of 1, 2, all"),
		{Name: "cycles", Mode: core.DFS, Bounds: "cycles of up to 3 operations (listings, other reading, adding and removing entries) repeated 270 times", Body: listCycles(270)},
	}
}
