package main

import (
	"fmt"
	"strings"

	"github.com/dargueta/disko"
	core "github.com/dargueta/disko/zzverif/core"
)

// oddNames are names that nothing is special about, although they may look so.
var oddNames = []string{
	".x", "..x", "...", "....", ".x.", "x..", "..x..", "x.", "x.y.z", ".", "", // the last two stand for ". " and " "
	"x ", " x", "a b", "\t", "\n", "x\n", "-", "-rf", "*", "?", "~", "#", "%s", "%2e%2e", "%d%v", "$x", "'", "\"", "\\", "a\\b", "..\\x", "\\..",
	"a:b", "C:", "con", "\u00e9", "e\u0301", "\u65e5\u672c", "\xff\xfe", "\x01", "\x7f", "lost+found", "V", "v", "vv", "X", "x1", "ox",
	strings.Repeat("n", 255), strings.Repeat("n", 300), strings.Repeat("\u00e9", 128),
}

func oddName(x *core.X, label string) string {
	n := core.Pick(x, label, oddNames...)
	if n == "" || n == "." {
		n += " "
	}
	return n
}

// oddRemovals: names inside a removed directory, and of the directory itself.
func oddRemovals(x *core.X) {
	name := oddName(x, "name")
	kind := 1 + x.Choose(len(inside)-1, "kind")
	where := x.Choose(4, "where")
	x.Begin()
	root := removeTree(1, 0, 4, 3)
	v := root.kids["v"]
	path := "/v"
	switch where {
	case 0:
		if v.kids[name] != nil {
			x.Abandon()
		}
		addInside(root, v, name, kind)
	case 1: // below
		s := v.kids["s"]
		if s.kids[name] != nil {
			x.Abandon()
		}
		addInside(root, s, name, kind)
	case 2: // the directory itself
		if root.kids[name] != nil {
			x.Abandon()
		}
		d := dirNode(0o755)
		root.add(name, d)
		addInside(root, d, name, kind)
		path = "/" + name
	case 3: // beside it
		if root.kids["v"+name] != nil {
			x.Abandon()
		}
		addInside(root, root, "v"+name, kind)
	}
	dots := x.Choose(4, "dots")
	s := newSys(x, root, 4, disko.MountFlagsAllowAll)
	s.fs.dots = dots
	s.fs.strict = true
	x.Logf("an object named %q (%s)", name, inside[kind])
	x.Step(nil, nil)
	s.do(op{k: oRemoveAll, path: path})
	x.End(func() { s.verify(append([]string{"/" + name, "/v" + name}, outsidePaths...)); s.checkHandles(0) })
}

// oddListings: such names in listings.
func oddListings(x *core.X) {
	name := oddName(x, "name")
	rotate := x.Choose(7, "kind")
	n := x.Choose(3, "others")
	x.Begin()
	dots := x.Choose(4, "dots")
	method := x.Choose(3, "method")
	size := core.Pick(x, "page", 1, 2, -1)
	root := listTree(n, rotate)
	d := root.kids["d"]
	if d.kids[name] != nil {
		x.Abandon()
	}
	more := listTree(1, (rotate+n)%7)
	k := more.kids["d"].kids[entryNames[0]]
	d.add(name, k)
	root.add("o"+name, linkNode("d"))
	s := newSys(x, root, 2, disko.MountFlagsAllowAll)
	s.fs.dots = dots
	s.fs.strict = true
	for _, p := range []string{"/d", "/o" + name} {
		entries, err := s.d.ReadDir(p)
		x.T()
		x.Assert(err == nil && len(entries) == n+1, "ReadDir(%q) gave %d entries, %v, want %d", p, len(entries), err, n+1)
		for i, e := range entries {
			s.checkEntry("ReadDir("+p+")", d, d.names[i], e)
		}
		l := newLister(s, p)
		for !l.done {
			l.page(method, size)
			if size < 0 {
				break
			}
		}
		x.Assert(l.f.Close() == nil, "Close failed")
	}
	s.checkHandles(0)
}

// oddOps: operations on an object with such a name, or below it.
func oddOps(x *core.X) {
	name := oddName(x, "name")
	state := x.Choose(7, "object")
	x.Begin()
	root, d := dirNode(0o755), dirNode(0o751)
	root.add("d", d)
	d.add("x0", fileNode("x"))
	switch state {
	case 0:
	case 1:
		d.add(name, fileNode("odd"))
	case 2:
		d.add(name, dirNode(0o711))
	case 3:
		k := dirNode(0o755)
		k.add(name, fileNode("below"))
		d.add(name, k)
	case 4:
		d.add(name, linkNode("x0"))
	case 5:
		d.add(name, linkNode(name))
	case 6: // the directory has the name, too, and links to such names
		root.add(name, linkNode("d"))
		d.add(name, linkNode("../"+name+"/x0"))
	}
	p := core.Pick(x, "path", "/d/"+name, name, "/d/"+name+"/"+name, "/"+name+"/"+name)
	menu := append(opsOn(p), op{k: oLink, path: "/d/x0", to: p}, op{k: oLink, path: p, to: "/d/" + name + "2"}, op{k: oMkdirAll, path: p + "/" + name, perm: 0o705})
	o := menu[x.Choose(len(menu), "operation")]
	s := newSys(x, root, 4, disko.MountFlagsAllowAll)
	s.fs.strict = true
	x.Step(nil, nil)
	if p == name {
		s.do(op{k: oChdir, path: "/d"})
	}
	s.do(o)
	s.checkHandles(0)
	x.End(func() {
		s.verify([]string{"/", "/d", "/d/" + name, "/d/" + name + "/" + name, "/" + name, "/" + name + "/" + name, name, "x0", "./" + name, name + "/..", "/d/" + name + "2"})
	})
}

// oddLinks: links with such names, or to such names.
func oddLinks(x *core.X) {
	name := oddName(x, "name")
	text := x.Choose(10, "target")
	x.Begin()
	root, d, e := fixture()
	if d.kids[name] != nil || root.kids[name] != nil || e.kids[name] != nil {
		x.Abandon()
	}
	switch x.Choose(3, "object") {
	case 0:
		d.add(name, fileNode("odd"))
	case 1:
		k := dirNode(0o700)
		k.add("f", fileNode("odd"))
		d.add(name, k)
	case 2:
		d.add(name, linkNode("e"))
	}
	t := []string{name, "./" + name, name + "/f", name + "/..", "../d/" + name, "/d/" + name, "/" + name, name + "/", "/d/" + name + "/../" + name, "//d//" + name}[text]
	at := core.Pick(x, "place", "/d/l", "/d/l"+name, "/"+name)
	where, base := root, name
	if strings.HasPrefix(at, "/d/") && at != "/"+name {
		where, base = d, at[3:]
	}
	where.add(base, linkNode(t))
	s := newSys(x, root, 4, disko.MountFlagsAllowAll)
	x.Logf("%q is a link to %q", at, t)
	s.linkReads([]string{at, at + "/f", at + "/..", "/d/" + name, "/d/" + name + "/f", "/" + name, at + "/../" + base})
	s.do(op{k: oChdir, path: "/d"})
	s.linkReads([]string{base, base + "/f", name, name + "/f", "./" + base + "/.."})
}

func oddPart(body func(x *core.X), more string) *core.Part {
	return &core.Part{Name: "odd names", Mode: core.DFS, Bounds: fmt.Sprintf("%d unusual names (leading, trailing, many periods, blanks, control and non-ASCII characters, backslashes, up to 300 bytes), %s", len(oddNames), more), Body: body}
}
