package main

import (
	"fmt"
	"strings"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	core "github.com/dargueta/disko/zzverif/core"
)

// weird names, all legal.
var weird = []string{"a", "b", ".a", "a.", "..a", "a..", "...", " ", "\\", "a\\..", "\xff\x00", "é", strings.Repeat("x", 300)}

// mkTree makes a directory and, below it, others.
func chain(names []string) *node {
	root := dirNode(0o755)
	cur := root
	for _, n := range names {
		k := dirNode(0o755)
		cur.add(n, k)
		cur = k
	}
	return root
}

// inDirectory makes a driver whose working directory is the given one.
func inDirectory(x *core.X, comps []string) (*driver.BaseDriver, string) {
	fs := newMemfs(x, 1)
	fs.store(&ref{root: chain(comps)})
	d := fs.driver(disko.MountFlagsAllowAll)
	cwd := "/" + strings.Join(comps, "/")
	if len(comps) > 0 {
		err := d.Chdir(cwd)
		x.Assert(err == nil, "Chdir(%q): %v", cwd, err)
	}
	return d, cwd
}

func checkNormalize(x *core.X, d *driver.BaseDriver, cwd, path string) {
	x.T()
	want := normalize(cwd, path)
	got := d.NormalizePath(path)
	x.Outcome(core.NewH().S(got).Sum())
	x.Assert(got == want, "in %q, NormalizePath(%q) is %q, want %q", cwd, path, got, want)
	again := d.NormalizePath(got)
	x.Assert(again == got, "in %q, NormalizePath(%q) is %q", cwd, got, again)
	if wd, err := d.Getwd(); err != nil || wd != cwd {
		x.Fail("NormalizePath(%q) changed the working directory from %q to %q (%v)", path, cwd, wd, err)
	}
}

func pathStrings(alphabet string) func(x *core.X) {
	return func(x *core.X) {
		comps := core.Pick(x, "working directory", nil, []string{"a"}, []string{"a", "." + "a"}, []string{"...", "\\", "a"})
		first := x.Choose(len(alphabet), "character")
		second := x.Choose(len(alphabet)+1, "character")
		x.Begin()
		d, cwd := inDirectory(x, comps)
		path := ""
		final := func() { checkNormalize(x, d, cwd, path) }
		x.Step(nil, final)
		path = alphabet[first : first+1]
		if second < len(alphabet) {
			x.Step(nil, final)
			path += alphabet[second : second+1]
			for {
				x.Step(nil, final)
				c := x.Choose(len(alphabet), "character")
				path += alphabet[c : c+1]
			}
		}
		x.Step(nil, final)
	}
}

func pathComponents(x *core.X) {
	comps := append([]string{"", ".", ".."}, weird...)
	wd := core.Pick(x, "working directory", nil, []string{"b"}, []string{"..a", " "}, weird)
	abs := x.Bool("absolute")
	slash := x.Bool("trailing slash")
	first := x.Choose(len(comps), "component")
	x.Begin()
	d, cwd := inDirectory(x, wd)
	list := []string{comps[first]}
	for {
		x.Step(nil, func() {
			p := strings.Join(list, "/")
			if abs {
				p = "/" + p
			}
			if slash {
				p += "/"
			}
			checkNormalize(x, d, cwd, p)
		})
		list = append(list, comps[x.Choose(len(comps), "component")])
	}
}

// pathHistory: the working directory is the result of a history of Chdir.
func pathHistory(x *core.X) {
	steps := []string{"a", "b", "/a", "..", ".", "", "/", "../b", "a/../b", "//b/", "./a/.", "../../..", "/..", "a//b", "f", "x", "l", "l/..", "/l/a"}
	probes := []string{"", ".", "..", "/", "x", "../x", "/x/../y", "x//y/", "../../../../z"}
	first := x.Choose(len(steps), "first")
	x.Begin()
	tree := func() *node {
		d := dirNode(0o755)
		d.add("f", fileNode("f"))
		return d
	}
	root, a, b, aa, ab := tree(), tree(), tree(), tree(), tree()
	root.add("a", a)
	root.add("b", b)
	a.add("a", aa)
	a.add("b", ab)
	root.add("l", linkNode("a"))
	b.add("l", linkNode("../a/b"))
	s := newSys(x, root, 1, disko.MountFlagsAllowAll)
	final := func() {
		cwd, err := s.d.Getwd()
		x.Assert(err == nil && cwd == s.r.cwd, "the working directory is %q, want %q", cwd, s.r.cwd)
		for _, p := range probes {
			checkNormalize(x, s.d, s.r.cwd, p)
		}
	}
	x.Step(nil, final)
	next := first
	for {
		s.do(op{k: oChdir, path: steps[next]})
		x.Step(nil, final)
		next = x.Choose(len(steps), "")
	}
}

// pathLong: long paths and many components, in deep working directories.
func pathLong(x *core.X) {
	n := core.Pick(x, "components", 40, 41, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 4100)
	up := core.Pick(x, "and as many up", 0, 1, n/2, n-1, n, n+1)
	shape := x.Choose(6, "shape")
	abs := x.Bool("absolute")
	deep := x.Bool("deep working directory")
	x.Begin()
	var wd []string
	if deep {
		for i := 0; i < min(n, 300); i++ {
			wd = append(wd, fmt.Sprintf("w%d", i))
		}
	}
	d, cwd := inDirectory(x, wd)
	var p []string
	for i := 0; i < n; i++ {
		switch shape {
		case 0:
			p = append(p, fmt.Sprintf("c%d", i))
		case 1:
			p = append(p, fmt.Sprintf("c%d", i), ".")
		case 2:
			p = append(p, "", fmt.Sprintf("c%d", i), "")
		case 3:
			p = append(p, "y", "..", fmt.Sprintf("c%d", i))
		case 4:
			p = append(p, strings.Repeat("n", i%300+1))
		default:
			p = append(p, "..", fmt.Sprintf("c%d", i), "..")
		}
	}
	for i := 0; i < up; i++ {
		p = append(p, "..")
	}
	s := strings.Join(append(p, "z"), "/")
	if abs {
		s = "/" + s
	}
	checkNormalize(x, d, cwd, s)
	checkNormalize(x, d, cwd, s+"/")
	checkNormalize(x, d, cwd, strings.Repeat("/", n)+s)
	checkNormalize(x, d, cwd, strings.Repeat("../", n)+s)
	checkNormalize(x, d, cwd, strings.Repeat("./", n)+s)
	checkNormalize(x, d, cwd, s+strings.Repeat("/..", n))
	checkNormalize(x, d, cwd, strings.Repeat("L", n)+"/"+s)
}

func pathParts(t bool) []*core.Part {
	return []*core.Part{
		{Name: "strings", Mode: core.DFS, Depth: pick(t, 9, 11), Bounds: "every string of '/', '.', 'a' and '\\' up to the depth, 4 working directories", Body: pathStrings("/.a\\")},
		{Name: "components", Mode: core.DFS, Depth: pick(t, 3, 4), Bounds: "every sequence of components out of 16 (empty, dots, names of dots, blanks, backslashes, control and non-ASCII characters, 300 characters) up to the depth, absolute or not, with trailing slash or not, 4 working directories", Body: pathComponents},
		{Name: "long", Mode: core.DFS, Bounds: "40-4100 components of 6 shapes, as many upwards in the middle or around, working directories up to 300 levels deep, names of up to 4100 bytes", Body: pathLong},
		{Name: "chdir", Mode: core.DFS, Depth: pick(t, 4, 5), Bounds: "every history of Chdir with 19 paths, 9 paths normalized after each", Body: pathHistory},
		{Name: "cycles", Mode: core.DFS, Bounds: "cycles of up to 3 Chdir out of 13, some failing, repeated 270 times", Body: pathCycles(270)},
	}
}
