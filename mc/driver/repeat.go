package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/dargueta/disko"
	core "github.com/dargueta/disko/zzverif/core"
)

// cycle repeats sequences of one to three operations many times: what works
// (or is refused) once works (or is refused) for ever.
type cycle struct {
	trees   []func() *node
	flags   []disko.MountFlags
	menu    []op
	pairs   int // repetitions of pairs of operations, 0 for none
	singles int // repetitions of single operations
	prepare func(x *core.X, s *sys)
	paths   []string
}

const cycleEvery = 83

func (c cycle) body(x *core.X) {
	tree := x.Choose(len(c.trees), "tree")
	flags := c.flags[x.Choose(len(c.flags), "mount flags")]
	ops := []op{core.Pick(x, "operation", c.menu...)}
	n := c.singles
	if c.pairs > 0 {
		if o := x.Choose(len(c.menu)+1, "next operation"); o < len(c.menu) {
			ops = append(ops, c.menu[o])
			n = c.pairs
		}
	}
	x.Begin()
	s := newSys(x, c.trees[tree](), 4, flags)
	if c.prepare != nil {
		c.prepare(x, s)
	}
	check := func() {
		s.checkHandles(0)
		if !s.contract {
			faulty := s.fs.faulty
			s.verify(c.paths)
			s.fs.faulty = faulty
		}
	}
	for i := 0; i < n; i++ {
		for _, o := range ops {
			s.do(o)
		}
		if i%cycleEvery == cycleEvery-1 {
			check()
		}
	}
	check()
}

func (c cycle) part(name string) *core.Part {
	what := fmt.Sprintf("%d operations repeated %d times", len(c.menu), c.singles)
	if c.pairs > 0 {
		what += fmt.Sprintf(", pairs of them %d times", c.pairs)
	}
	return &core.Part{Name: name, Mode: core.DFS, Bounds: fmt.Sprintf("%d trees, %d combinations of mount flags: %s", len(c.trees), len(c.flags), what), Body: c.body}
}

func treesOf(which ...int) []func() *node {
	var out []func() *node
	for _, i := range which {
		out = append(out, trees[i].make)
	}
	return out
}

func nameCycles(t bool) *core.Part {
	return cycle{treesOf([]int{1, 0, 3, 4, 2, 5}[:pick(t, 2, 6)]...), []disko.MountFlags{disko.MountFlagsAllowAll}, smallMenu, 270, 600, nil, namePaths[:7]}.part("cycles")
}

func readOnlyCycles(t bool) []*core.Part {
	ro := []disko.MountFlags{disko.MountFlagsAllowRead, disko.MountFlagsAllowAll &^ disko.MountFlagsAllowWrite}
	nodel := []disko.MountFlags{disko.MountFlagsAllowAll &^ disko.MountFlagsAllowDelete}
	c := treesOf([]int{3, 1, 0}[:pick(t, 1, 3)]...)
	return []*core.Part{
		cycle{c, ro, bigMenu, 0, 600, nil, namePaths[:7]}.part("repeated"),
		cycle{c, ro[1:], smallMenu, pick(t, 270, 530), 1, nil, namePaths[:7]}.part("cycles"),
		cycle{c, nodel, bigMenu, 0, 600, nil, namePaths[:7]}.part("no-delete-repeated"),
		cycle{c, nodel, smallMenu, pick(t, 270, 530), 1, nil, namePaths[:7]}.part("no-delete-cycles"),
	}
}

func removeCycles(t bool) *core.Part {
	var c []func() *node
	for _, k := range [][2]int{{4, 10}, {8, 1}, {5, 3}}[:pick(t, 2, 3)] {
		c = append(c, func() *node { return removeTree(k[0], 10, k[1], 1) })
	}
	m := append([]op{{k: oRead, path: "/v/s"}, {k: oMkdir, path: "/v", perm: 0o755}, {k: oMkdir, path: "/v/s", perm: 0o755}, {k: oLink, path: "/o/f", to: "/v/s/k"}}, removeMenu...)
	return cycle{c, []disko.MountFlags{disko.MountFlagsAllowAll}, m, pick(t, 270, 530), 600, func(x *core.X, s *sys) { s.fs.strict = true }, outsidePaths}.part("cycles")
}

func contractCycles(t bool) []*core.Part {
	m := append([]op{}, smallMenu...)
	for _, p := range []string{"/a", "/b", "/l", "/a/b", "/n"} {
		m = append(m, op{k: oRead, path: p})
	}
	m = append(m, op{k: oChmod, path: "/a/b", perm: ^os.FileMode(0)}, op{k: oFileChdir, path: "/a"}, op{k: oFileAttr, path: "/b", perm: 0o600}, op{k: oChtimes, path: "/b"}, op{k: oTruncate, path: "/b"})
	c := treesOf([]int{3, 2, 1, 4}[:pick(t, 1, 4)]...)
	return []*core.Part{
		cycle{c, []disko.MountFlags{disko.MountFlagsAllowAll}, m, pick(t, 270, 530), 600, strictly, nil}.part("cycles"),
		cycle{treesOf(3, 4), []disko.MountFlags{disko.MountFlagsAllowAll}, contractMenu, 0, 300, strictly, nil}.part("repeated"),
	}
}

// listCycles: a directory is listed again and again, in between it changes.
func listCycles(reps int) func(x *core.X) {
	names := []string{"whole", "pages of 2", "first page", "Stat", "list another", "add", "remove", "list a file"}
	return func(x *core.X) {
		n := core.Pick(x, "entries", 0, 1, 2, 3, 5)
		dots := core.Pick(x, "dots", 0, 1)
		count := 1 + x.Choose(3, "operations in the cycle")
		var ops []int
		for i := 0; i < count; i++ {
			ops = append(ops, x.Choose(len(names), "operation"))
		}
		x.Begin()
		s := newSys(x, listTree(n, 1), 2, disko.MountFlagsAllowAll)
		s.fs.dots = dots
		s.fs.strict = true
		added := 0
		for i := 0; i < reps; i++ {
			for _, o := range ops {
				switch o {
				case 0:
					e, err := s.d.ReadDir("/d")
					dir := s.r.root.kids["d"]
					x.Assert(err == nil && len(e) == len(dir.names), "ReadDir gave %d entries, %v, want %d", len(e), err, len(dir.names))
					for i, e := range e {
						s.checkEntry("ReadDir", dir, dir.names[i], e)
					}
				case 1:
					l := newLister(s, "/ld")
					for j := 0; !l.done; j++ {
						x.Assert(j < 50, "the listing does not end")
						l.page(i%3, 2)
					}
					x.Assert(l.f.Close() == nil, "Close failed")
				case 2:
					l := newLister(s, "/d")
					l.page(i%3, 1)
					x.Assert(l.f.Close() == nil, "Close failed")
				case 3:
					s.readPath("/ld/m", map[*node]uint64{})
				case 4:
					l := newLister(s, "/")
					l.page(0, -1)
					x.Assert(l.f.Close() == nil, "Close failed")
				case 5:
					if added < 6 {
						added++
						s.do(op{k: oWriteFile, path: fmt.Sprintf("/d/new%d", added), perm: 0o640, data: "new"})
					}
				case 6:
					if added > 0 {
						s.do(op{k: oRemove, path: fmt.Sprintf("/d/new%d", added)})
						added--
					}
				default:
					_, err := s.d.ReadDir("/q")
					x.Assert(errors.Is(err, disko.ErrNotADirectory), "ReadDir of a file reported %v", err)
				}
			}
			s.checkHandles(0)
		}
	}
}

// linkCycles: what resolving one path did, also when it failed, does not
// matter to the next.
func linkCycles(pairs, singles int) func(x *core.X) {
	paths := []string{"/l", "/m", "/c1", "/c2/f", "/long", "/lost", "/lost/f", "/l/../m", "/d/up/d/up/d/f", "d/self/self/self/f", "/l/f", "/missing", "/d/e/f", "/toolong", "/long/f"}
	return func(x *core.X) {
		a := x.Choose(len(paths), "path")
		b := x.Choose(len(paths)+1, "next path")
		what := x.Choose(3, "operation")
		x.Begin()
		root, d, _ := fixture()
		root.add("l", linkNode("d"))
		root.add("m", linkNode("/l/e/../f"))
		root.add("c1", linkNode("c2"))
		root.add("c2", linkNode("/d/../c1"))
		root.add("lost", linkNode("d/nothing"))
		d.add("up", linkNode(".."))
		d.add("self", linkNode("."))
		root.add("long", linkNode("/x00"))
		for i := 0; i < 30; i++ {
			root.add(fmt.Sprintf("x%02d", i), linkNode(fmt.Sprintf("x%02d", i+1)))
		}
		root.add("x30", linkNode("d"))
		root.add("toolong", linkNode("/y00"))
		for i := 0; i < 300; i++ {
			root.add(fmt.Sprintf("y%02d", i), linkNode(fmt.Sprintf("y%02d", (i+1)%300)))
		}
		s := newSys(x, root, 2, disko.MountFlagsAllowAll)
		ps, n := []string{paths[a]}, singles
		if b < len(paths) {
			ps, n = append(ps, paths[b]), pairs
		}
		for i := 0; i < n; i++ {
			switch what {
			case 0:
				s.linkReads(ps)
			case 1:
				for _, p := range ps {
					n, _, err := s.r.lookup(p, true)
					st, gerr := s.d.Stat(p)
					x.T()
					if err != nil {
						lookupError(err).check(x, on{"Stat", p}, gerr)
					} else {
						x.Assert(gerr == nil, "Stat(%q): %v", p, gerr)
						s.checkStat(on{"Stat", p}, n, st)
					}
				}
			default:
				for _, p := range ps {
					s.do(op{k: oChmod, path: p, perm: 0o700})
				}
			}
		}
		s.linkReads(paths)
		s.verify(paths)
		s.checkHandles(0)
	}
}

// pathCycles: normalizing and changing directories again and again.
func pathCycles(reps int) func(x *core.X) {
	steps := []string{"a", "..", "/", "a/b", "missing", "f", "/l", "cycle", "../..", "", "a/../a", "//a//", "/a/b/../b"}
	probes := []string{"", "x", "../x", "/x/../y", "../../../../z", "a//b/."}
	return func(x *core.X) {
		count := 1 + x.Choose(3, "steps in the cycle")
		var seq []string
		for i := 0; i < count; i++ {
			seq = append(seq, core.Pick(x, "step", steps...))
		}
		x.Begin()
		root, a, b := dirNode(0o755), dirNode(0o755), dirNode(0o755)
		root.add("a", a)
		a.add("b", b)
		a.add("a", dirNode(0o755))
		b.add("a", dirNode(0o755))
		root.add("f", fileNode("f"))
		root.add("l", linkNode("a/b"))
		root.add("cycle", linkNode("cycle"))
		s := newSys(x, root, 1, disko.MountFlagsAllowAll)
		for i := 0; i < reps; i++ {
			for _, p := range seq {
				s.do(op{k: oChdir, path: p})
				checkNormalize(x, s.d, s.r.cwd, probes[i%len(probes)])
			}
			cwd, err := s.d.Getwd()
			x.Assert(err == nil && cwd == s.r.cwd, "the working directory is %q, want %q", cwd, s.r.cwd)
		}
		for _, p := range probes {
			checkNormalize(x, s.d, s.r.cwd, p)
		}
	}
}
