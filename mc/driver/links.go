package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/dargueta/disko"
	core "github.com/dargueta/disko/zzverif/core"
)

// fixture: the directories /, /d and /d/e with a file f in each.
func fixture() (root, d, e *node) {
	root, d, e = dirNode(0o755), dirNode(0o750), dirNode(0o700)
	root.add("f", fileNode("1"))
	root.add("d", d)
	d.add("f", fileNode("22"))
	d.add("e", e)
	e.add("f", fileNode("333"))
	return
}

var targets = []string{
	"f", "d", "e", "l", "m", "x", "d/e", "d/f", "e/f", "l/f", "m/f", "l/e", "m/l", "../f", "..", "../d", "../l", "../m", ".", "../..", "./l", "d/../m", "../../m",
	"/", "/f", "/d", "/d/e", "/l", "/m", "/d/l", "/d/m", "/d/e/l", "/x", "/l/f", "/m/e", "/d/e/m/../l", "/l/m",
}

// fewTargets are the ones that matter most.
var fewTargets = []string{"f", "l", "m", "n", "d/e", "..", ".", "../l", "../m/f", "/d", "/d/e/m", "/l", "/l/f", "/m/l", "/n", "x", "e/n"}

// leastTargets suffice where something else is enumerated as well.
var leastTargets = []string{"f", "l", "m", "d/e", "..", "../m/f", "/d/e/m", "/l/f", "x", "/m/l"}

// allPaths are the paths of up to depth components.
func allPaths(names []string, depth int) []string {
	var out []string
	level := []string{""}
	for i := 0; i < depth; i++ {
		var next []string
		for _, p := range level {
			for _, n := range names {
				next = append(next, p+"/"+n)
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

// linkReads resolves every path with every reading operation.
func (s *sys) linkReads(paths []string) {
	x := s.x
	home := s.r.cwd
	ids := map[*node]uint64{}
	for _, p := range paths {
		s.readPath(p, ids)
		n, phys, err := s.r.lookup(p, true)
		cerr := s.d.Chdir(p)
		wd, werr := s.d.Getwd()
		switch {
		case err != nil:
			lookupError(err).check(x, on{"Chdir", p}, cerr)
			x.Assert(wd == home && werr == nil, "the failed Chdir(%q) changed the directory to %q", p, wd)
		case !n.dir():
			x.Assert(errors.Is(cerr, disko.ErrNotADirectory), "Chdir(%q), not a directory: %v", p, cerr)
			x.Assert(wd == home && werr == nil, "the failed Chdir(%q) changed the directory to %q", p, wd)
		default:
			x.Assert(cerr == nil && werr == nil && wd == phys, "Chdir(%q): %v, Getwd gives %q, want %q", p, cerr, wd, phys)
			if wd != home {
				// Relative paths work from there.
				s.r.cwd = phys
				for _, q := range []string{"f", "l", "../f"} {
					n, _, err := s.r.lookup(q, true)
					st, gerr := s.d.Stat(q)
					if err != nil {
						lookupError(err).check(x, on{"Stat in " + phys + " of ", q}, gerr)
					} else {
						x.Assert(gerr == nil, "in %q, Stat(%q): %v", phys, q, gerr)
						s.checkStat(on{"Stat in " + phys + " of ", q}, n, st)
					}
				}
				s.r.cwd = home
				x.Assert(s.d.Chdir(home) == nil, "Chdir(%q) failed", home)
			}
		}
	}
	s.checkHandles(0)
}

func linkArrangements(where []string, links []string, ts []string, depth int, cwds []string) func(x *core.X) {
	names := append([]string{"d", "e", "f", "x"}, links...)
	paths := allPaths(names, depth)
	return func(x *core.X) {
		root, d, e := fixture()
		dirs := map[string]*node{"/": root, "/d": d, "/d/e": e}
		desc := make([]string, 0, 3)
		for _, l := range links {
			at := core.Pick(x, "place of "+l, where...)
			t := core.Pick(x, "target of "+l, ts...)
			dirs[at].add(l, linkNode(t))
			desc = append(desc, fmt.Sprintf("%s in %s -> %s", l, at, t))
		}
		cwd := core.Pick(x, "working directory", cwds...)
		x.Begin()
		s := newSys(x, root, 2, disko.MountFlagsAllowAll)
		if x.Verbose {
			x.Logf("links: %s", strings.Join(desc, ", "))
		}
		if cwd != "/" {
			x.Assert(s.d.Chdir(cwd) == nil, "Chdir(%q) failed", cwd)
			s.r.cwd = cwd
			rel := make([]string, len(paths))
			for i, p := range paths {
				rel[i] = p[1:]
			}
			s.linkReads(rel)
		} else {
			s.linkReads(paths)
		}
		if d := s.fs.compare(s.r, nil); d != "" {
			x.Fail("resolving paths changed the volume: %s", d)
		}
	}
}

// linkChain: long chains of links, ending well, dangling or in a cycle.
func linkChain(limit int, more ...int) func(x *core.X) {
	return func(x *core.X) {
		n := 1 + x.Choose(limit+len(more), "links")
		if n > limit {
			n = more[n-limit-1]
		}
		end := x.Choose(5, "end")
		shape := x.Choose(4, "shape")
		x.Begin()
		root, d, _ := fixture()
		link := func(i int) string { return fmt.Sprintf("l%d", i) }
		dirs := []*node{root, d}
		prefix := []string{"/", "/d/"}
		for i := 0; i < n; i++ {
			at := 0
			if shape == 1 || shape == 2 {
				at = i % 2
			}
			next := 0
			if shape == 1 || shape == 2 {
				next = (i + 1) % 2
			}
			var t string
			switch {
			case i < n-1 && shape == 2 && at == 0:
				t = "d/" + link(i+1)
			case i < n-1 && shape == 2:
				t = "../" + link(i+1)
			case i < n-1 && shape == 3:
				t = "./d/../" + link(i+1)
			case i < n-1:
				t = prefix[next] + link(i+1)
			default:
				// shape 3 needs absolute ends like the others
				t = []string{"/d/f", "/d/e", "/d/x", prefix[0] + link(0), prefix[(n/2)%2*b2i(shape == 1 || shape == 2)] + link(n/2)}[end]
			}
			dirs[at].add(link(i), linkNode(t))
		}
		s := newSys(x, root, 4, disko.MountFlagsAllowAll)
		s.r.hops = 2*n + 10
		s.linkReads([]string{"/l0", "/l0/f", "/d/l0", "/l1", "/d/l1", "/" + link(n-1), "/d/" + link(n-1), "/l0/../f", "/l0/l0"})
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// nested: every link goes through the previous one as a directory.
func linkNested(x *core.X) {
	n := 1 + x.Choose(10, "links")
	kind := x.Choose(3, "kind")
	x.Begin()
	root, _, _ := fixture()
	for i := 0; i < n; i++ {
		t := "d"
		switch {
		case i > 0 && kind == 0:
			t = fmt.Sprintf("l%d/.", i-1)
		case i > 0 && kind == 1:
			t = fmt.Sprintf("/l%d", i-1)
		case i > 0:
			t = fmt.Sprintf("l%d/e", i-1) // dangles after the second
		}
		root.add(fmt.Sprintf("l%d", i), linkNode(t))
	}
	s := newSys(x, root, 1, disko.MountFlagsAllowAll)
	last := fmt.Sprintf("/l%d", n-1)
	s.linkReads([]string{last, last + "/f", last + "/e/f", last + "/e/x", last + "/f/x", "/l0/f"})
}

// linkTexts: links with targets of any length.
func linkTexts(lengths []int) func(x *core.X) {
	return func(x *core.X) {
		n := core.Pick(x, "length of the target", lengths...)
		kind := x.Choose(6, "kind of target")
		bs := core.Pick(x, "block size", 1, 3, 16, 64, 512, 4096)
		x.Begin()
		if n/bs > 5000 {
			x.Abandon()
		}
		root, d, e := fixture()
		pad := func(piece, end string) string {
			t := strings.Repeat(piece, max(0, n-len(end))/len(piece)) + end
			if len(t) < n && len(piece) > 1 && strings.HasSuffix(piece, "/") {
				t = strings.Repeat("/", n-len(t)) + t // only for absolute ends
			}
			return t
		}
		var t string
		switch kind {
		case 0:
			t = pad("./", "f")
		case 1:
			t = "/" + pad("../", "d/f")
		case 2:
			t = strings.Repeat("n", n)
			root.add(t, fileNode("long name"))
			d.add(t, fileNode("another"))
		case 3:
			t = pad("/", "/d")
		case 4:
			t = "d/" + strings.Repeat("n", n)
			if n > 1 {
				e.add(t[3:], fileNode("not this one"))
			}
			d.add(t[2:], e)
		case 5:
			t = pad("d/../", "l2")
		}
		root.add("l", linkNode(t))
		root.add("l2", linkNode("d/l3"))
		d.add("l3", linkNode("/"+t))
		d.add("l", linkNode(t))
		s := newSys(x, root, bs, disko.MountFlagsAllowAll)
		s.linkReads([]string{"/l", "/l/f", "/l2", "/d/l", "/d/l3", "/d/l3/f", "/l/../l", "/l/x"})
	}
}

// linkHistory: links change between the operations; resolution depends on the
// current state of the volume only.
var linkOps = func() []op {
	var m []op
	for _, p := range []string{"/l", "/m", "/l/f", "/d/l", "/d/l/x", "/l/e/f", "/d/m/f", "m/f", "/x"} {
		m = append(m, op{k: oChmod, path: p, perm: 0o600}, op{k: oChown, path: p}, op{k: oLchown, path: p}, op{k: oChtimes, path: p}, op{k: oTruncate, path: p},
			op{k: oWriteFile, path: p, perm: 0o640, data: "new"}, op{k: oOpen, path: p, flags: rw | creat, perm: 0o600}, op{k: oOpen, path: p, flags: rw | creat | excl, perm: 0o600},
			op{k: oRemove, path: p}, op{k: oMkdir, path: p, perm: 0o711}, op{k: oMkdirAll, path: p + "/z", perm: 0o711}, op{k: oChdir, path: p}, op{k: oFileChdir, path: p}, op{k: oFileAttr, path: p, perm: 0o400},
			op{k: oLink, path: "/f", to: p}, op{k: oLink, path: p, to: "/k"})
	}
	return m
}()

func linkOperations(ts []string) func(x *core.X) {
	paths := []string{"/", "/l", "/m", "/l/f", "/d", "/d/l", "/d/m", "/d/m/f", "/d/e/f", "/x", "/k", "/l/e", "/l/z", "m", "l/f", "/d/x"}
	return func(x *core.X) {
		root, d, _ := fixture()
		place := x.Choose(3, "placement")
		t1 := core.Pick(x, "target of l", ts...)
		t2 := core.Pick(x, "target of m", ts...)
		first := x.Choose(len(linkOps), "operation")
		x.Begin()
		dirs := [][2]*node{{root, root}, {root, d}, {d, root}}[place]
		dirs[0].add("l", linkNode(t1))
		dirs[1].add("m", linkNode(t2))
		s := newSys(x, root, 2, disko.MountFlagsAllowAll)
		x.Logf("l -> %s, m -> %s, placement %d", t1, t2, place)
		o := linkOps[first]
		x.Step(nil, nil)
		for {
			s.do(o)
			x.Step(nil, func() { s.verify(paths); s.checkHandles(0) })
			o = linkOps[x.Choose(len(linkOps), "")]
		}
	}
}

// linkFaults: a failure while resolving is reported and leaves nothing behind.
func linkFaults(ts []string) func(x *core.X) { return func(x *core.X) { linkFault(x, ts) } }

func linkFault(x *core.X, ts []string) {
	root, d, _ := fixture()
	t1 := core.Pick(x, "target of l", ts...)
	t2 := core.Pick(x, "target of m", ts...)
	p := core.Pick(x, "path", "/l", "/l/f", "/d/m", "/d/m/f", "/l/m/f", "/d/e/f")
	x.Begin()
	root.add("l", linkNode(t1))
	d.add("m", linkNode(t2))
	s := newSys(x, root, 2, disko.MountFlagsAllowAll)
	s.fs.faulty = true
	for i := 0; i < 5; i++ {
		s.fs.failed = ""
		var err error
		follow := true
		switch i {
		case 0:
			_, err = s.d.Stat(p)
		case 1:
			_, err = s.d.Lstat(p)
			follow = false
		case 2:
			err = s.d.Chdir(p)
			if err == nil {
				if s.fs.failed == "" {
					s.d.Chdir("/")
				}
			}
		case 3:
			f, e := s.d.Open(p)
			err = e
			if e == nil {
				f.Close()
			}
		case 4:
			_, err = s.d.ReadDir(p)
		}
		_, _, want := s.r.lookup(p, follow)
		if s.fs.failed != "" {
			x.Outcome(uint64(i)<<32 + uint64(len(s.fs.failed)))
			x.Assert(err != nil || s.fs.failed == "Close", "%s of %q succeeded although %s failed", []string{"Stat", "Lstat", "Chdir", "Open", "ReadDir"}[i], p, s.fs.failed)
			x.Assert(err == nil || want != nil || !errors.Is(err, disko.ErrNotFound), "operation %d on %q reported %v although %s failed", i, p, err, s.fs.failed)
			break
		}
	}
	// Afterwards everything resolves as ever.
	s.fs.faulty, s.fs.failed = false, ""
	s.d.Chdir("/")
	s.linkReads([]string{"/l", "/m", "/l/f", "/d/m", "/d/m/f", "/l/e", "/l/m", "/l/m/f", "/d/e/f", "/d/l"})
}

func linkParts(t bool) []*core.Part {
	all := []string{"/", "/d", "/d/e"}
	where, some, changed := []string{"/", "/d"}, leastTargets, leastTargets
	if t {
		where, some, changed = all, fewTargets, []string{"f", "m", "d/e", "../m/f", "/l/f"}
	}
	return []*core.Part{
		{Name: "two-links", Mode: core.DFS, Bounds: fmt.Sprintf("3 directories with a file each; 2 links, each in any of the directories with any of %d targets; every path of up to %d components out of 6; Stat, Lstat, Readlink, Open, ReadFile, ReadDir, Chdir and relative paths from there", len(targets), pick(t, 3, 4)), Body: linkArrangements(all, []string{"l", "m"}, targets, pick(t, 3, 4), []string{"/"})},
		{Name: "relative", Mode: core.DFS, Bounds: fmt.Sprintf("the same with working directories /d and /d/e, %d targets", len(some)), Body: linkArrangements(all, []string{"l", "m"}, some, 3, []string{"/d", "/d/e"})},
		{Name: "chains", Mode: core.DFS, Bounds: "chains of 1-60, 64, 65, 100, 128, 129, 255-257 (thorough: also 300, 513, 1000) links through one or two directories, absolute and relative, ending at a file, a directory, nowhere, in a cycle", Body: linkChain(60, append([]int{64, 65, 100, 128, 129, 255, 256, 257}, []int{300, 513, 1000}[:3*b2i(t)]...)...)},
		{Name: "nested", Mode: core.DFS, Bounds: "up to 10 links, each through the previous one", Body: linkNested},
		{Name: "operations", Mode: core.DFS, Depth: pick(t, 1, 2), Bounds: fmt.Sprintf("2 links with %d targets each at 3 placements, %d changing operation(s) out of %d, everything read afterwards", len(changed), pick(t, 1, 2), len(linkOps)), Body: linkOperations(changed)},
		{Name: "faults", Mode: core.DFS, Budget: 1, Bounds: fmt.Sprintf("2 links, %d targets each, 5 operations on 6 paths; every request to the implementation failing once", len(some)), Body: linkFaults(some)},
		{Name: "three-links", Mode: core.DFS, Bounds: fmt.Sprintf("3 links in any of %d directories with any of %d targets, every path of up to %d components out of 7", len(where), len(some), pick(t, 2, 3)), Body: linkArrangements(where, []string{"l", "m", "n"}, some, pick(t, 2, 3), []string{"/"})},
		{Name: "texts", Mode: core.DFS, Bounds: "links with targets of every length up to 130, around powers of two and multiples of 1000 up to 8200, of 6 kinds, in blocks of 1-4096 bytes", Body: linkTexts(textLengths)},
		oddPart(oddLinks, "links to objects of 3 kinds with such names, in 10 spellings, and links with such names"),
		{Name: "cycles", Mode: core.DFS, Bounds: "15 paths through links, in cycles, dangling, through too many links, and pairs of them, resolved again and again", Body: linkCycles(pick(t, 50, 300), 300)},
	}
}

var textLengths = func() []int {
	var l []int
	for i := 1; i <= 130; i++ {
		l = append(l, i)
	}
	for _, n := range []int{250, 253, 256, 511, 512, 513, 1000, 1022, 1024, 2000, 2046, 2048, 3000, 4000, 4092, 4094, 4096, 5000, 8190, 8192} {
		l = append(l, n, n+1, n+2, n+3)
	}
	return l
}()
