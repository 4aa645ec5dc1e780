package main

import (
	"fmt"
	"math"
	"os"
	"strings"
	"time"

	"github.com/dargueta/disko"
	core "github.com/dargueta/disko/zzverif/core"
)

// ---- C30: every value an operation can be given ----

// fileMode is the i-th combination of permission bits, including the setuid,
// setgid and sticky bits.
func fileMode(i int) os.FileMode {
	m := os.FileMode(i & 0o777)
	for b, f := range []os.FileMode{os.ModeSticky, os.ModeSetgid, os.ModeSetuid} {
		if i>>(9+b)&1 != 0 {
			m |= f
		}
	}
	return m
}

// modeJunk are bits that are not permissions and have no effect.
var modeJunk = []os.FileMode{0, os.ModeDir, os.ModeSymlink, os.ModeDevice | os.ModeCharDevice, os.ModeAppend | os.ModeExclusive | os.ModeTemporary, os.ModeIrregular | os.ModeNamedPipe | os.ModeSocket, 1 << 9, 1 << 18}

var valueOwners = []int{0, 1, 7, 127, 128, 255, 256, 32767, 32768, 65534, 65535, 65536, 1000000, math.MaxInt32}

var valueTimes = func() []time.Time {
	l := []time.Time{{}, time.Unix(0, 0), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC)}
	for _, sec := range []int64{1, -1, 86400, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, 315532800, 315532799} {
		for _, ns := range []int64{0, 1, 999999999} {
			l = append(l, time.Unix(sec, ns))
		}
	}
	return append(l, time.Unix(1700000000, 123456789).In(time.FixedZone("e", 14*3600)), time.Unix(1700000000, 100).In(time.FixedZone("w", -12*3600)))
}()

// values: one operation with every permission, owner or time.
func values(prepare func(x *core.X, s *sys)) func(x *core.X) {
	return func(x *core.X) { valuesWith(x, prepare) }
}

func valuesWith(x *core.X, prepare func(x *core.X, s *sys)) {
	kind := x.Choose(8, "operation")
	tree := core.Pick(x, "tree", 1, 3)
	var o op
	switch kind {
	case 0, 1, 2, 3, 4, 5:
		o = []op{{k: oMkdir, path: "/a/n"}, {k: oMkdirAll, path: "/n/o/p"}, {k: oOpen, path: "/a/n", flags: rw | creat}, {k: oWriteFile, path: "/n", data: "new"},
			{k: oChmod, path: "/b"}, {k: oFileAttr, path: "/a"}}[kind]
		hi := x.Choose(64, "permission (high digits)")
		x.Begin()
		o.perm = fileMode(hi<<6|x.Choose(64, "permission (low digits)")) | modeJunk[x.Choose(len(modeJunk), "other bits")]
	case 6:
		o = core.Pick(x, "which", op{k: oChown, path: "/b"}, op{k: oLchown, path: "/l"}, op{k: oFileAttr, path: "/a", perm: 0o700})
		u := x.Choose(len(valueOwners), "user")
		x.Begin()
		o.ids = &[2]int{valueOwners[u], core.Pick(x, "group", valueOwners...)}
	default:
		o = op{k: oChtimes, path: core.Pick(x, "which", "/b", "/a", "/l")}
		a := core.Pick(x, "accessed", valueTimes...)
		x.Begin()
		o.when = &[2]time.Time{a, core.Pick(x, "modified", valueTimes...)}
	}
	s := newSys(x, trees[tree].make(), 4, disko.MountFlagsAllowAll)
	prepare(x, s)
	s.do(o)
	x.Assert(s.last == nil || s.contract, "%v failed: %v", o, s.last)
	s.checkHandles(0)
	s.verifyAll([]string{o.path, "/", "/b", "/n/o"})
	x.OutcomeS(kindNames[o.k])
}

// ---- C30: big volumes ----

var scaleDepths = []int{5, 10, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}

// deepTree: operations far down in the tree.
func deepTree(prepare func(x *core.X, s *sys)) func(x *core.X) {
	return func(x *core.X) { deepTreeWith(x, prepare) }
}

func deepTreeWith(x *core.X, prepare func(x *core.X, s *sys)) {
	name := core.Pick(x, "name", "d", "directory with a long name", strings.Repeat("n", 255))
	depths := scaleDepths
	if len(name) > 200 {
		depths = scaleDepths[:7]
	} else if len(name) > 20 {
		depths = scaleDepths[:13]
	}
	depth := core.Pick(x, "depth", depths...)
	how := x.Choose(4, "way") // absolute, relative to the deepest directory, up and down again, relative to the middle
	x.Begin()
	s := newSys(x, dirNode(0o755), 16, disko.MountFlagsAllowAll)
	prepare(x, s)
	comps := strings.Repeat("/"+name, depth)
	deepest := op{k: oMkdirAll, path: comps, perm: 0o750}
	s.do(deepest)
	prefix := comps + "/"
	switch how {
	case 1:
		s.do(op{k: oChdir, path: comps})
		prefix = ""
	case 2:
		s.do(op{k: oChdir, path: comps})
		prefix = strings.Repeat("../", depth) + "x/.." + comps + "/./"
	case 3:
		s.do(op{k: oChdir, path: strings.Repeat("/"+name, depth/2)})
		prefix = strings.Repeat(name+"/", depth-depth/2)
	}
	for _, o := range []op{
		{k: oWriteFile, path: prefix + "f", perm: 0o640, data: "content of the deep file"},
		{k: oLink, path: prefix + "f", to: "/g"},
		{k: oMkdir, path: prefix + "e", perm: 0o700},
		{k: oOpen, path: prefix + "e/h", flags: rw | creat | excl, perm: 0o600},
		{k: oChmod, path: prefix + "f", perm: 0o601},
		{k: oChown, path: prefix + "e"},
		{k: oChtimes, path: prefix + "f"},
		{k: oMkdir, path: prefix + "f/x", perm: 0o700},
		{k: oMkdirAll, path: prefix + "e/h/i", perm: 0o700},
		{k: oRemove, path: comps},
		{k: oRemove, path: prefix + "e/h"},
		{k: oRemove, path: prefix + "e"},
		{k: oTruncate, path: "/g"},
	} {
		s.do(o)
		s.checkHandles(0)
		s.verifyAll([]string{prefix + "f", prefix, prefix + "e", "/g"})
	}
	s.verifyAll([]string{comps + "/f/", comps + "/m", comps + "/m/n", "."})
	x.T()
	s.do(op{k: oChdir, path: "/"})
	s.do(op{k: oRemoveAll, path: "/" + name})
	s.checkHandles(0)
	s.verifyAll([]string{"/", comps, "/" + name, "/g"})
	x.OutcomeS(fmt.Sprint(depth, how))
}

var scaleEntries = []int{0, 1, 2, 15, 16, 17, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025}

// wideTree: operations in a directory with many entries.
func wideTree(prepare func(x *core.X, s *sys)) func(x *core.X) {
	return func(x *core.X) { wideTreeWith(x, prepare) }
}

func wideTreeWith(x *core.X, prepare func(x *core.X, s *sys)) {
	count := core.Pick(x, "entries", scaleEntries...)
	kind := x.Choose(3, "entries are") // files, directories, names of one file
	k := x.Choose(14, "operation")
	x.Begin()
	which := core.Pick(x, "entry", 0, count/2, count-1, count)
	if which < 0 || which > count {
		x.Abandon()
	}
	root, d := dirNode(0o755), dirNode(0o700)
	root.add("d", d)
	one := fileNode("one")
	for i := 0; i < count; i++ {
		n := one
		switch kind {
		case 0:
			n = fileNode(fmt.Sprint("file ", i))
		case 1:
			n = dirNode(0o711)
			n.add("f", fileNode("inner"))
		}
		d.add(fmt.Sprintf("entry%d", i), n)
	}
	s := newSys(x, root, 8, disko.MountFlagsAllowAll)
	prepare(x, s)
	s.fs.dots = count % 4
	p := fmt.Sprintf("/d/entry%d", which)
	o := []op{
		{k: oMkdir, path: p, perm: 0o750},
		{k: oMkdirAll, path: p + "/f/g", perm: 0o750},
		{k: oCreate, path: p},
		{k: oOpen, path: p, flags: rw | creat, perm: 0o606},
		{k: oWriteFile, path: p, perm: 0o600, data: "new"},
		{k: oTruncate, path: p},
		{k: oRemove, path: p},
		{k: oRemoveAll, path: p},
		{k: oRemoveAll, path: "/d"},
		{k: oRemove, path: "/d"},
		{k: oLink, path: p, to: "/d/new"},
		{k: oChmod, path: p, perm: 0o123},
		{k: oLchown, path: p},
		{k: oChdir, path: p},
	}[k]
	s.do(o)
	s.checkHandles(0)
	paths := []string{p, "/d/entry0", fmt.Sprintf("/d/entry%d", count/2), fmt.Sprintf("/d/entry%d", count-1), "/d/new", "/d/entry", "/d"}
	s.verifyAll(paths)
	s.do(op{k: oMkdirAll, path: "/d/new2/x", perm: 0o700})
	s.verifyAll(append(paths, "/d/new2"))
	s.do(op{k: oRemoveAll, path: "/d"})
	s.checkHandles(0)
	s.verifyAll([]string{"/", "/d", p})
	x.OutcomeS(fmt.Sprint(count, kindNames[o.k]))
}

// verifyAll is verify unless only the promises to the implementation matter.
func (s *sys) verifyAll(paths []string) {
	if s.contract {
		for _, p := range paths {
			s.reads(p)
		}
		s.checkHandles(0)
		return
	}
	s.verify(paths)
}

func plainly(*core.X, *sys) {}
