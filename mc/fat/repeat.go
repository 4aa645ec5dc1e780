package main

import (
	"bytes"
	"fmt"

	"github.com/dargueta/disko/file_systems/fat"
	core "github.com/dargueta/disko/zzverif/core"
)

// Long sessions: what was decoded, read, found missing or broken before does
// not matter to what is decoded or read next.

// pickCycle chooses one or two numbers below n.
func pickCycle(x *core.X, n int) []int {
	ops := []int{x.Choose(n, "operation")}
	if o := x.Choose(n+1, "next operation"); o < n {
		ops = append(ops, o)
	}
	return ops
}

// brokenVol has files and directories with every kind of chain.
func brokenVol(x *core.X, k kind) (*vol, []string) {
	v := newVol(x, k, 64, 1, 3, 12)
	list := []struct {
		next []fat.ClusterID
		dir  bool
	}{
		{[]fat.ClusterID{3, 4, k.eocHigh}, false}, // 2: intact
		{[]fat.ClusterID{6, 5}, false},            // 5: a loop
		{[]fat.ClusterID{8, 0}, false},            // 7: ends in a free cluster
		{[]fat.ClusterID{10, k.eocLow}, true},     // 9: a directory
		{[]fat.ClusterID{12, k.bad}, true},        // 11: a broken directory
		{[]fat.ClusterID{13}, true},               // 13: a directory that continues itself
	}
	c := fat.ClusterID(2)
	var paths []string
	for i, e := range list {
		first := c
		for _, n := range e.next {
			v.table[c] = n
			c++
		}
		name, attr, size := fmt.Sprintf("N%d", i), byte(0x20), 64*len(e.next)-5
		if e.dir {
			attr, size = 0x10, 0
			for j := first; j < c; j++ {
				put(v.cluster(j), entry(fmt.Sprintf("F%d", j), "", 0x20, 3, 70), entry("SUB", "", 0x10, 9, 0))
			}
		}
		v.root = append(v.root, entry(name, "", attr, first, size)...)
		paths = append(paths, "/"+name)
	}
	return v, append(paths, "/N3/F10", "/N3/F9", "/N3/SUB", "/N4/F11", "/NOTHING", "/")
}

func (v *vol) visit(d *fat.FATDriver, path string) {
	comps := []string{}
	for _, c := range bytes.Split([]byte(path), []byte("/")) {
		if len(c) > 0 {
			comps = append(comps, string(c))
		}
	}
	raw, ok := v.find(0, comps...)
	switch {
	case ok && raw != nil && raw[11]&16 == 0:
		v.checkRead(d, path, rawFirst(raw), int(raw[28]))
	case ok && raw != nil:
		v.checkList(d, path, rawFirst(raw))
	case ok:
		v.checkList(d, path, 0)
	default:
		v.x.T()
		_, err := d.ReadFile(path)
		v.x.Assert(err != nil, "ReadFile(%s), which cannot be found, succeeded", path)
	}
}

func chainSessions(reps int) []*core.Part {
	return []*core.Part{
		{Name: "contents", Bounds: "files of 4 clusters, each with a pattern, zeros, 0xFF, 0xE5 or the same as another, in 2 orders", Body: func(x *core.X) {
			var what [4]int
			for i := range what {
				what[i] = x.Choose(5, "content")
			}
			rev := x.Bool("descending")
			x.Begin()
			v := newVol(x, kinds[1], 64, 1, 3, 4)
			order := []fat.ClusterID{2, 3, 4, 5, kinds[1].eocHigh}
			if rev {
				order = []fat.ClusterID{5, 4, 3, 2, kinds[1].eocHigh}
			}
			for i, c := range order[:4] {
				v.table[c] = order[i+1]
				b := v.cluster(c)
				for j := range b {
					switch what[i] {
					case 1:
						b[j] = 0
					case 2:
						b[j] = 0xFF
					case 3:
						b[j] = 0xE5
					case 4:
						b[j] = byte(j)
					}
				}
			}
			for _, size := range []int{256, 255, 193, 192, 129, 64, 1} {
				v.root = entry("F", "", 0x20, order[0], size)
				v.checkRead(driver(x, v, image{v}), "/F", order[0], size)
			}
		}},
		{Name: "byte values", Bounds: "files of 1 and 2 clusters, 4 sizes, with one or two bytes of every value at the beginning, the end of the file, of the cluster, or everywhere", Body: func(x *core.X) {
			size := core.Pick(x, "size", 2, 64, 65, 127)
			where := x.Choose(4, "where")
			first := x.Choose(256, "value")
			x.Begin()
			v := newVol(x, kinds[1], 64, 1, 3, 4)
			v.table[2], v.table[3] = 3, kinds[1].eocHigh
			if size <= 64 {
				v.table[2] = kinds[1].eocHigh
			}
			v.root = entry("F", "", 0x20, 2, size)
			d := driver(x, v, image{v})
			for _, second := range []int{first, 0, '\n', 0x1A, 0xE5, 0xFF, 'x'} {
				for i := 0; i < 128; i++ {
					b := byte(i)
					switch {
					case where == 0 && i < 2, where == 1 && i >= size-2 && i < size, where == 2 && i >= 62 && i < 66, where == 3:
						b = byte(first)
						if i&1 == 1 {
							b = byte(second)
						}
					}
					v.cluster(fat.ClusterID(2 + i/64))[i%64] = b
				}
				v.checkRead(d, "/F", 2, size)
			}
		}},
		{Name: "long sessions", Bounds: fmt.Sprintf("12 paths to files and directories with intact, looping and otherwise broken chains, missing ones, the root; each of them and each pair read %d times by one driver, then all; 3 FAT variants", reps), Body: func(x *core.X) {
			k := core.Pick(x, "variant", kinds...)
			ops := pickCycle(x, 12)
			x.Begin()
			v, paths := brokenVol(x, k)
			d := driver(x, v, image{v})
			for i := 0; i < reps; i++ {
				for _, o := range ops {
					v.visit(d, paths[o])
				}
			}
			for _, p := range paths {
				v.visit(d, p)
			}
		}},
	}
}

func fileSessions(reps int) *core.Part {
	return &core.Part{Name: "long sessions", Bounds: fmt.Sprintf("reading and listing every path of a tree, and each pair, %d times by one driver; 100 files removed one after the other with those in between", reps), Body: func(x *core.X) {
		rot := x.Choose(2, "placement")
		ops := pickCycle(x, len(treePaths))
		remove := x.Bool("removing files in between")
		x.Begin()
		v := tree(x, kinds[rot], 96, 1, rot)
		if remove {
			for i := 0; i < 100; i++ {
				v.root = append(v.root, entry(fmt.Sprintf("G%d", i), "", 0x20, 0, 0)...)
			}
		}
		d := driver(x, v, image{v})
		for i := 0; i < reps; i++ {
			for _, o := range ops {
				v.checkPath(d, "/"+join(treePaths[o]), treePaths[o]...)
			}
			if remove && i < 100 {
				name := fmt.Sprintf("G%d", i*37%100)
				v.checkRemove(d, "/"+name, 0, name)
			}
		}
		for _, c := range treePaths {
			v.checkPath(d, "/"+join(c), c...)
		}
		for _, c := range [][]string{{"A"}, {"D", "A"}, {"D", "S", "A"}} {
			v.checkRemove(d, "/"+join(c), 0, c...)
		}
	}}
}

func direntSessions(reps int) *core.Part {
	return &core.Part{Name: "long sessions", Bounds: fmt.Sprintf("9 entries (ordinary, directory, deleted, escaped, the end mark, a volume label, a blank name, two damaged ones) and pairs of them decoded %d times", reps), Body: func(x *core.X) {
		variants := make([][]byte, 9)
		for i := range variants {
			variants[i] = plain()
			variants[i][1] += byte(i)
		}
		variants[1][11] = 0x10
		variants[2][0] = 0xE5
		variants[3][0] = 5
		variants[4][0] = 0
		variants[5][11] = 8
		copy(variants[6], "           ")
		variants[7][16], variants[7][17] = 0xFF, 0xFF
		variants[8][22], variants[8][23] = 0xFF, 0xFF
		ops := pickCycle(x, len(variants))
		x.Begin()
		for i := 0; i < reps; i++ {
			for _, o := range ops {
				x.T()
				checkDirent(x, bootSector(512), variants[o])
			}
		}
		for _, b := range variants {
			checkDirent(x, bootSector(512), b)
		}
	}}
}

func bootSessions(reps int) *core.Part {
	return &core.Part{Name: "long sessions", Bounds: fmt.Sprintf("8 volumes, corrupt and cut ones, and pairs of them decoded %d times", reps), Body: func(x *core.X) {
		ops := pickCycle(x, len(volumes)+3)
		x.Begin()
		decode := func(o int) {
			x.T()
			if o < len(volumes) {
				volumes[o].check(x)
				return
			}
			b := volumes[0].bytes()
			switch o - len(volumes) {
			case 0:
				b = b[:20]
			case 1:
				b[13] = 3
			default:
				b = nil
			}
			bs, err := fat.NewFATBootSectorFromStream(bytes.NewReader(b))
			x.Assert(err != nil && bs == nil, "a boot sector was decoded from damaged data: %v", bs)
		}
		for i := 0; i < reps; i++ {
			for _, o := range ops {
				decode(o)
			}
		}
		for o := 0; o < len(volumes)+3; o++ {
			decode(o)
		}
	}}
}

func metaSessions(reps int) *core.Part {
	changes := []change{{chmod: true}, {chmod: true, mode: 0o777}, {chmod: true, mode: 0o020}, {atime: moments[7], mtime: moments[8]}, {atime: moments[8], mtime: moments[7]}, {atime: moments[1], mtime: moments[7]}}
	return &core.Part{Name: "long sessions", Bounds: fmt.Sprintf("%d changes to 3 objects and one missing, and pairs of them, made %d times", len(changes), reps), Body: func(x *core.X) {
		paths := [][]string{{"A"}, {"D", "S"}, {"D", "A"}, {"B"}}
		ops := pickCycle(x, len(paths)*len(changes))
		x.Begin()
		m, d := newMeta(x, kinds[0], 96, 1)
		for i := 0; i < reps; i++ {
			for _, o := range ops {
				p := paths[o%len(paths)]
				m.apply(d, p, "/"+join(p), changes[o/len(paths)])
			}
		}
		for _, p := range metaPaths {
			m.apply(d, p, "/"+join(p), changes[0])
			m.apply(d, p, "/"+join(p), changes[len(changes)-1])
		}
	}}
}
