package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/dargueta/disko/file_systems/fat"
	core "github.com/dargueta/disko/zzverif/core"
)

// find walks a path in the model.
func (v *vol) find(dir fat.ClusterID, comps ...string) (raw []byte, ok bool) {
	for i, c := range comps {
		list, intact := v.list(dir)
		if !intact {
			return nil, false
		}
		raw = nil
		for _, b := range list {
			if rawName(b) == c {
				raw = b
				break
			}
		}
		if raw == nil || i+1 < len(comps) && raw[11]&16 == 0 {
			return nil, false
		}
		dir = rawFirst(raw)
	}
	return raw, true
}

// snapshot copies everything a removal may touch.
type snapshot struct {
	root, data []byte
	table      map[fat.ClusterID]fat.ClusterID
}

func (v *vol) snapshot() snapshot {
	s := snapshot{bytes.Clone(v.root), bytes.Clone(v.data), map[fat.ClusterID]fat.ClusterID{}}
	for c, n := range v.table {
		s.table[c] = n
	}
	return s
}

func (v *vol) unchanged(s snapshot, what string) {
	x := v.x
	x.Assert(bytes.Equal(s.root, v.root) && bytes.Equal(s.data, v.data), "%s changed a directory (deleted %q)", what, v.deleted)
	for c, n := range s.table {
		x.Assert(v.table[c] == n, "%s changed table entry %d from %#x to %#x", what, c, n, v.table[c])
	}
	x.Assert(len(v.freed) == 0 && v.deleted == nil, "%s freed %v and deleted %q", what, v.freed, v.deleted)
}

func sorted(l []fat.ClusterID) []fat.ClusterID {
	l = append([]fat.ClusterID{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// checkRemove removes a path and compares with the model.
func (v *vol) checkRemove(d *fat.FATDriver, path string, dir fat.ClusterID, comps ...string) {
	x := v.x
	before := v.snapshot()
	v.freed, v.deleted = nil, nil
	raw, ok := v.find(dir, comps...)
	isDir := len(comps) == 0 || ok && raw[11]&16 != 0
	var first fat.ClusterID
	var name string
	if ok && raw != nil {
		raw = bytes.Clone(raw)
		first, name = rawFirst(raw), rawName(raw)
	}
	var chain []fat.ClusterID
	intact := true
	if first != 0 {
		chain, intact = v.chain(first)
	}
	x.T()
	err := d.Remove(path)
	x.Logf("Remove(%s): %v; deleted %q, freed %v", path, err, v.deleted, v.freed)
	if !ok || isDir {
		x.Assert(err != nil, "Remove(%s), a directory or missing file, succeeded", path)
		v.unchanged(before, "the refused Remove("+path+")")
		return
	}
	if v.failed {
		x.Assert(err != nil, "Remove(%s) succeeded although an access failed", path)
	} else if !intact {
		x.Assert(err != nil, "Remove(%s) succeeded although its chain from %#x is broken (table %v)", path, first, before.table)
	} else {
		x.Assert(err == nil, "Remove(%s): %v", path, err)
	}
	if err == nil {
		x.Assert(len(v.deleted) == 1 && v.deleted[0] == name, "Remove(%s) deleted the entries %q", path, v.deleted)
		x.Assert(fmt.Sprint(sorted(v.freed)) == fmt.Sprint(sorted(chain)), "Remove(%s) freed the clusters %v, its chain is %v", path, v.freed, chain)
	}
	// Whatever happened: at most this entry is deleted, and only its clusters are freed, once, after that.
	x.Assert(len(v.deleted) <= 1 && (len(v.deleted) == 0 || v.deleted[0] == name), "Remove(%s) deleted the entries %q", path, v.deleted)
	x.Assert(len(v.deleted) == 1 || len(v.freed) == 0, "Remove(%s) freed %v without deleting the entry", path, v.freed)
	seen := map[fat.ClusterID]bool{}
	own := map[fat.ClusterID]bool{}
	for _, c := range chain {
		own[c] = true
	}
	for _, c := range v.freed {
		x.Assert(own[c], "Remove(%s) freed cluster %d, its chain is %v", path, c, chain)
		x.Assert(!seen[c], "Remove(%s) freed cluster %d twice", path, c)
		seen[c] = true
	}
	for c, n := range before.table {
		if seen[c] {
			n = 0
		}
		x.Assert(v.table[c] == n, "Remove(%s) changed table entry %d from %#x to %#x", path, c, n, v.table[c])
	}
	if len(v.deleted) == 1 {
		after := v.snapshot()
		v.root, v.data = before.root, before.data
		v.erase(v.parent(dir, comps), name, first)
		x.Assert(bytes.Equal(v.root, after.root) && bytes.Equal(v.data, after.data), "Remove(%s) changed other entries", path)
		v.root, v.data = after.root, after.data
	}
}

func (v *vol) parent(dir fat.ClusterID, comps []string) fat.ClusterID {
	if raw, ok := v.find(dir, comps[:len(comps)-1]...); ok && raw != nil {
		return rawFirst(raw)
	}
	return dir
}

// checkPath reads and lists one path of the tree and compares with the model.
func (v *vol) checkPath(d *fat.FATDriver, path string, comps ...string) {
	x := v.x
	raw, ok := v.find(0, comps...)
	isDir := len(comps) == 0 || ok && raw[11]&16 != 0
	if !ok {
		x.T()
		_, err := d.ReadFile(path)
		x.Assert(err != nil, "ReadFile(%s), which does not exist, succeeded", path)
		_, err = d.Readdir(path)
		x.Assert(err != nil, "Readdir(%s), which does not exist, succeeded", path)
		st, err := d.Stat(path)
		x.Assert(err != nil, "Stat(%s), which does not exist, gave %+v, %v", path, st, err)
		st, err = d.Lstat(path)
		x.Assert(err != nil, "Lstat(%s), which does not exist, gave %+v, %v", path, st, err)
		return
	}
	var first fat.ClusterID
	if raw != nil {
		first = rawFirst(raw)
	}
	if isDir {
		v.checkList(d, path, first)
		_, err := d.ReadFile(path)
		x.Assert(err != nil, "ReadFile(%s), a directory, succeeded", path)
		st, err := d.Stat(path)
		x.Assert(err == nil && st.IsDir() && (raw == nil || st.InodeNumber == uint64(first)), "Stat(%s), a directory: %+v, %v", path, st, err)
		l, err := d.Lstat(path)
		x.Assert(err == nil && l == st, "Lstat(%s) gave %+v, %v, and Stat %+v", path, l, err, st)
		return
	}
	size := int(raw[28]) | int(raw[29])<<8 | int(raw[30])<<16 | int(raw[31])<<24
	v.checkRead(d, path, first, size)
	_, err := d.Readdir(path)
	x.Assert(err != nil, "Readdir(%s), a file, succeeded", path)
	st, err := d.Stat(path)
	x.Assert(err == nil && st.Size == int64(size) && st.InodeNumber == uint64(first), "Stat(%s): %+v, %v", path, st, err)
	l, err := d.Lstat(path)
	x.Assert(err == nil && l == st, "Lstat(%s) gave %+v, %v, and Stat %+v", path, l, err, st)
}

func put(b []byte, entries ...[]byte) {
	for i := range b {
		b[i] = 0
	}
	for i, e := range entries {
		copy(b[i*32:], e)
	}
}

// tree builds a volume with nested directories that share names:
//
//	/A (3 clusters)  /E (empty)  /D (2 clusters)/A  /D/S/A  /D/S/LONGNAME.TXT  /X.Y
//
// spread over the clusters with a rotation.
func tree(x *core.X, k kind, bps, spc, rot int) *vol {
	const n = 12
	v := newVol(x, k, bps, spc, 5, n)
	if rot%2 == 1 && bps*spc < 4096 {
		v.number(scattered(k, n))
	}
	at := func(i int) fat.ClusterID { return v.ids[(i*5+rot)%n] }
	link := func(ids ...int) fat.ClusterID {
		for i, id := range ids {
			v.table[at(id)] = k.eocHigh
			if i+1 < len(ids) {
				v.table[at(id)] = at(ids[i+1])
			}
		}
		return at(ids[0])
	}
	for _, c := range v.ids {
		v.table[c] = 0
	}
	size := bps * spc
	rootA := link(0, 1, 2)
	dirD := link(3, 4)
	dA := link(5, 6)
	dirS := link(7)
	sA := link(8)
	sL := link(9, 10)
	v.root = nil
	deleted := entry("\xe5", "", 0x20, rootA, 9)
	deleted[13] = 'A'
	v.root = append(v.root, deleted...)
	v.root = append(v.root, entry("A", "", 0x20, rootA, 2*size+1)...)
	v.root = append(v.root, entry("E", "", 0x21, 0, 0)...)
	v.root = append(v.root, entry("D", "", 0x10, dirD, 0)...)
	v.root = append(v.root, entry("X", "Y", 0x06, at(11), size)...)
	v.table[at(11)] = k.eocLow
	per := size / 32
	list := [][]byte{entry(".", "", 0x10, dirD, 0), entry("..", "", 0x10, 0, 0)}
	for len(list) < per-1 {
		list = append(list, entry(fmt.Sprintf("F%d", len(list)), "", 0x20, 0, 0))
	}
	list = append(list, entry("S", "", 0x10, dirS, 0))
	put(v.cluster(at(3)), list...)
	gone := entry("\xe5", "", 0x20, sA, 5)
	gone[13] = 'A'
	put(v.cluster(at(4)), gone, entry("A", "", 0x20, dA, size+size/2))
	put(v.cluster(at(7)), entry(".", "", 0x10, dirS, 0), entry("..", "", 0x10, dirD, 0), entry("A", "", 0x20, sA, 1))
	if per > 3 {
		put(v.cluster(at(7)), entry(".", "", 0x10, dirS, 0), entry("..", "", 0x10, dirD, 0), entry("A", "", 0x20, sA, 1), entry("LONGNAME", "TXT", 0x20, sL, 2*size))
	}
	return v
}

var treePaths = [][]string{{}, {"A"}, {"D"}, {"D", "A"}, {"D", "S"}, {"D", "S", "A"}, {"D", "S", "LONGNAME.TXT"}, {"E"}, {"X.Y"}, {"A", "A"}, {"D", "E"}, {"B"}, {"D", "S", "B"}, {"D", "F2"}}

var spellings = []func(string) string{
	func(s string) string { return "/" + s },
	func(s string) string { return s },
	func(s string) string { return "/./" + s },
	func(s string) string { return "//" + s + "/" },
	func(s string) string { return "/D/../" + s },
	func(s string) string { return "/../" + s + "/." },
}

func join(comps []string) string {
	s := ""
	for i, c := range comps {
		if i > 0 {
			s += "/"
		}
		s += c
	}
	return s
}

func fileParts(thorough bool) []*core.Part {
	n, dirN := 4, 3
	if thorough {
		n, dirN = 5, 4
	}
	seqDepth := 3
	if thorough {
		seqDepth = 4
	}
	return []*core.Part{
		{Name: "layouts", Bounds: fmt.Sprintf("all chains (ordered selections) of up to %d of %d clusters (numbered from 2, or scattered up to the last possible number), every file size from 0 to past the end, ReadFile and then Remove", n, n), Body: func(x *core.X) {
			k := core.Pick(x, "variant", kinds...)
			length := x.Choose(n+1, "clusters")
			v := newVol(x, k, 32, 1, 2, n)
			if x.Bool("scattered cluster numbers") {
				v.number(scattered(k, n))
			}
			free := append([]fat.ClusterID{}, v.ids...)
			var list []fat.ClusterID
			for i := 0; i < length; i++ {
				j := x.Choose(len(free), "next cluster")
				list = append(list, free[j])
				free = append(append([]fat.ClusterID{}, free[:j]...), free[j+1:]...)
			}
			x.Begin()
			for size := 0; size <= (length+1)*32+1; size++ {
				for _, c := range v.ids {
					v.table[c] = k.bad // must not be touched
				}
				first := fat.ClusterID(0)
				for i, c := range list {
					v.table[c] = k.eocLow
					if i == 0 {
						first = c
					} else {
						v.table[list[i-1]] = c
					}
				}
				v.root = append(entry("G", "", 0x20, 0, 0), entry("F", "EXT", 0x20, first, size)...)
				d := driver(x, v, image{v})
				if length > 0 || size == 0 {
					v.checkRead(d, "/F.EXT", first, size)
				}
				v.checkRemove(d, "/F.EXT", 0, "F.EXT")
				v.checkPath(d, "/F.EXT", "F.EXT")
			}
		}},
		{Name: "directory contents", Bounds: fmt.Sprintf("directories of 1 to %d clusters of 2 entries: every entry a file, deleted, a directory, or the end mark, at every position", dirN), Body: func(x *core.X) {
			length := 1 + x.Choose(dirN, "clusters - 1")
			v := newVol(x, kinds[0], 64, 1, 2, dirN)
			reverse := x.Bool("clusters in descending order")
			x.Begin()
			first := fat.ClusterID(0)
			for i := 0; i < length; i++ {
				c, next := fat.ClusterID(2+i), fat.ClusterID(3+i)
				if reverse {
					c, next = fat.ClusterID(dirN+1-i), fat.ClusterID(dirN-i)
				}
				if i == 0 {
					first = c
				}
				if i+1 == length {
					next = v.kind.eocHigh
				}
				v.table[c] = next
				for j := 0; j < 2; j++ {
					var e []byte
					switch x.Choose(4, "file, deleted, directory, end") {
					case 0:
						e = entry(fmt.Sprintf("F%d%d", i, j), "", 0x20, 0, 0)
					case 1:
						e = entry(fmt.Sprintf("\xe5%d%d", i, j), "", 0x20, 2, 7)
						e[13] = 'F'
					case 2:
						e = entry(fmt.Sprintf("D%d%d", i, j), "EX", 0x10, 3, 0)
					case 3:
						e = make([]byte, 32)
					}
					copy(v.cluster(c)[j*32:], e)
				}
			}
			v.root = entry("D", "", 0x10, first, 0)
			v.checkList(driver(x, v, image{v}), "/D", first)
		}},
		{Name: "directory sizes", Bounds: "directories with 0 to 70 entries in clusters of 512 or 1024 bytes, with and without an end mark; every entry can be found, read and removed", Body: func(x *core.X) {
			spc := 1 + x.Choose(2, "sectors per cluster - 1")
			count := x.Choose(71, "entries")
			x.Begin()
			const n = 12
			v := newVol(x, kinds[2], 512, spc, 9, n)
			per := 16 * spc
			clusters := max(1, (count+per-1)/per)
			for i := 0; i < clusters; i++ {
				c := fat.ClusterID(2 + (i+4)%n)
				v.table[c] = fat.ClusterID(2 + (i+5)%n)
				put(v.cluster(c))
				for j := i * per; j < min(count, (i+1)*per); j++ {
					copy(v.cluster(c)[(j-i*per)*32:], entry(fmt.Sprintf("FILE%d", j), "X", 0x20, 2, j+1))
				}
			}
			v.table[fat.ClusterID(2+(clusters+3)%n)] = v.kind.eocHigh
			v.table[2] = v.kind.eocHigh
			v.root = entry("DIR", "", 0x10, 6, 0)
			d := driver(x, v, image{v})
			v.checkList(d, "/DIR", 6)
			for j := 0; j < count; j++ {
				v.checkRead(d, fmt.Sprintf("/DIR/FILE%d.X", j), 2, j+1)
			}
			v.checkPath(d, fmt.Sprintf("/DIR/FILE%d.X", count), "DIR", fmt.Sprintf("FILE%d.X", count))
			if count > 0 {
				name := fmt.Sprintf("FILE%d.X", count-1)
				v.checkRemove(d, "/DIR/"+name, 0, "DIR", name)
				v.checkList(d, "/DIR", 6)
			}
		}},
		{Name: "large directories", Bounds: "directories with 64 to 4100 entries (18 counts) in clusters of 512, 2048 or 32768 bytes: listed; the first, middle and last entries, those at multiples of 64 and a missing one are looked up; one of them is removed", Body: func(x *core.X) {
			spc := core.Pick(x, "sectors per cluster", 1, 4, 64)
			count := core.Pick(x, "entries", 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1024, 1025, 2049, 4100)
			gone := core.Pick(x, "removed", 0, count/2, count-1)
			x.Begin()
			per := 16 * spc
			n := (count+per-1)/per + 1
			v := newVol(x, kinds[1], 512, spc, 9, n)
			for i := 0; i < n-1; i++ {
				c := fat.ClusterID(2 + i)
				v.table[c] = c + 1
				put(v.cluster(c))
				for j := i * per; j < min(count, (i+1)*per); j++ {
					copy(v.cluster(c)[(j-i*per)*32:], entry(fmt.Sprintf("FILE%d", j), "X", 0x20, fat.ClusterID(n+1), j%500+1))
				}
			}
			v.table[fat.ClusterID(n)] = v.kind.eocHigh
			v.table[fat.ClusterID(n+1)] = v.kind.eocHigh
			v.root = entry("DIR", "", 0x10, 2, 0)
			d := driver(x, v, image{v})
			v.checkList(d, "/DIR", 2)
			for _, j := range []int{0, 1, 15, 16, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, count / 2, count - 2, count - 1} {
				if j < count {
					v.checkRead(d, fmt.Sprintf("/DIR/FILE%d.X", j), fat.ClusterID(n+1), j%500+1)
				}
			}
			v.checkPath(d, fmt.Sprintf("/DIR/FILE%d.X", count), "DIR", fmt.Sprintf("FILE%d.X", count))
			name := fmt.Sprintf("FILE%d.X", gone)
			v.checkRemove(d, "/DIR/"+name, 0, "DIR", name)
			v.checkList(d, "/DIR", 2)
		}},
		{Name: "deep directories", Bounds: "a file 1 to 40, 63-65, 99-101, 127-129, 255-257 directories deep (equal or different names, dot entries or not), paths of up to 60 KB: status, listings and contents at the top, the middle and the bottom; the file is removed", Body: func(x *core.X) {
			depths := []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257}
			depth := 1 + x.Choose(40+len(depths), "depth")
			if depth > 40 {
				depth = depths[depth-41]
			}
			same := x.Bool("equal names")
			dots := x.Bool("dot entries")
			spell := x.Choose(len(spellings)+1, "spelling")
			x.Begin()
			v := newVol(x, kinds[1+depth%2], 128, 1, 9, depth+2)
			name := func(i int) string {
				if same {
					return "DIR"
				}
				return fmt.Sprintf("DIR%d", i)
			}
			v.root = entry(name(0), "", 0x10, 2, 0)
			var comps []string
			for i := 0; i < depth; i++ {
				c := fat.ClusterID(2 + i)
				v.table[c] = v.kind.eocHigh
				comps = append(comps, name(i))
				var es [][]byte
				if dots {
					es = append(es, entry(".", "", 0x10, c, 0), entry("..", "", 0x10, max(c-1, 2)*b2c(i > 0), 0))
				}
				if i < depth-1 {
					es = append(es, entry(name(i+1), "", 0x10, c+1, 0))
				}
				f := fat.ClusterID(2 + depth)
				if i < depth-1 {
					f++
				}
				put(v.cluster(c), append(es, entry("F", "", 0x20, f, 30+i%64))...)
			}
			v.table[fat.ClusterID(2+depth)] = v.kind.eocHigh
			v.table[fat.ClusterID(3+depth)] = v.kind.eocHigh
			d := driver(x, v, image{v})
			at := func(l []string) string {
				p := join(l)
				if spell == len(spellings) {
					return strings.Repeat("/./", 10000) + p + strings.Repeat("/.", 10000)
				}
				if p = spellings[spell](p); p == "" {
					p = "/"
				}
				return p
			}
			for _, n := range []int{0, 1, depth / 2, depth - 1, depth} {
				dir := comps[:n:n]
				v.checkPath(d, at(dir), dir...)
				v.checkPath(d, at(append(dir, "F")), append(dir, "F")...)
				v.checkPath(d, at(append(dir, "G")), append(dir, "G")...)
			}
			f := append(comps[:depth:depth], "F")
			v.checkRemove(d, at(f), 0, f...)
			v.checkPath(d, at(f), f...)
		}},
		{Name: "paths", Bounds: "every path of a tree with equal names at three levels, in 6 spellings, on 3 FAT variants and 3 cluster sizes, with 4 cluster placements (2 of them over cluster numbers up to the last possible): read, list, remove", Body: func(x *core.X) {
			k := core.Pick(x, "variant", kinds...)
			dim := core.Pick(x, "sector size and sectors per cluster", [2]int{96, 1}, [2]int{512, 1}, [2]int{512, 4})
			rot := x.Choose(4, "placement")
			comps := core.Pick(x, "path", treePaths...)
			spell := x.Choose(len(spellings), "spelling")
			x.Begin()
			v := tree(x, k, dim[0], dim[1], rot)
			d := driver(x, v, image{v})
			p := spellings[spell](join(comps))
			if p == "" {
				p = "/"
			}
			v.checkPath(d, p, comps...)
			v.checkRemove(d, p, 0, comps...)
			for _, c := range treePaths {
				v.checkPath(d, "/"+join(c), c...)
			}
		}},
		{Name: "sequences", Bounds: fmt.Sprintf("all sequences of %d reads, listings and removals of 7 paths on two volumes at once, one of them with scattered cluster numbers; everything compared after the last", seqDepth), Body: func(x *core.X) {
			op := x.Choose(28, "operation")
			x.Begin()
			vs := []*vol{tree(x, kinds[0], 96, 1, 0), tree(x, kinds[2], 512, 1, 3)}
			ds := []*fat.FATDriver{driver(x, vs[0], image{vs[0]}), driver(x, vs[1], image{vs[1]})}
			paths := [][]string{{"A"}, {"D", "A"}, {"D", "S", "A"}, {"D"}, {"D", "S"}, {"E"}, {"B"}}
			for i := 0; i < seqDepth; i++ {
				if i > 0 {
					op = x.Choose(28, "operation")
				}
				which := op % 2
				comps := paths[op/4]
				if op/2%2 == 0 {
					vs[which].checkPath(ds[which], "/"+join(comps), comps...)
				} else {
					vs[which].checkRemove(ds[which], "/"+join(comps), 0, comps...)
				}
			}
			for i, v := range vs {
				v.deleted, v.freed = nil, nil
				for _, c := range treePaths {
					v.checkPath(ds[i], "/"+join(c), c...)
				}
			}
		}},
		{Name: "failing removals", Budget: 1, Bounds: "removing every path of the tree, one failure at every access to the root, the table, the image, the entry and the clusters", Body: func(x *core.X) {
			comps := core.Pick(x, "path", treePaths[1:]...)
			x.Begin()
			v := tree(x, kinds[0], 96, 1, 1)
			v.faulty = true
			d := driver(x, v, image{v})
			v.checkRemove(d, "/"+join(comps), 0, comps...)
		}},
		{Name: "broken chains", Bounds: fmt.Sprintf("removing a file over all %d-cluster tables and first clusters", dirN), Body: func(x *core.X) {
			v := newVol(x, kinds[1], 32, 1, 2, dirN)
			start := core.Pick(x, "first cluster", v.starts()...)
			v.chooseTable()
			x.Begin()
			v.root = append(entry("G", "", 0x20, 2, 9), entry("F", "", 0x20, start, 30)...)
			d := driver(x, v, image{v})
			v.checkRemove(d, "/F", 0, "F")
		}},
	}
}

func b2c(b bool) fat.ClusterID {
	if b {
		return 1
	}
	return 0
}
