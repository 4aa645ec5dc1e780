package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
	core "github.com/dargueta/disko/zzverif/core"
)

// values are the table values a chain can meet.
func (v *vol) values() []fat.ClusterID {
	var l []fat.ClusterID
	l = append(l, v.ids...)
	l = append(l, v.kind.eocHigh, v.kind.eocLow, 0, 1, v.kind.bad)
	if v.last()+1 != v.kind.bad {
		l = append(l, v.last()+1)
	}
	return l
}

func (v *vol) chooseTable() {
	for _, c := range v.ids {
		v.table[c] = core.Pick(v.x, fmt.Sprintf("table entry %d", c), v.values()...)
	}
}

func (v *vol) starts() []fat.ClusterID {
	l := v.values()
	for _, c := range []fat.ClusterID{v.kind.bad - 1, v.kind.bad - 7} {
		if _, ok := v.slots[c]; !ok && c > v.last() {
			l = append(l, c)
		}
	}
	return l
}

// checkRead reads /F and compares with the model.
func (v *vol) checkRead(d *fat.FATDriver, path string, start fat.ClusterID, size int) {
	x := v.x
	x.T()
	got, err := d.ReadFile(path)
	want, ok := v.content(start, size)
	_, intact := v.chain(start)
	if v.failed {
		x.Assert(err != nil, "a failure was not reported: ReadFile(%s) gave %d bytes", path, len(got))
		x.Assert(errors.Is(err, errInjected), "ReadFile(%s) reported %v for a failed access", path, err)
		return
	}
	if !ok {
		x.Assert(err != nil, "ReadFile(%s) gave %d bytes of a file of %d bytes whose chain from %#x is broken or too short (table %v)", path, len(got), size, start, v.table)
		if v.IsValidCluster(start) && !intact {
			x.Assert(errors.Is(err, disko.ErrFileSystemCorrupted), "ReadFile(%s) reports a broken chain as %v", path, err)
		}
		return
	}
	x.Assert(err == nil, "ReadFile(%s): %v (size %d, chain from %#x, table %v)", path, err, size, start, v.table)
	x.Assert(bytes.Equal(got, want), "ReadFile(%s) gave wrong bytes: %d of them, want %d; first difference at %d (chain from %#x, table %v)", path, len(got), len(want), diff(got, want), start, v.table)
}

func diff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// checkList lists a directory and compares with the model.
func (v *vol) checkList(d *fat.FATDriver, path string, start fat.ClusterID) {
	x := v.x
	x.T()
	infos, err := d.Readdir(path)
	want, intact := v.list(start)
	if v.failed {
		x.Assert(err != nil, "a failure was not reported: Readdir(%s) gave %d entries", path, len(infos))
		x.Assert(errors.Is(err, errInjected), "Readdir(%s) reported %v for a failed access", path, err)
		return
	}
	if !intact {
		x.Assert(err != nil, "Readdir(%s) gave %d entries of a directory whose chain from %#x is broken (table %v)", path, len(infos), start, v.table)
		if v.IsValidCluster(start) {
			x.Assert(errors.Is(err, disko.ErrFileSystemCorrupted), "Readdir(%s) reports a broken chain as %v", path, err)
		}
		return
	}
	if v.IsEndOfChain(start) && err != nil {
		return // a directory without clusters
	}
	x.Assert(err == nil, "Readdir(%s): %v (chain from %#x, table %v)", path, err, start, v.table)
	x.Assert(len(infos) == len(want), "Readdir(%s) gave %d entries, want %d (chain from %#x, table %v)", path, len(infos), len(want), start, v.table)
	for i, fi := range infos {
		b := want[i]
		de, ok := fi.(fat.Dirent)
		if p, isPtr := fi.(*fat.Dirent); isPtr {
			de, ok = *p, true
		}
		x.Assert(fi.Name() == rawName(b) && (!ok || de.FirstCluster == rawFirst(b)) && fi.IsDir() == (b[11]&16 != 0),
			"entry %d of Readdir(%s) is %q (%v), want %q in cluster %d", i, path, fi.Name(), fi.Mode(), rawName(b), rawFirst(b))
		checkDirent(x, v.bs, b)
		if ok {
			checkFields(x, v.bs, b, de)
		}
	}
}

// fillDirs makes every cluster a full part of a directory.
func (v *vol) fillDirs() {
	for n, c := range v.ids {
		b := v.cluster(c)
		for i := 0; i+32 <= len(b); i += 32 {
			copy(b[i:], entry(fmt.Sprintf("C%dE%d", n, i/32), "DIR", 0x20, c, i))
		}
	}
}

// far is an image that can be read anywhere: every byte tells its offset.
type far struct{ size int64 }

func (f far) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 || off >= f.size {
		return 0, io.EOF
	}
	n := len(p)
	if int64(n) > f.size-off {
		n = int(f.size - off)
	}
	for i := 0; i < n; i++ {
		p[i] = farByte(off + int64(i))
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func farByte(off int64) byte {
	u := uint64(off) * 0x9e3779b97f4a7c15
	return byte(u >> 56)
}

// farVol is a volume with huge cluster numbers.
type farVol struct {
	*vol
	last fat.ClusterID
}

func (v *farVol) IsValidCluster(c fat.ClusterID) bool { return c >= 2 && c <= v.last }

func chainParts(thorough bool) []*core.Part {
	n := 4
	if thorough {
		n = 5
	}
	var small []*core.Part
	for _, k := range kinds {
		small = append(small, &core.Part{Name: "files on " + k.name, Bounds: fmt.Sprintf("all %d-cluster tables (numbered from 2, or scattered up to the last possible number) whose entries are any cluster, two end marks, free, reserved, bad, or just past the end; every first cluster; sizes around every cluster boundary", n), Body: func(x *core.X) {
			v := newVol(x, k, 64, 1, 3, n)
			if x.Bool("scattered cluster numbers") {
				v.number(scattered(k, n))
			}
			start := core.Pick(x, "first cluster", v.starts()...)
			v.chooseTable()
			x.Begin()
			for size := 1; size <= (n+1)*64+1; size++ {
				if m := size % 64; m > 1 && m < 63 && m != 31 {
					continue
				}
				v.root = entry("F", "", 0x20, start, size)
				d := driver(x, v, image{v})
				v.checkRead(d, "/F", start, size)
			}
		}})
		small = append(small, &core.Part{Name: "directories on " + k.name, Bounds: fmt.Sprintf("all %d-cluster tables as for files, every first cluster, directories whose clusters are all full", n), Body: func(x *core.X) {
			v := newVol(x, k, 64, 1, 3, n)
			if x.Bool("scattered cluster numbers") {
				v.number(scattered(k, n))
			}
			start := core.Pick(x, "first cluster", v.starts()...)
			if start == 0 {
				x.Abandon() // the root
			}
			v.chooseTable()
			x.Begin()
			v.fillDirs()
			v.root = entry("D", "", 0x10, start, 0)
			d := driver(x, v, image{v})
			v.checkList(d, "/D", start)
			// A file in the directory: the directory's chain is followed to find it.
			if list, ok := v.chain(start); ok && len(list) > 0 {
				last := list[len(list)-1]
				b := v.cluster(last)[32:]
				copy(b, entry("LAST", "", 0x20, last, 40))
				v.checkRead(d, "/D/LAST", last, 40)
			}
		}})
	}
	return append(small,
		&core.Part{Name: "real cluster sizes", Bounds: "volumes of 3 clusters of 512 to 32768 bytes (all sector sizes), all tables, files of 2 clusters and a byte; image ends with or without EOF", Body: func(x *core.X) {
			bps := core.Pick(x, "sector size", 512, 1024, 2048, 4096)
			spc := 1 << x.Choose(7, "log2 sectors per cluster")
			if bps*spc > 32768 {
				x.Abandon()
			}
			v := newVol(x, kinds[1], bps, spc, core.Pick(x, "first data sector", 1, 2, 33), 3)
			v.eof = x.Bool("image reports EOF with its last byte")
			for c := fat.ClusterID(2); c <= 4; c++ {
				v.table[c] = core.Pick(x, fmt.Sprintf("table entry %d", c), 2, 3, 4, kinds[1].eocHigh, 0)
			}
			x.Begin()
			for start := fat.ClusterID(2); start <= 4; start++ {
				for _, size := range []int{1, bps, bps*spc - 1, bps * spc, bps*spc + 1, 2*bps*spc + 1, 3 * bps * spc} {
					v.root = entry("F", "", 0x20, start, size)
					v.checkRead(driver(x, v, image{v}), "/F", start, size)
				}
			}
		}},
		&core.Part{Name: "long chains", Bounds: "chains of 1 to 300 clusters: ascending, descending, strided; intact, ending in a free cluster, and with a loop back to any of 4 places", Body: func(x *core.X) {
			length := 1 + x.Choose(300, "length - 1")
			order := x.Choose(3, "ascending, descending, strided")
			end := x.Choose(6, "end mark, free, loop to the start, middle, the one before, itself")
			x.Begin()
			v := newVol(x, kinds[1], 32, 1, 2, 307)
			list := make([]fat.ClusterID, length)
			for i := range list {
				switch order {
				case 0:
					list[i] = fat.ClusterID(2 + i)
				case 1:
					list[i] = fat.ClusterID(308 - i)
				case 2:
					list[i] = fat.ClusterID(2 + i*101%307)
				}
			}
			for i := range list[:length-1] {
				v.table[list[i]] = list[i+1]
			}
			v.table[list[length-1]] = []fat.ClusterID{v.kind.eocHigh, 0, list[0], list[length/2], list[(length-1)*9/10], list[length-1]}[end]
			for _, size := range []int{1, length * 32, length*32 + 1, length*32 - 1} {
				if size == 0 {
					continue
				}
				v.root = entry("F", "", 0x20, list[0], size)
				v.checkRead(driver(x, v, image{v}), "/F", list[0], size)
			}
			v.fillDirs()
			v.root = entry("D", "", 0x10, list[0], 0)
			v.checkList(driver(x, v, image{v}), "/D", list[0])
		}},
		&core.Part{Name: "very long chains", Bounds: "chains of 511-513, 1000, 4084-4097, 8192, 65524 (FAT16: all clusters), 65535-65540, 100000 clusters, ascending or strided; intact, ending in a free cluster, or with a loop", Body: func(x *core.X) {
			lengths := []int{511, 512, 513, 1000, 1024, 1025, 2049, 4084, 4085, 4096, 4097, 8192, 16385, 32767, 32769, 65525, 65535, 65536, 65537, 65540, 100000}
			length := core.Pick(x, "length", lengths...)
			stride := core.Pick(x, "stride", 1, 641)
			end := x.Choose(5, "end mark, free, loop to the start, middle, itself")
			dir := x.Bool("a directory")
			x.Begin()
			k := kinds[2]
			if length <= 65525 {
				k = kinds[1]
			}
			if dir && length > 9000 {
				x.Abandon()
			}
			v := newVol(x, k, 32, 1, 2, length)
			list := make([]fat.ClusterID, length)
			seen := map[int]bool{}
			for i, at := 0, 0; i < length; i++ {
				for seen[at] {
					at = (at + 1) % length
				}
				seen[at] = true
				list[i] = fat.ClusterID(2 + at)
				at = (at + stride) % length
			}
			for i := range list[:length-1] {
				v.table[list[i]] = list[i+1]
			}
			v.table[list[length-1]] = []fat.ClusterID{v.kind.eocHigh, 0, list[0], list[length/2], list[length-1]}[end]
			if dir {
				v.fillDirs()
				v.root = entry("D", "", 0x10, list[0], 0)
				v.checkList(driver(x, v, image{v}), "/D", list[0])
				return
			}
			for _, size := range []int{length * 32, length*32 + 1, 1} {
				v.root = entry("F", "", 0x20, list[0], size)
				v.checkRead(driver(x, v, image{v}), "/F", list[0], size)
			}
		}},
		&core.Part{Name: "far clusters", Bounds: "two-cluster files at cluster numbers to 2^28 with every cluster and sector size, as long as the volume has at most 2^32 sectors", Body: func(x *core.X) {
			bps := core.Pick(x, "sector size", 512, 1024, 2048, 4096)
			spc := 1 << x.Choose(7, "log2 sectors per cluster")
			first := core.Pick(x, "first data sector", 33, 65535, 1<<20+1)
			if bps*spc > 32768 {
				x.Abandon()
			}
			last := min(0x0FFFFFF6, (1<<32-1-int64(first))/int64(spc)+1)
			a := fat.ClusterID(core.Pick(x, "first cluster", 2, 4084, 65524, 65536, 1<<20, 1<<24, last/2, last-1, last))
			b := fat.ClusterID(core.Pick(x, "second cluster", 3, 32767, 65537, 1<<24+1, last/2+1, last-2))
			x.Begin()
			if int64(a) > last || int64(b) > last || a == b {
				return
			}
			v := &farVol{newVol(x, kinds[2], bps, spc, first, 2), fat.ClusterID(last)}
			v.bs.TotalClusters = uint(last - 1)
			v.bs.TotalDataSectors = uint(last-1) * uint(spc)
			v.table = map[fat.ClusterID]fat.ClusterID{a: b, b: v.kind.eocHigh}
			size := bps*spc*2 - 3
			v.root = entry("F", "", 0x20, a, size)
			x.T()
			got, err := driver(x, v, far{(int64(first) + (last-1)*int64(spc)) * int64(bps)}).ReadFile("/F")
			x.Assert(err == nil && len(got) == size, "ReadFile of clusters %#x, %#x gave %d bytes, %v", a, b, len(got), err)
			for i, c := range []fat.ClusterID{a, b} {
				off := (int64(first) + (int64(c)-2)*int64(spc)) * int64(bps)
				for j := 0; j < bps*spc && i*bps*spc+j < size; j += 61 {
					if got[i*bps*spc+j] != farByte(off+int64(j)) {
						x.Fail("cluster %#x was not read from byte %d (byte %d differs)", c, off, j)
					}
				}
			}
		}},
		&core.Part{Name: "failing accesses", Budget: 1, Bounds: "files and directories over all 3-cluster tables, one failure at every access to the table, the root or the image", Body: func(x *core.X) {
			v := newVol(x, kinds[0], 64, 1, 3, 3)
			start := core.Pick(x, "first cluster", fat.ClusterID(2), 3)
			v.chooseTable()
			dir := x.Bool("a directory")
			x.Begin()
			v.faulty = true
			if dir {
				v.fillDirs()
				v.root = entry("D", "", 0x10, start, 0)
				v.checkList(driver(x, v, image{v}), "/D", start)
				return
			}
			v.root = entry("F", "", 0x20, start, 130)
			v.checkRead(driver(x, v, image{v}), "/F", start, 130)
		}},
	)
}
