package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"strings"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"
	core "github.com/dargueta/disko/zzverif/core"
)

func supported(n int64) (medium, bool) {
	for _, m := range media {
		if n == int64(m.wholeSize) {
			return m, true
		}
	}
	return medium{}, false
}

// ---- C19 ----

func checkFormatStats(x *core.X, d *fat8.FAT8Driver, m medium) {
	x.T()
	st := d.FSStat()
	free := uint64(m.freeEntries(m.blank()) * m.perCluster())
	x.Assert(st.BlockSize == 128, "block size %d after formatting", st.BlockSize)
	x.Assert(st.TotalBlocks == uint64(m.sectors), "%d blocks reported after formatting %s", st.TotalBlocks, m.name)
	x.Assert(st.BlocksFree == free && st.BlocksAvailable == free, "%d free and %d available blocks reported, the tables say %d", st.BlocksFree, st.BlocksAvailable, free)
	x.Assert(st.Files == 0, "%d files on a fresh volume", st.Files)
	x.Assert(st.MaxNameLength == 10, "names of up to %d bytes reported, stem, period and extension take up to 10", st.MaxNameLength)
	entries := uint64((m.info() - m.dirStart()) * 8)
	x.Assert(st.FilesFree == entries, "%d free directory entries reported, the layout has %d", st.FilesFree, entries)
}

var oldContents = []string{"empty", "one sector", "shorter", "same size", "longer"}

func oldContent(k int, n int) []byte {
	switch k {
	case 0:
		return nil
	case 1:
		return pattern(128, 1)
	case 2:
		return pattern(n-129, 2)
	case 3:
		return pattern(n, 3)
	default:
		return pattern(n+1000, 4)
	}
}

func formatParts(thorough bool) []*core.Part {
	limit := 300
	if thorough {
		limit = 1200
	}
	odd := []int64{-1, -128, -81920, -242944, math.MinInt64, math.MinInt64 + 81920, math.MaxInt64, math.MaxInt64 - 127,
		1<<32 + 81920, 1<<32 + 242944, 1<<32 + 256256, 1 << 39, 1<<39 + 81920, 1<<39 + 242944, 1<<31 + 81920, 65536*128 + 81920, 65536*128 + 242944, 256 * 81920, 163840, 737280}
	depth := 3
	if thorough {
		depth = 5
	}
	return []*core.Part{
		sessions(map[bool]int{false: 1100, true: 5000}[thorough]),
		failingFormats(),
		{Name: "sizes", Bounds: fmt.Sprintf("every size in bytes from 0 to %d, formatting a file with old content", limit*1024), Body: func(x *core.X) {
			k := x.Choose(limit, "size / 1024")
			x.Begin()
			old := pattern(700, 9)
			f := load(0, old)
			for n := int64(k) * 1024; n < int64(k+1)*1024; n++ {
				d := fat8.NewDriverFromFile(f)
				x.T()
				err := d.FormatImage(size(n))
				m, ok := supported(n)
				x.Assert(ok == (err == nil), "formatting %d bytes: %v", n, err)
				if ok {
					same(x, f, m.blank(), "formatted "+m.name)
					f = load(0, old)
				} else if n%128 == 0 {
					same(x, f, old, fmt.Sprintf("refused format of %d bytes", n))
				}
			}
			same(x, f, old, "refused formats")
		}},
		{Name: "unusual sizes", Bounds: fmt.Sprintf("sizes %v", odd), Body: func(x *core.X) {
			n := core.Pick(x, "size", odd...)
			x.Begin()
			old := pattern(81920, 9)
			f := load(0, old)
			d := fat8.NewDriverFromFile(f)
			x.T()
			err := d.FormatImage(size(n))
			x.Assert(err != nil, "formatting %d bytes succeeded", n)
			same(x, f, old, fmt.Sprintf("refused format of %d bytes", n))
		}},
		{Name: "format sequences", Bounds: fmt.Sprintf("initial content of 5 kinds, then all sequences of %d formats (3 media, 2 refused sizes, by the same driver or a new one), mounts, flushes, unmounts; the image is compared after every step", depth), Body: func(x *core.X) {
			start := core.Pick(x, "first medium", media...)
			k := x.Choose(5, "old content: "+strings.Join(oldContents, ", "))
			x.Begin()
			old := oldContent(k, start.wholeSize)
			f := load(0, old)
			d := fat8.NewDriverFromFile(f)
			isMounted := false
			formatted := false
			want := old
			for i := 0; i < depth; i++ {
				op := 0
				if i > 0 {
					op = x.Choose(8, "operation")
				}
				switch {
				case op == 0:
					x.T()
					err := d.FormatImage(size(start.wholeSize))
					if isMounted {
						x.Assert(err != nil, "formatting a mounted volume succeeded")
						break
					}
					x.Assert(err == nil, "formatting %s: %v", start.name, err)
					want = start.blank()
					formatted = true
					checkFormatStats(x, &d, start)
				case op <= 2:
					m := media[op]
					if i%2 == 1 {
						m = media[(op+1)%3]
					}
					x.T()
					err := d.FormatImage(disko.FSStat{BlockSize: 128, TotalBlocks: uint64(m.sectors)})
					if isMounted {
						x.Assert(err != nil, "formatting a mounted volume succeeded")
						break
					}
					x.Assert(err == nil, "formatting %s: %v", m.name, err)
					want = m.blank()
					formatted = true
					checkFormatStats(x, &d, m)
				case op == 3:
					x.T()
					err := d.FormatImage(size(core.Pick(x, "refused size", 81920+128, 256256-1)))
					x.Assert(err != nil, "formatting an unsupported size succeeded")
				case op == 4:
					if !formatted {
						x.Abandon()
					}
					x.T()
					err := d.Mount(disko.MountFlagsAllowAll)
					x.Assert((err == nil) == !isMounted, "mounting a formatted image (mounted: %v): %v", isMounted, err)
					isMounted = true
				case op == 5:
					x.T()
					if err := d.Flush(); isMounted {
						x.Assert(err == nil, "flushing: %v", err)
					}
				case op == 6:
					x.T()
					if err := d.Unmount(); isMounted {
						x.Assert(err == nil, "unmounting: %v", err)
					}
					isMounted = false
				case op == 7:
					if isMounted {
						x.Abandon()
					}
					d = fat8.NewDriverFromFile(f)
				}
				same(x, f, want, fmt.Sprintf("after step %d", i+1))
			}
		}},
		{Name: "unwritable images", Bounds: "3 media, image file opened read-only or already closed", Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			closed := x.Bool("closed file")
			x.Begin()
			old := pattern(m.wholeSize, 6)
			f := load(0, old)
			ro, err := os.Open(f.Name())
			must(err)
			if closed {
				ro.Close()
			} else {
				defer ro.Close()
			}
			d := fat8.NewDriverFromFile(ro)
			x.T()
			err = d.FormatImage(size(m.wholeSize))
			x.Assert(err != nil, "formatting an unwritable file succeeded")
			same(x, f, old, "failed format")
		}},
		{Name: "two volumes", Bounds: "two images formatted, mounted and flushed in every interleaving", Body: func(x *core.X) {
			a, b := core.Pick(x, "first medium", media...), core.Pick(x, "second medium", media...)
			x.Begin()
			ms := []medium{a, b}
			fs := []*os.File{load(0, pattern(500, 1)), load(1, pattern(900000, 2))}
			ds := []*fat8.FAT8Driver{}
			for _, f := range fs {
				d := fat8.NewDriverFromFile(f)
				ds = append(ds, &d)
			}
			at := [2]int{}
			for at[0] < 3 || at[1] < 3 {
				i := 0
				if at[0] == 3 {
					i = 1
				} else if at[1] < 3 {
					i = x.Choose(2, "volume")
				}
				x.T()
				var err error
				switch at[i] {
				case 0:
					err = ds[i].FormatImage(size(ms[i].wholeSize))
				case 1:
					err = ds[i].Mount(disko.MountFlagsAllowAll)
				case 2:
					err = ds[i].Flush()
				}
				x.Assert(err == nil, "volume %d, step %d: %v", i, at[i], err)
				at[i]++
				for j := range fs {
					if at[j] > 0 {
						same(x, fs[j], ms[j].blank(), fmt.Sprintf("volume %d", j))
					}
				}
			}
		}},
	}
}

// ---- C20 ----

func checkMountStats(x *core.X, d *fat8.FAT8Driver, m medium, img []byte) {
	x.T()
	st := d.FSStat()
	free := uint64(m.freeEntries(img) * m.perCluster())
	x.Assert(st.BlockSize == 128, "block size %d", st.BlockSize)
	x.Assert(st.TotalBlocks == uint64(m.sectors), "%d blocks reported for %s", st.TotalBlocks, m.name)
	x.Assert(st.BlocksFree == free && st.BlocksAvailable == free, "%d free and %d available blocks reported, the table says %d", st.BlocksFree, st.BlocksAvailable, free)
	x.Assert(st.MaxNameLength == 10, "names of up to %d bytes reported, stem, period and extension take up to 10", st.MaxNameLength)
}

func mountParts(thorough bool) []*core.Part {
	depth := 5
	patterns := []byte{0x01, 0x80, 0xFF}
	if thorough {
		depth = 7
		patterns = nil
		for i := 1; i < 256; i++ {
			patterns = append(patterns, byte(i))
		}
	}
	images := func(x *core.X, m medium) []byte {
		switch x.Choose(4, "image") {
		case 0:
			return m.blank()
		case 1:
			return m.used(1)
		case 2:
			return m.used(2)
		default:
			// Tables filled with one value that is not "free".
			img := m.used(3)
			for i := m.fatStart() * 128; i < (m.fatStart()+3*m.perFAT)*128; i++ {
				img[i] = 0
			}
			return img
		}
	}
	return []*core.Part{
		sessions(map[bool]int{false: 1100, true: 5000}[thorough]),
		failingMounts(),
		{Name: "flushing over damage", Bounds: "each medium: 5 bytes of every non-empty proper subset of the three tables are overwritten through the driver, then the volume is flushed 1-2 times", Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			subset := 1 + x.Choose(6, "damaged tables - 1")
			x.Begin()
			at := core.Pick(x, "byte", 0, 1, m.clusters()-1, 127, m.fatBytes()-1)
			times := 1 + x.Choose(2, "flushes - 1")
			img := m.used(5)
			f := load(0, img)
			d := fat8.NewDriverFromFile(f)
			x.T()
			x.Assert(d.Mount(disko.MountFlagsAllowAll) == nil, "mounting failed")
			for k := 0; k < 3; k++ {
				if subset>>k&1 == 1 {
					place := m.fatStart() + k*m.perFAT + at/128
					sector := append([]byte{}, img[place*128:place*128+128]...)
					sector[at%128] ^= 0x5A
					x.T()
					x.Assert(d.WriteDiskBlocks(fat8.PhysicalBlock(place), sector) == nil, "writing sector %d failed", place)
				}
			}
			for i := 0; i < times; i++ {
				x.T()
				err := d.Flush()
				x.Assert(err == nil, "flushing: %v", err)
			}
			same(x, f, img, "after flushing")
			x.T()
			got, err := d.GetFAT()
			x.Assert(err == nil && bytes.Equal(got, img[m.fatStart()*128:][:m.fatBytes()]), "the table was read wrong (%v)", err)
		}},
		{Name: "call sequences", Bounds: fmt.Sprintf("4 images of each medium; all sequences of up to %d mounts (3 flag sets), flushes, unmounts, format attempts while mounted, statistics and new drivers; the image is compared at the end", depth), Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			img := images(x, m)
			flags := core.Pick(x, "flags", disko.MountFlagsAllowAll, disko.MountFlagsAllowRead, 0)
			steps := 1 + x.Choose(depth, "steps - 1")
			x.Begin()
			f := load(0, img)
			d := fat8.NewDriverFromFile(f)
			isMounted := false
			for i := 0; i < steps; i++ {
				switch x.Choose(5, "operation") {
				case 0:
					x.T()
					err := d.Mount(flags)
					x.Assert((err == nil) == !isMounted, "step %d: mounting (mounted before: %v): %v", i, isMounted, err)
					isMounted = true
				case 1:
					x.T()
					err := d.Flush()
					x.Assert(err == nil || !isMounted, "step %d: flushing: %v", i, err)
				case 2:
					x.T()
					err := d.Unmount()
					x.Assert(err == nil || !isMounted, "step %d: unmounting: %v", i, err)
					isMounted = false
				case 3:
					if !isMounted {
						x.Abandon()
					}
					x.T()
					err := d.FormatImage(size(core.Pick(x, "size", m.wholeSize, media[0].wholeSize, 5)))
					x.Assert(err != nil, "step %d: formatting a mounted volume succeeded", i)
				case 4:
					if isMounted {
						x.Abandon()
					}
					d = fat8.NewDriverFromFile(f)
				}
				if isMounted {
					checkMountStats(x, &d, m, img)
				}
			}
			same(x, f, img, "after the sequence")
			x.Outcome(uint64(m.freeEntries(img)))
		}},
		{Name: "sizes", Bounds: "files of null bytes of every size from 0 to 2100 sectors, and of each of these plus 1, 64 or 127 bytes; and supported sizes plus 65536 sectors", Body: func(x *core.X) {
			s := x.Choose(2105, "sectors")
			if s > 2101 {
				s = 65536 + media[s-2102].sectors
			}
			x.Begin()
			n := int64(s)*128 + core.Pick[int64](x, "extra bytes", 0, 1, 64, 127)
			f := load(0, nil)
			must(f.Truncate(n))
			d := fat8.NewDriverFromFile(f)
			x.T()
			err := d.Mount(disko.MountFlagsAllowAll)
			_, ok := supported(n)
			x.Assert(ok == (err == nil), "mounting an image of %d bytes: %v", n, err)
			if !ok {
				x.T()
				d.Flush()
			}
			st, err := f.Stat()
			must(err)
			x.Assert(st.Size() == n, "the image has %d bytes now", st.Size())
		}},
		{Name: "damaged tables", Bounds: fmt.Sprintf("every byte of the tables of each medium changed in %d ways in every non-empty subset of the three tables (blank and used images)", len(patterns)), Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			blank := x.Bool("blank image")
			at := x.Choose(m.fatBytes(), "byte")
			x.Begin()
			img := m.used(7)
			if blank {
				img = m.blank()
			}
			subset := 1 + x.Choose(7, "tables")
			by := core.Pick(x, "change", patterns...)
			for k := 0; k < 3; k++ {
				if subset&(1<<k) != 0 {
					img[m.fatStart()*128+k*m.fatBytes()+at] ^= by
				}
			}
			f := load(0, img)
			d := fat8.NewDriverFromFile(f)
			x.T()
			err := d.Mount(disko.MountFlagsAllowAll)
			if subset == 7 {
				x.Assert(err == nil, "three identical tables: %v", err)
				checkMountStats(x, &d, m, img)
			} else {
				x.Assert(err != nil, "byte %d of tables (bit set %b) differs, but the volume mounts", at, subset)
				x.Assert(errors.Is(err, disko.ErrFileSystemCorrupted), "byte %d of tables (bit set %b) differs: %v is not file-system corruption", at, subset, err)
			}
			if at%16 == 0 {
				x.T()
				d.Unmount()
				same(x, f, img, "after mounting")
			}
			// Repairing the image makes it mountable again.
			if subset == 2 && at%16 == 0 {
				good := m.used(7)
				load(0, good)
				x.T()
				err = d.Mount(disko.MountFlagsAllowAll)
				x.Assert(err == nil, "mounting the repaired image: %v", err)
				checkMountStats(x, &d, m, good)
			}
		}},
		{Name: "tables damaged at two places", Bounds: "two of 12 positions in two different tables of each medium changed by the same or different values", Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			pos := []int{0, 1, 7, 33, 63, 64, 68, 100, 126, 127, m.fatBytes() - 2, m.fatBytes() - 1}
			a, b := core.Pick(x, "position 1", pos...), core.Pick(x, "position 2", pos...)
			x.Begin()
			t1, t2 := x.Choose(3, "table 1"), x.Choose(3, "table 2")
			if t1 == t2 {
				x.Abandon()
			}
			v1, v2 := core.Pick[byte](x, "value 1", 1, 0x7F, 0xFF), core.Pick[byte](x, "value 2", 1, 0x7F, 0xFF)
			img := m.used(7)
			img[m.fatStart()*128+t1*m.fatBytes()+a] ^= v1
			img[m.fatStart()*128+t2*m.fatBytes()+b] ^= v2
			f := load(0, img)
			d := fat8.NewDriverFromFile(f)
			x.T()
			err := d.Mount(disko.MountFlagsAllowAll)
			x.Assert(err != nil && errors.Is(err, disko.ErrFileSystemCorrupted), "tables %d and %d are damaged: %v", t1+1, t2+1, err)
		}},
		{Name: "statistics", Bounds: "each medium, tables with 0 to all clusters free: the first n or the last n, or every single entry value at 9 positions", Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			img := m.used(5)
			t := img[m.fatStart()*128:][:m.fatBytes()]
			if x.Bool("values") {
				at := core.Pick(x, "entry", 0, 1, m.dirTrack*2, m.dirTrack*2+1, m.dirTrack*2+2, m.clusters()-2, m.clusters()-1, m.clusters()%m.fatBytes(), m.fatBytes()-1)
				x.Begin()
				t[at] = byte(x.Choose(256, "value"))
			} else {
				n := x.Choose(m.clusters()+1, "free clusters")
				x.Begin()
				last := x.Bool("last")
				for i := 0; i < m.clusters(); i++ {
					t[i] = 0xC1
					if i < n && !last || last && i >= m.clusters()-n {
						t[i] = 0xFF
					}
				}
			}
			for k := 1; k < 3; k++ {
				copy(img[m.fatStart()*128+k*m.fatBytes():], t)
			}
			d, f := mounted(x, 0, img)
			checkMountStats(x, d, m, img)
			x.T()
			x.Assert(d.Flush() == nil, "flushing failed")
			x.T()
			d.Unmount()
			x.T()
			x.Assert(d.Mount(0) == nil, "mounting again failed")
			checkMountStats(x, d, m, img)
			same(x, f, img, "after mounting twice")
		}},
		{Name: "two volumes", Bounds: "two different volumes mounted and flushed in every interleaving by two drivers", Body: func(x *core.X) {
			a, b := core.Pick(x, "first medium", media...), core.Pick(x, "second medium", media...)
			x.Begin()
			ms := []medium{a, b}
			imgs := [][]byte{a.used(1), b.used(2)}
			var ds []*fat8.FAT8Driver
			var fs []*os.File
			for i := range ms {
				f := load(i, imgs[i])
				d := fat8.NewDriverFromFile(f)
				fs, ds = append(fs, f), append(ds, &d)
			}
			at := [2]int{}
			for at[0] < 4 || at[1] < 4 {
				i := 0
				if at[0] == 4 {
					i = 1
				} else if at[1] < 4 {
					i = x.Choose(2, "volume")
				}
				x.T()
				var err error
				switch at[i] {
				case 0, 3:
					err = ds[i].Mount(disko.MountFlagsAllowAll)
				case 1:
					err = ds[i].Flush()
				case 2:
					err = ds[i].Unmount()
				}
				at[i]++
				x.Assert(err == nil, "volume %d, step %d: %v", i, at[i], err)
				for j := range ds {
					if at[j] > 0 {
						checkMountStats(x, ds[j], ms[j], imgs[j])
					}
					same(x, fs[j], imgs[j], fmt.Sprintf("volume %d", j))
				}
			}
		}},
	}
}

// ---- C21 ----

func accessParts(thorough bool) []*core.Part {
	// ready returns a usable driver: mounted, or just formatted.
	ready := func(x *core.X, m medium, formatted bool) (*fat8.FAT8Driver, *os.File, []byte) {
		if !formatted {
			img := m.used(11)
			d, f := mounted(x, 0, img)
			return d, f, img
		}
		f := load(0, nil)
		d := fat8.NewDriverFromFile(f)
		x.T()
		x.Assert(d.FormatImage(size(m.wholeSize)) == nil, "formatting failed")
		return &d, f, m.blank()
	}
	flip := func(b []byte) []byte {
		out := make([]byte, len(b))
		for i := range b {
			out[i] = b[i] ^ 0xFF
		}
		return out
	}
	badClusters := func(m medium) []uint64 {
		n := uint64(m.clusters())
		per := uint64(m.perCluster())
		return []uint64{0, n + 1, n + 2, 147, 155, 189, 192, 255, 256, 257, 256 + n, 65536, 65537, 1 << 32, 1<<32 + 1, 1 << 63, 1<<63 + 1, math.MaxUint64, math.MaxUint64 - 1,
			math.MaxUint64/per + 1, math.MaxUint64/per + 2, 1<<57 + 1, (1<<57)/per + 1}
	}
	badRanges := func(m medium) [][2]uint64 {
		n := uint64(m.sectors)
		var out [][2]uint64
		for _, s := range []uint64{0, 1, n - 1, n, n + 1, 65536, 1 << 32, 1<<32 + 1, 1 << 56, 1 << 57, 1<<57 + 1, 1<<57 - 1, 1<<63 - 1, 1 << 63, math.MaxUint64 - n, math.MaxUint64 - 1, math.MaxUint64} {
			for _, c := range []uint64{1, 2, 3, n - 1, n, n + 1, 65536, 1 << 32, 1 << 56, 1 << 57, 1<<57 + 1, 1<<57 - 1, 1 << 63, math.MaxUint64 - n, math.MaxUint64 - 1, math.MaxUint64} {
				if s >= n || c > n-s {
					out = append(out, [2]uint64{s, c})
				}
			}
		}
		return out
	}
	return []*core.Part{
		contentWrites(map[bool]int{false: 2, true: 3}[thorough]),
		sessions(map[bool]int{false: 1100, true: 5000}[thorough]),
		failingAccess(),
		{Name: "clusters", Bounds: "each medium, mounted or just formatted: every cluster is written with inverted data; then every cluster is read and the image compared", Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			n := 1 + x.Choose(m.clusters(), "cluster - 1")
			formatted := x.Bool("just formatted")
			x.Begin()
			d, f, img := ready(x, m, formatted)
			at := m.clusterAt(n)
			data := flip(img[at : at+m.clusterBytes()])
			keep := append([]byte{}, data...)
			x.T()
			err := d.WriteAbsoluteCluster(fat8.PhysicalCluster(n), data)
			x.Assert(err == nil, "writing cluster %d: %v", n, err)
			x.Assert(bytes.Equal(data, keep), "writing cluster %d changed the caller's buffer", n)
			copy(img[at:], data)
			same(x, f, img, fmt.Sprintf("after writing cluster %d", n))
			for k := 1; k <= m.clusters(); k++ {
				x.T()
				got, err := d.ReadAbsoluteCluster(fat8.PhysicalCluster(k))
				x.Assert(err == nil, "reading cluster %d: %v", k, err)
				x.Assert(bytes.Equal(got, img[m.clusterAt(k):m.clusterAt(k)+m.clusterBytes()]), "cluster %d reads wrong after writing cluster %d", k, n)
				x.Assert(d.IsValidCluster(fat8.PhysicalCluster(k)), "cluster %d is called invalid", k)
			}
		}},
		{Name: "cluster pairs", Bounds: "each medium: every ordered pair of clusters (quick: the second from 12 positions) written one after the other, then both read; results of earlier reads stay as they were", Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			a := 1 + x.Choose(m.clusters(), "first - 1")
			x.Begin()
			var b int
			if thorough {
				b = 1 + x.Choose(m.clusters(), "second - 1")
			} else {
				b = core.Pick(x, "second", 1, 2, a, a%m.clusters()+1, m.dirTrack*2, m.dirTrack*2+1, m.dirTrack*2+2, m.dirTrack*2+3, m.clusters()-1, m.clusters(), (a+37)%m.clusters()+1, (a*3)%m.clusters()+1)
			}
			d, f, img := ready(x, m, false)
			x.T()
			before, err := d.ReadAbsoluteCluster(fat8.PhysicalCluster(a))
			x.Assert(err == nil, "reading cluster %d: %v", a, err)
			keep := append([]byte{}, before...)
			for i, n := range []int{a, b} {
				data := pattern(m.clusterBytes(), uint32(n+1000*i))
				x.T()
				x.Assert(d.WriteAbsoluteCluster(fat8.PhysicalCluster(n), data) == nil, "writing cluster %d failed", n)
				copy(img[m.clusterAt(n):], data)
				for j := range data {
					data[j] = 0x99 // the caller reuses its buffer
				}
			}
			for _, n := range []int{a, b} {
				x.T()
				got, err := d.ReadAbsoluteCluster(fat8.PhysicalCluster(n))
				x.Assert(err == nil && bytes.Equal(got, img[m.clusterAt(n):m.clusterAt(n)+m.clusterBytes()]), "cluster %d reads wrong after writing clusters %d and %d (%v)", n, a, b, err)
			}
			x.Assert(bytes.Equal(before, keep), "the data read earlier changed in the caller's hands")
			same(x, f, img, fmt.Sprintf("after writing clusters %d and %d", a, b))
		}},
		{Name: "sector ranges", Bounds: "each medium: ranges starting at every sector, of 1, 2, 3 sectors, a cluster, a track, up to the last sector and one less: written, read, image compared", Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			s := x.Choose(m.sectors, "start")
			x.Begin()
			rest := m.sectors - s
			n := core.Pick(x, "count", 1, 2, 3, m.perCluster(), m.perTrack, rest, rest-1)
			if n < 1 || n > rest {
				x.Abandon()
			}
			d, f, img := ready(x, m, s%2 == 0)
			x.T()
			got, err := d.ReadDiskBlocks(fat8.PhysicalBlock(s), uint(n))
			x.Assert(err == nil, "reading %d sectors at %d: %v", n, s, err)
			x.Assert(bytes.Equal(got, img[s*128:(s+n)*128]), "reading %d sectors at %d gives wrong data", n, s)
			data := flip(got)
			x.T()
			err = d.WriteDiskBlocks(fat8.PhysicalBlock(s), data)
			x.Assert(err == nil, "writing %d sectors at %d: %v", n, s, err)
			copy(img[s*128:], data)
			same(x, f, img, fmt.Sprintf("after writing %d sectors at %d", n, s))
			x.T()
			got, err = d.ReadDiskBlocks(fat8.PhysicalBlock(s), uint(n))
			x.Assert(err == nil && bytes.Equal(got, data), "reading back %d sectors at %d gives wrong data (%v)", n, s, err)
		}},
		{Name: "outside the image", Bounds: "each medium: 17 x 16 sector ranges outside the image up to 2^64-1 (writes up to 3 MB), 23 invalid clusters, wrong data sizes", Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			what := x.Choose(4, "kind of access")
			formatted := x.Bool("just formatted")
			x.Begin()
			d, f, img := ready(x, m, formatted)
			switch what {
			case 0:
				for _, r := range badRanges(m) {
					x.T()
					got, err := d.ReadDiskBlocks(fat8.PhysicalBlock(r[0]), uint(r[1]))
					x.Assert(err != nil, "reading %d sectors at %d succeeds with %d bytes", r[1], r[0], len(got))
					if r[1] < 1<<14 {
						x.T()
						err = d.WriteDiskBlocks(fat8.PhysicalBlock(r[0]), make([]byte, 128*r[1]))
						x.Assert(err != nil, "writing %d sectors at %d succeeds", r[1], r[0])
					}
				}
			case 1:
				for _, c := range badClusters(m) {
					if c >= 1 && c <= uint64(m.clusters()) {
						continue
					}
					x.T()
					got, err := d.ReadAbsoluteCluster(fat8.PhysicalCluster(c))
					x.Assert(err != nil, "reading cluster %d succeeds with %d bytes", c, len(got))
					x.T()
					err = d.WriteAbsoluteCluster(fat8.PhysicalCluster(c), pattern(m.clusterBytes(), 1))
					x.Assert(err != nil, "writing cluster %d succeeds", c)
					x.Assert(!d.IsValidCluster(fat8.PhysicalCluster(c)), "cluster %d is called valid", c)
				}
			case 2:
				b := m.clusterBytes()
				for _, n := range []int{0, 1, 127, 128, b - 128, b - 1, b + 1, b + 127, b + 128, 2 * b, m.wholeSize} {
					for _, c := range []int{1, 2, m.clusters() - 1, m.clusters()} {
						x.T()
						err := d.WriteAbsoluteCluster(fat8.PhysicalCluster(c), pattern(n, 3))
						x.Assert(err != nil, "writing %d bytes to cluster %d succeeds", n, c)
					}
				}
			case 3:
				for _, n := range []int{1, 64, 127, 129, 255, 257, 128*3 - 1, 128*3 + 1} {
					for _, s := range []int{0, 1, m.sectors - 3, m.sectors - 1} {
						x.T()
						err := d.WriteDiskBlocks(fat8.PhysicalBlock(s), pattern(n, 3))
						x.Assert(err != nil, "writing %d bytes at sector %d succeeds", n, s)
					}
				}
			}
			same(x, f, img, "after refused accesses")
		}},
		{Name: "two volumes", Bounds: "two volumes of any media: 12 clusters written alternately, both images compared", Body: func(x *core.X) {
			a, b := core.Pick(x, "first medium", media...), core.Pick(x, "second medium", media...)
			first := x.Choose(20, "first cluster")
			x.Begin()
			ms := []medium{a, b}
			imgs := [][]byte{a.used(1), b.used(2)}
			var ds []*fat8.FAT8Driver
			var fs []*os.File
			for i := range ms {
				d, f := mounted(x, i, imgs[i])
				ds, fs = append(ds, d), append(fs, f)
			}
			for k := 0; k < 12; k++ {
				i := k % 2
				n := 1 + (first*7+k*11)%ms[i].clusters()
				data := pattern(ms[i].clusterBytes(), uint32(k))
				x.T()
				x.Assert(ds[i].WriteAbsoluteCluster(fat8.PhysicalCluster(n), data) == nil, "writing cluster %d of volume %d failed", n, i)
				copy(imgs[i][ms[i].clusterAt(n):], data)
				x.T()
				got, err := ds[1-i].ReadAbsoluteCluster(fat8.PhysicalCluster(n%80 + 1))
				at := ms[1-i].clusterAt(n%80 + 1)
				x.Assert(err == nil && bytes.Equal(got, imgs[1-i][at:at+ms[1-i].clusterBytes()]), "cluster %d of volume %d reads wrong", n%80+1, 1-i)
			}
			for i := range ms {
				same(x, fs[i], imgs[i], fmt.Sprintf("volume %d", i))
			}
		}},
	}
}

// ---- C22 ----

// split separates stem and extension.
func split(name string) (stem, ext string, period bool) {
	i := strings.IndexByte(name, '.')
	if i < 0 {
		return name, "", false
	}
	return name[:i], name[i+1:], true
}

func checkName(x *core.X, name string) {
	stem, ext, period := split(name)
	ascii := true
	simple := stem != ""
	for i := 0; i < len(name); i++ {
		c := name[i]
		if c >= 0x80 {
			ascii = false
		}
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.') {
			simple = false
		}
	}
	if strings.Count(name, ".") > 1 || period && ext == "" {
		simple = false
	}
	x.T()
	raw, err := fat8.FilenameToBytes(name)
	x.Logf("FilenameToBytes(%q) = %q, %v", name, raw, err)
	tooLong := ascii && (len(stem) > 6 || len(ext) > 3) || !ascii && (len([]rune(stem)) > 6 || len([]rune(ext)) > 3)
	if name == "" || tooLong {
		x.Assert(err != nil, "%q does not fit but is stored as %q", name, raw)
		return
	}
	if err != nil {
		x.Assert(!simple, "%q is refused: %v", name, err)
		return
	}
	x.Assert(len(raw) == 9, "%q becomes %d bytes: %q", name, len(raw), raw)
	x.Assert(!bytes.ContainsAny(raw, "abcdefghijklmnopqrstuvwxyz"), "%q becomes %q, which is not upper-case", name, raw)
	trailing := strings.HasSuffix(stem, " ") || strings.HasSuffix(ext, " ")
	if ascii && !(period && ext == "") {
		want := fmt.Sprintf("%-6s%-3s", strings.ToUpper(stem), strings.ToUpper(ext))
		x.Assert(string(raw) == want, "%q becomes %q, want %q", name, raw, want)
	}
	keep := string(raw)
	x.T()
	text, err := fat8.BytesToFilename(raw)
	x.Logf("BytesToFilename(%q) = %q, %v", raw, text, err)
	x.Assert(err == nil, "%q became %q, which does not convert back: %v", name, raw, err)
	x.Assert(string(raw) == keep, "converting %q back changed the stored name", name)
	if !trailing && !strings.HasSuffix(name, ".") {
		x.Assert(text == strings.ToUpper(name), "%q became %q, which converts back to %q", name, raw, text)
	}
	x.T()
	again, err := fat8.FilenameToBytes(text)
	x.Assert(err == nil, "%q became %q, then %q, which is refused: %v", name, raw, text, err)
	x.Assert(bytes.Equal(again, raw), "%q became %q, then %q, then %q", name, raw, text, again)
	x.OutcomeS(string(raw))
}

func nameParts(thorough bool) []*core.Part {
	l := 8
	if thorough {
		l = 10
	}
	long := []string{"a", "Z", ".", " ", "\u00e9", "\u0131", "\u0250", "\xff", "~"}
	ll := 6
	if thorough {
		ll = 7
	}
	return []*core.Part{
		nameSequences(map[bool]int{false: 3, true: 4}[thorough]),
		{Name: "short names", Bounds: fmt.Sprintf("all strings over {a, Z, 7, period, blank} of length 0..%d", l), Body: func(x *core.X) {
			n := x.Choose(l+1, "length")
			s := make([]byte, n)
			for i := range s {
				s[i] = "aZ7. "[x.Choose(5, "")]
				if i == 2 {
					x.Begin()
				}
			}
			x.Begin()
			checkName(x, string(s))
		}},
		{Name: "unusual characters", Bounds: fmt.Sprintf("all strings of up to %d of: a Z period blank, 2-byte letters whose upper case has 2, 1 or 3 bytes, an invalid byte, ~", ll), Body: func(x *core.X) {
			n := x.Choose(ll+1, "length")
			s := ""
			for i := 0; i < n; i++ {
				s += long[x.Choose(len(long), "")]
				if i == 1 {
					x.Begin()
				}
			}
			x.Begin()
			checkName(x, s)
		}},
		{Name: "lengths", Bounds: "stems of 0..12 and extensions of 0..8 characters (or none, or with a second period), letters of both cases, digits, blanks inside; and every stem or extension length up to 300", Body: func(x *core.X) {
			var a, b int
			if x.Bool("very long") {
				a, b = x.Choose(300, "stem"), core.Pick(x, "extension", 0, 1, 3, 4, 256, 259)
			} else {
				a, b = x.Choose(13, "stem"), x.Choose(9, "extension")
			}
			x.Begin()
			style := x.Choose(4, "style")
			dot := core.Pick(x, "separator", ".", "", "..")
			fill := func(n int) string {
				t := []string{"abcdefghijklmnop", "ABCxyz0123456789", "q w e r t y u i o", "zzzzzzzzzzzzzzzzz"}[style]
				return strings.Repeat(t, n/len(t)+1)[:n]
			}
			checkName(x, fill(a)+dot+fill(b))
		}},
		{Name: "every byte", Bounds: "every byte value as first, middle or last character of a stem or extension", Body: func(x *core.X) {
			c := string([]byte{byte(x.Choose(256, "byte"))})
			x.Begin()
			checkName(x, core.Pick(x, "name", c, c+"BC", "a"+c+"c", "ab"+c, "abcde"+c, "a."+c, "a."+c+"c", "a.bc"+c, "a.b"+c+"c", "abcdef."+c, c+".tx"))
		}},
		{Name: "stored names", Bounds: "every stored name with stem and extension over {A, blank, period} (3^9): converting to text never fails in another way than by an error", Body: func(x *core.X) {
			raw := make([]byte, 9)
			for i := range raw {
				raw[i] = "A .\xff"[x.Choose(4, "")]
				if i == 2 {
					x.Begin()
				}
			}
			keep := string(raw)
			x.T()
			text, err := fat8.BytesToFilename(raw)
			x.Assert(string(raw) == keep, "converting %q changed it to %q", keep, raw)
			// Printable names without a period and with a stem survive.
			if err == nil && !strings.ContainsAny(keep, ".\xff") && keep[0] != ' ' {
				x.T()
				again, err := fat8.FilenameToBytes(text)
				x.Assert(err == nil && string(again) == keep, "stored name %q reads %q, which is stored as %q (%v)", keep, text, again, err)
			}
		}},
	}
}

// ---- C23 ----

type info struct{ n string }

func (i info) Name() string       { return i.n }
func (i info) Size() int64        { return 0 }
func (i info) Mode() os.FileMode  { return 0 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

func fileParts(thorough bool) []*core.Part {
	maxLen := 3
	if thorough {
		maxLen = 4
	}
	return []*core.Part{
		{Name: "file clusters", Bounds: fmt.Sprintf("each medium: files of 0..%d distinct clusters chosen from 7, every index from 0 to 2 past the end and 4 huge ones; write, compare the image, read all", maxLen), Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			pool := []int{1, 2, 3, m.dirTrack * 2, m.dirTrack*2 + 3, m.clusters() - 1, m.clusters()}
			n := x.Choose(maxLen+1, "clusters")
			var cs []int
			for i := 0; i < n; i++ {
				c := core.Pick(x, "cluster", pool...)
				for _, o := range cs {
					if o == c {
						x.Abandon()
					}
				}
				cs = append(cs, c)
			}
			x.Begin()
			img := m.used(4)
			d, f := mounted(x, 0, img)
			e := newEntry(x, "FILE.BIN", cs, 3, 1)
			past := []uint64{uint64(n), uint64(n) + 1, 256, 1 << 32, 1<<32 + 1, 1 << 63, math.MaxUint64}
			i := x.Choose(n+len(past), "index")
			if i < n {
				data := pattern(m.clusterBytes(), uint32(i+70))
				x.T()
				err := d.WriteFileCluster(e, fat8.LogicalCluster(i), data)
				x.Assert(err == nil, "writing cluster %d of a file of %v: %v", i, cs, err)
				copy(img[m.clusterAt(cs[i]):], data)
				x.T()
				x.Assert(d.WriteFileCluster(e, fat8.LogicalCluster(i), data[:m.clusterBytes()-128]) != nil, "writing a part of a cluster succeeds")
				x.T()
				x.Assert(d.WriteFileCluster(e, fat8.LogicalCluster(i), append(data, 1)) != nil, "writing more than a cluster succeeds")
			} else {
				k := past[i-n]
				x.T()
				got, err := d.ReadFileCluster(e, fat8.LogicalCluster(k))
				x.Assert(err != nil, "reading cluster %d of a file of %d clusters succeeds with %d bytes", k, n, len(got))
				x.T()
				err = d.WriteFileCluster(e, fat8.LogicalCluster(k), pattern(m.clusterBytes(), 8))
				x.Assert(err != nil, "writing cluster %d of a file of %d clusters succeeds", k, n)
			}
			same(x, f, img, fmt.Sprintf("file of clusters %v after accessing index %d", cs, i))
			for j, c := range cs {
				x.T()
				got, err := d.ReadFileCluster(e, fat8.LogicalCluster(j))
				x.Assert(err == nil && bytes.Equal(got, img[m.clusterAt(c):m.clusterAt(c)+m.clusterBytes()]), "cluster %d of the file of clusters %v reads wrong (%v)", j, cs, err)
			}
		}},
		{Name: "long files", Bounds: "each medium: files of 10, 20, 60, all but 1 or all clusters in 3 orders, every index read; each written, the image compared and every index read again; Stat", Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			n := core.Pick(x, "clusters", 10, 20, 60, m.clusters()-1, m.clusters())
			stride := core.Pick(x, "stride", 1, -1, 7)
			if n > m.clusters() {
				x.Abandon()
			}
			x.Begin()
			var cs []int
			for c, seen := 0, map[int]bool{}; len(cs) < n; c = (c + stride + m.clusters()) % m.clusters() {
				for seen[c] {
					c = (c + 1) % m.clusters()
				}
				seen[c] = true
				cs = append(cs, c+1)
			}
			img := m.used(4)
			d, f := mounted(x, 0, img)
			e := newEntry(x, "FILE.BIN", cs, 3, 1)
			addEntry(x, d, "FILE.BIN", e)
			all := func(when string) {
				for j, c := range cs {
					x.T()
					got, err := d.ReadFileCluster(e, fat8.LogicalCluster(j))
					x.Assert(err == nil && bytes.Equal(got, img[m.clusterAt(c):m.clusterAt(c)+m.clusterBytes()]), "%s: index %d of a file of %d clusters (cluster %d) reads wrong (%v)", when, j, n, c, err)
				}
				for _, k := range []int{n, n + 1, 255, 256} {
					if k < n {
						continue
					}
					x.T()
					_, err := d.ReadFileCluster(e, fat8.LogicalCluster(k))
					x.Assert(err != nil, "%s: reading index %d of a file of %d clusters succeeds", when, k, n)
				}
			}
			all("at first")
			for i := range cs {
				j := (i*11 + 3) % n
				data := pattern(m.clusterBytes(), uint32(j+700))
				x.T()
				err := d.WriteFileCluster(e, fat8.LogicalCluster(j), data)
				x.Assert(err == nil, "writing index %d of a file of %d clusters: %v", j, n, err)
				copy(img[m.clusterAt(cs[j]):], data)
				if i%16 == 0 || i == n-1 {
					same(x, f, img, fmt.Sprintf("after writing index %d of a file of %d clusters", j, n))
				}
			}
			all("after writing")
			st, err := d.Stat("FILE.BIN")
			x.Assert(err == nil && st.Size == int64(n*m.perCluster()-1)*128, "Stat of a file of %d clusters: size %d, %v", n, st.Size, err)
		}},
		{Name: "bad cluster lists", Bounds: "files whose list contains an invalid cluster number (5 values) at any of 3 positions", Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			bad := core.Pick(x, "invalid cluster", 0, m.clusters()+1, 0xC0, 0xFE, 0xFF)
			at := x.Choose(3, "position")
			x.Begin()
			img := m.used(4)
			d, f := mounted(x, 0, img)
			cs := []int{5, 6, 7}
			cs[at] = bad
			e := newEntry(x, "FILE.BIN", cs, 0, 0)
			x.T()
			_, err := d.ReadFileCluster(e, fat8.LogicalCluster(at))
			x.Assert(err != nil, "reading invalid cluster %d succeeds", bad)
			x.T()
			x.Assert(d.WriteFileCluster(e, fat8.LogicalCluster(at), pattern(m.clusterBytes(), 5)) != nil, "writing invalid cluster %d succeeds", bad)
			same(x, f, img, "after refused accesses")
		}},
		{Name: "sizes and names", Bounds: "each medium: binary files of 1..20 clusters with every number of unused sectors; looked up by 8 spellings, 9 wrong names; with 3 other files present", Body: func(x *core.X) {
			m := core.Pick(x, "medium", media...)
			n := 1 + x.Choose(20, "clusters - 1")
			x.Begin()
			unused := x.Choose(m.perCluster(), "unused sectors")
			d, f := mounted(x, 0, m.used(4))
			var cs []int
			for i := 0; i < n; i++ {
				cs = append(cs, 1+i*3)
			}
			addEntry(x, d, "FILE.BIN", newEntry(x, "FILE.BIN", cs, 5, unused))
			addEntry(x, d, "FILE", newEntry(x, "FILE", []int{1}, 6, 0))
			addEntry(x, d, "FILE.BI", newEntry(x, "FILE.BI", []int{1, 2}, 7, 3))
			addEntry(x, d, "X", newEntry(x, "X", nil, 8, 0))
			sectors := int64(n*m.perCluster() - unused)
			for _, name := range []string{"FILE.BIN", "file.bin", "File.Bin", "fILE.bIN", "/FILE.BIN", "/file.bin", "/File.BIN", "file.BIN"} {
				x.T()
				st, err := d.Stat(name)
				x.Assert(err == nil, "Stat(%q): %v", name, err)
				x.Assert(st.Size == sectors*128, "size of a file of %d clusters with %d unused sectors is %d, want %d", n, unused, st.Size, sectors*128)
				x.Assert(st.NumBlocks == sectors && st.BlockSize == 128, "a file of %d sectors has %d blocks of %d bytes", sectors, st.NumBlocks, st.BlockSize)
			}
			x.T()
			st, err := d.Stat("/file.bi")
			x.Assert(err == nil && st.Size == int64(2*m.perCluster()-3)*128, "Stat of another file: size %d, %v", st.Size, err)
			x.T()
			st, err = d.Stat("x")
			x.Assert(err == nil && st.Size == 0 && st.NumBlocks == 0, "Stat of a file without clusters: size %d, %d blocks, %v", st.Size, st.NumBlocks, err)
			for _, name := range []string{"FIL", "FILE.B", "FILE.BINX", "ILE.BIN", "file_bin", "", "/", "xx", "dir/file.bin"} {
				x.T()
				_, err := d.Stat(name)
				x.Assert(err != nil && errors.Is(err, disko.ErrNotFound), "Stat(%q) = %v, want not found", name, err)
			}
			_ = f
		}},
		{Name: "lookups", Bounds: "directories with one of 3 thirds or all of the names of 1-2 characters out of 10 (letters, digits, periods, other punctuation) and of 3 out of 3; every path of 1-3 characters out of 14 looked up", Body: func(x *core.X) {
			const chars, paths = "AZ0.@[{` -", "AaZz0.@[{` -/b"
			part := x.Choose(4, "names present")
			c := paths[x.Choose(len(paths), "first character")]
			x.Begin()
			d, _ := mounted(x, 0, media[0].blank())
			var all []string
			each := func(alphabet string, max int, f func(w string)) {
				var rec func(w string)
				rec = func(w string) {
					if w != "" {
						f(w)
					}
					if len(w) < max {
						for _, c := range alphabet {
							rec(w + string(c))
						}
					}
				}
				rec("")
			}
			each(chars, 2, func(w string) { all = append(all, w) })
			each("A.[", 3, func(w string) {
				if len(w) == 3 {
					all = append(all, w)
				}
			})
			have := map[string]int{}
			for i, w := range all {
				if part == 3 || i%3 == part {
					have[w] = len(have)
					var cs []int
					for k := 0; k < len(have)%12; k++ {
						cs = append(cs, 1+k)
					}
					addEntry(x, d, w, newEntry(x, w, cs, len(have), 0))
				}
			}
			each(paths, 2, func(w string) {
				w = string(c) + w
				if strings.HasPrefix(w, "//") {
					return
				}
				x.T()
				st, err := d.Stat(w)
				i, ok := have[strings.ToUpper(strings.TrimPrefix(w, "/"))]
				if !ok {
					x.Assert(err != nil && errors.Is(err, disko.ErrNotFound), "Stat(%q) = %+v, %v, want not found", w, st, err)
					return
				}
				x.Assert(err == nil, "Stat(%q): %v", w, err)
				k := (i + 1) % 12
				x.Assert(st.NumBlocks == int64(k*media[0].perCluster()) && st.Size == 128*st.NumBlocks, "Stat(%q): %d blocks, %d bytes, the file has %d clusters", w, st.NumBlocks, st.Size, k)
			})
		}},
		{Name: "same file", Bounds: "all pairs of 16 names", Body: func(x *core.X) {
			names := []string{"FILE.BIN", "file.bin", "File.bin", "FILE", "file", "FILE.BI", "X", "x", "[", "{", "@.`", "`.@", ".x", "X.", "0", "x.x"}
			a, b := core.Pick(x, "name 1", names...), core.Pick(x, "name 2", names...)
			x.Begin()
			d, _ := mounted(x, 0, media[0].blank())
			x.T()
			got := d.SameFile(info{a}, info{b})
			x.Assert(got == (strings.ToUpper(a) == strings.ToUpper(b)), "SameFile(%q, %q) = %v", a, b, got)
		}},
	}
}

func main() {
	core.Main(
		core.Property{ID: "C19", Parts: formatParts, Assumptions: []string{"Images are scratch files; the layout is written out independently in the harness."}},
		core.Property{ID: "C20", Parts: mountParts, Assumptions: []string{"Images are scratch files; only block statistics are compared."}},
		core.Property{ID: "C21", Parts: accessParts, Assumptions: []string{"Cluster n (from 1) occupies the n-th group of sectors-per-track/2 sectors, as the reserved entries of the allocation table imply."}},
		core.Property{ID: "C22", Parts: nameParts, Assumptions: []string{"Names with characters other than letters, digits and one period may be refused."}},
		core.Property{ID: "C23", Parts: fileParts, Assumptions: []string{"Directory entries are injected by field type, since the driver has no way to create them yet."}},
	)
}
