package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"testing/iotest"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
	core "github.com/dargueta/disko/zzverif/core"
)

// bpb is a boot sector's parameter block.
type bpb struct {
	bps      int
	spc      int
	reserved int
	fats     int
	root     int
	total16  int
	media    int
	spf16    int
	total32  uint32
	spf32    uint32
}

func (b bpb) String() string {
	return fmt.Sprintf("{bytes/sector %d, sectors/cluster %d, reserved %d, FATs %d, root entries %d, sectors %d / %d, media %#x, sectors/FAT %d / %d}",
		b.bps, b.spc, b.reserved, b.fats, b.root, b.total16, b.total32, b.media, b.spf16, b.spf32)
}

func (b bpb) bytes() []byte {
	r := make([]byte, 512)
	copy(r, "\xeb\x3c\x90MSDOS5.0")
	le := binary.LittleEndian
	le.PutUint16(r[11:], uint16(b.bps))
	r[13] = byte(b.spc)
	le.PutUint16(r[14:], uint16(b.reserved))
	r[16] = byte(b.fats)
	le.PutUint16(r[17:], uint16(b.root))
	le.PutUint16(r[19:], uint16(b.total16))
	r[21] = byte(b.media)
	le.PutUint16(r[22:], uint16(b.spf16))
	le.PutUint16(r[24:], 32)
	le.PutUint16(r[26:], 64)
	le.PutUint32(r[28:], 0x01020304)
	le.PutUint32(r[32:], b.total32)
	le.PutUint32(r[36:], b.spf32)
	for i := 40; i < 512; i++ {
		r[i] = byte(i)
	}
	return r
}

// layout is what the specification derives from a parameter block.
type layout struct {
	spf, fatSectors, rootSectors, bpc, clusters, dataSectors, first uint64
	version                                                         int
	reject, valid                                                   bool
}

func (b bpb) layout() (l layout) {
	okSector := b.bps == 512 || b.bps == 1024 || b.bps == 2048 || b.bps == 4096
	okCluster := b.spc > 0 && b.spc&(b.spc-1) == 0
	l.bpc = uint64(b.bps) * uint64(b.spc)
	if !okSector || !okCluster || l.bpc > 32768 {
		l.reject = true
		return l
	}
	l.spf = uint64(b.spf16)
	if b.spf16 == 0 {
		l.spf = uint64(b.spf32)
	}
	total := uint64(b.total16)
	if b.total16 == 0 {
		total = uint64(b.total32)
	}
	l.fatSectors = uint64(b.fats) * l.spf
	l.rootSectors = (uint64(b.root)*32 + uint64(b.bps) - 1) / uint64(b.bps)
	l.first = uint64(b.reserved) + l.fatSectors + l.rootSectors
	if l.first > total {
		l.reject = true
		return l
	}
	l.dataSectors = total - l.first
	l.clusters = l.dataSectors / uint64(b.spc)
	bits := uint64(32)
	switch {
	case l.clusters < 4085:
		l.version, bits = 12, 12
	case l.clusters < 65525:
		l.version, bits = 16, 16
	default:
		l.version = 32
	}
	if l.version == 32 && l.rootSectors != 0 {
		l.reject = true
		return l
	}
	l.valid = b.reserved >= 1 && b.fats >= 1 && l.clusters > 0 && l.clusters <= 0x0FFFFFF5 &&
		l.spf*uint64(b.bps)*8 >= (l.clusters+2)*bits &&
		(b.media == 0xF0 || b.media >= 0xF8) &&
		(b.total16 == 0 || b.total32 == 0)
	if l.version == 32 {
		l.valid = l.valid && b.root == 0 && b.spf16 == 0 && b.total16 == 0
	} else {
		l.valid = l.valid && b.root > 0 && b.root*32%b.bps == 0 && b.spf16 > 0
	}
	return l
}

func checkBoot(x *core.X, b bpb, bs *fat.FATBootSector, err error) {
	l := b.layout()
	if err != nil {
		if l.valid {
			x.Fail("%v is valid and was refused: %v", b, err)
		}
		if bs != nil {
			x.Fail("%v was refused with %v, yet a boot sector was returned", b, err)
		}
		if !errors.Is(err, disko.ErrFileSystemCorrupted) && !errors.Is(err, disko.ErrIOFailed) {
			x.Fail("%v was refused with %v, neither corruption nor an IO error", b, err)
		}
		return
	}
	if l.reject {
		x.Fail("%v was accepted", b)
	}
	if bs == nil {
		x.Fail("%v: neither a boot sector nor an error", b)
	}
	same := func(what string, got, want uint64) {
		if got != want {
			x.Fail("%v: %s is %d, want %d", b, what, got, want)
		}
	}
	same("SectorsPerFAT", uint64(bs.SectorsPerFAT), l.spf)
	same("TotalFATSectors", uint64(bs.TotalFATSectors), l.fatSectors)
	same("RootDirSectors", uint64(bs.RootDirSectors), l.rootSectors)
	same("BytesPerCluster", uint64(bs.BytesPerCluster), l.bpc)
	same("TotalClusters", uint64(bs.TotalClusters), l.clusters)
	same("TotalDataSectors", uint64(bs.TotalDataSectors), l.dataSectors)
	same("FirstDataSector", uint64(bs.FirstDataSector), l.first)
	same("FATVersion", uint64(bs.FATVersion), uint64(l.version))
	same("DirentsPerCluster", uint64(bs.DirentsPerCluster), l.bpc/32)
	same("BytesPerSector", uint64(bs.BytesPerSector), uint64(b.bps))
	same("SectorsPerCluster", uint64(bs.SectorsPerCluster), uint64(b.spc))
	same("ReservedSectors", uint64(bs.ReservedSectors), uint64(b.reserved))
	same("NumFATs", uint64(bs.NumFATs), uint64(b.fats))
	same("RootEntryCount", uint64(bs.RootEntryCount), uint64(b.root))
	same("TotalSectors16", uint64(bs.TotalSectors16), uint64(b.total16))
	same("TotalSectors32", uint64(bs.TotalSectors32), uint64(b.total32))
	same("SectorsPerFAT16", uint64(bs.SectorsPerFAT16), uint64(b.spf16))
	same("Media", uint64(bs.Media), uint64(b.media))
}

func (b bpb) check(x *core.X) {
	x.T()
	bs, err := fat.NewFATBootSectorFromStream(bytes.NewReader(b.bytes()))
	checkBoot(x, b, bs, err)
}

// patched decodes many variants of one block without rebuilding it.
type patched struct {
	raw []byte
	r   *bytes.Reader
}

func (p *patched) check(x *core.X, b bpb) {
	p.r.Reset(p.raw)
	bs, err := fat.NewFATBootSectorFromStream(p.r)
	checkBoot(x, b, bs, err)
}

// volumes are valid blocks of real media.
var volumes = []bpb{
	{512, 1, 1, 2, 224, 2880, 0xF0, 9, 0, 0},                   // 1440 KiB floppy
	{512, 2, 1, 2, 112, 1440, 0xF9, 3, 0, 0},                   // 720 KiB floppy
	{512, 4, 1, 2, 512, 0, 0xF8, 256, 262143, 0},               // FAT16
	{512, 64, 1, 1, 512, 65535, 0xF8, 5, 0, 0},                 // FAT12, 32 KiB clusters
	{4096, 8, 4, 2, 512, 0, 0xF8, 32, 500000, 0},               // FAT16, 4 KiB sectors
	{512, 8, 32, 2, 0, 0, 0xF8, 0, 4194304, 4096},              // FAT32
	{512, 64, 32, 2, 0, 0, 0xF8, 0, 4294967295, 0x80000},       // FAT32, largest sector count
	{1024, 32, 16, 2, 0, 0, 0xF8, 0, 2097152 * 16, 0x1000 * 4}, // FAT32
}

type chunky struct {
	b []byte
	n int
}

func (c *chunky) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	if len(p) > c.n {
		p = p[:c.n]
	}
	n := copy(p, c.b)
	c.b = c.b[n:]
	return n, nil
}

type thenFail struct {
	b   []byte
	err error
	now bool // the error comes with the last bytes
}

func (f *thenFail) Read(p []byte) (int, error) {
	n := copy(p, f.b)
	f.b = f.b[n:]
	if len(f.b) == 0 && (f.now || n == 0) {
		return n, f.err
	}
	return n, nil
}

func bootParts(thorough bool) []*core.Part {
	bpss := []int{0, 1, 256, 511, 512, 513, 768, 1024, 2048, 4096, 4608, 8192, 32768, 65535}
	spcs := []int{0, 1, 2, 3, 8, 16, 64, 127, 128, 129, 255}
	reserved := []int{0, 1, 2, 32, 65535}
	fatCounts := []int{0, 1, 2, 3, 255}
	roots := []int{0, 1, 15, 16, 17, 128, 129, 512, 65535}
	total16 := []int{0, 1, 33, 34, 2880, 4116, 65535}
	spf16 := []int{0, 1, 9, 256, 65535}
	total32 := []uint32{0, 1, 2880, 65536, 66000, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	spf32 := []uint32{0, 1, 512, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	if thorough {
		spcs = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 192, 254, 255}
		roots = []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 112, 127, 128, 129, 224, 240, 512, 513, 65534, 65535}
		total32 = append(total32, 2, 33, 34, 65535, 65537, 1<<24-1, 1<<24+1, 1<<30, 1<<32-2)
		spf32 = append(spf32, 2, 511, 513, 1<<16, 1<<24-1, 1<<30, 1<<32-2)
	}
	return []*core.Part{
		{Name: "sector and cluster sizes", Bounds: "all 65536 sector sizes x all 256 cluster sizes, for two otherwise valid volumes", Body: func(x *core.X) {
			b := core.Pick(x, "volume", volumes[0], volumes[5])
			hi := x.Choose(256, "bytes per sector / 256")
			x.Begin()
			raw := b.bytes()
			p := &patched{raw, bytes.NewReader(nil)}
			for lo := 0; lo < 256; lo++ {
				b.bps = hi<<8 | lo
				raw[11], raw[12] = byte(lo), byte(hi)
				for b.spc = 0; b.spc < 256; b.spc++ {
					raw[13] = byte(b.spc)
					p.check(x, b)
				}
				x.T()
			}
		}},
		{Name: "geometry grid", Bounds: fmt.Sprintf("the product of bytes/sector %v, sectors/cluster %v, reserved %v, FATs %v, root entries %v, 16-bit sectors %v, 16-bit FAT sectors %v, 32-bit sectors %v, 32-bit FAT sectors %v; 32-bit values where the 16-bit value is 0, otherwise {0, large}", bpss, spcs, reserved, fatCounts, roots, total16, spf16, total32, spf32), Body: func(x *core.X) {
			b := bpb{media: 0xF8}
			b.bps = core.Pick(x, "bytes per sector", bpss...)
			b.spc = core.Pick(x, "sectors per cluster", spcs...)
			b.root = core.Pick(x, "root entries", roots...)
			x.Begin()
			raw := b.bytes()
			p := &patched{raw, bytes.NewReader(nil)}
			le := binary.LittleEndian
			for _, b.reserved = range reserved {
				le.PutUint16(raw[14:], uint16(b.reserved))
				for _, b.fats = range fatCounts {
					raw[16] = byte(b.fats)
					x.T()
					for _, b.total16 = range total16 {
						le.PutUint16(raw[19:], uint16(b.total16))
						t32 := total32
						if b.total16 != 0 {
							t32 = []uint32{0, 1 << 31}
						}
						for _, b.spf16 = range spf16 {
							le.PutUint16(raw[22:], uint16(b.spf16))
							f32 := spf32
							if b.spf16 != 0 {
								f32 = []uint32{0, 7, 1 << 31}
							}
							for _, b.total32 = range t32 {
								le.PutUint32(raw[32:], b.total32)
								for _, b.spf32 = range f32 {
									le.PutUint32(raw[36:], b.spf32)
									p.check(x, b)
								}
							}
						}
					}
				}
			}
		}},
		{Name: "version boundaries", Bounds: "every cluster size; every cluster count from 4080 to 4090 and 65520 to 65530; 0 to spc-1 spare sectors; 512 to 4096 byte sectors; 1-2 FATs; 16-bit and 32-bit fields", Body: func(x *core.X) {
			b := bpb{media: 0xF8, reserved: 1}
			b.bps = core.Pick(x, "bytes per sector", 512, 1024, 2048, 4096)
			b.spc = 1 << x.Choose(8, "log2 sectors per cluster")
			b.fats = 1 + x.Choose(2, "FATs - 1")
			b.root = core.Pick(x, "root entries", 0, 512, 500)
			wide := x.Choose(2, "32-bit FAT size")
			x.Begin()
			for _, base := range []int{4080, 65520} {
				for n := base; n <= base+10; n++ {
					spf := n*4/b.bps + 1
					b.spf16, b.spf32 = spf, 0
					if wide == 1 {
						b.spf16, b.spf32 = 0, uint32(spf)
					}
					for spare := 0; spare < b.spc; spare++ {
						b.total16 = 0
						b.total32 = uint32(b.reserved + b.fats*spf + (b.root*32+b.bps-1)/b.bps + n*b.spc + spare)
						b.check(x)
						if b.total32 < 65536 {
							b.total16, b.total32 = int(b.total32), 0
							b.check(x)
						}
					}
				}
			}
		}},
		{Name: "16-bit fields", Bounds: "every value of each 16-bit field (reserved sectors, root entries, sectors, FAT sectors) and of the FAT count and media byte, for 8 volumes", Body: func(x *core.X) {
			b := core.Pick(x, "volume", volumes...)
			which := x.Choose(6, "field")
			hi := x.Choose(256, "value / 256")
			x.Begin()
			for lo := 0; lo < 256; lo++ {
				v := hi<<8 | lo
				switch which {
				case 0:
					b.reserved = v
				case 1:
					b.root = v
				case 2:
					b.total16 = v
				case 3:
					b.spf16 = v
				case 4:
					b.fats = lo
				case 5:
					b.media = lo
				}
				b.check(x)
				if hi > 0 && which >= 4 {
					break
				}
			}
		}},
		{Name: "32-bit fields", Bounds: "sector counts and FAT sizes 2^k-1, 2^k, 2^k+1 for every k, and the counts that just do and do not hold the metadata, for 8 volumes", Body: func(x *core.X) {
			b := core.Pick(x, "volume", volumes...)
			k := x.Choose(33, "k")
			x.Begin()
			for d := -1; d <= 1; d++ {
				c := b
				c.total16 = 0
				c.total32 = uint32(int64(1)<<k + int64(d))
				c.check(x)
				c = b
				c.spf16 = 0
				c.spf32 = uint32(int64(1)<<k + int64(d))
				c.check(x)
				// The metadata ends exactly at the end of the volume, give or take one.
				c.fats = 1
				meta := uint64(c.reserved) + uint64(c.spf32) + uint64((c.root*32+c.bps-1)/c.bps)
				for e := -1; e <= 1; e++ {
					if t := meta + uint64(e); t < 1<<32 {
						c.total16, c.total32 = 0, uint32(t)
						c.check(x)
						if t < 65536 {
							c.total16, c.total32 = int(t), 0
							c.check(x)
						}
					}
				}
			}
		}},
		{Name: "raw bytes", Bounds: "every value of each of the first 40 bytes of 8 valid volumes: the result follows the specification and the raw fields are copied", Body: func(x *core.X) {
			b := core.Pick(x, "volume", volumes...)
			i := x.Choose(40, "byte")
			x.Begin()
			raw := b.bytes()
			le := binary.LittleEndian
			for v := 0; v < 256; v++ {
				raw[i] = byte(v)
				c := bpb{bps: int(le.Uint16(raw[11:])), spc: int(raw[13]), reserved: int(le.Uint16(raw[14:])), fats: int(raw[16]), root: int(le.Uint16(raw[17:])),
					total16: int(le.Uint16(raw[19:])), media: int(raw[21]), spf16: int(le.Uint16(raw[22:])), total32: le.Uint32(raw[32:]), spf32: le.Uint32(raw[36:])}
				x.T()
				bs, err := fat.NewFATBootSectorFromStream(bytes.NewReader(raw))
				if i < 3 && err != nil {
					continue // a jump instruction the specification does not allow
				}
				checkBoot(x, c, bs, err)
				if err != nil {
					continue
				}
				x.Assert(bytes.Equal(bs.JmpBoot[:], raw[:3]) && bytes.Equal(bs.OEMName[:], raw[3:11]), "jump %x and OEM name %q decoded from %x", bs.JmpBoot, bs.OEMName, raw[:11])
				x.Assert(bs.SectorsPerTrack == le.Uint16(raw[24:]) && bs.NumHeads == le.Uint16(raw[26:]) && bs.HiddenSectors == le.Uint32(raw[28:]),
					"track %d, heads %d, hidden %d decoded from % x", bs.SectorsPerTrack, bs.NumHeads, bs.HiddenSectors, raw[24:32])
			}
		}},
		{Name: "streams", Bounds: "8 volumes and 2 corrupt ones, delivered in pieces of 1 to 41 bytes, cut at every length up to 64 by EOF or a failure, alone or with the last bytes", Body: func(x *core.X) {
			bad := volumes[0]
			bad.bps = 500
			worse := volumes[5]
			worse.total32 = 100
			b := core.Pick(x, "volume", append([]bpb{bad, worse}, volumes...)...)
			mode := x.Choose(6, "delivery: pieces, EOF, EOF with data, failure, failure with data, timeout")
			n := 1 + x.Choose(64, "length - 1")
			x.Begin()
			x.T()
			raw := b.bytes()
			var r io.Reader
			switch mode {
			case 0:
				r = &chunky{raw, n}
			case 1:
				r = bytes.NewReader(raw[:n-1])
			case 2:
				r = iotest.DataErrReader(bytes.NewReader(raw[:n-1]))
			case 3, 4:
				r = &thenFail{raw[:n-1], errInjected, mode == 4}
			case 5:
				r = &thenFail{raw[:n-1], io.ErrUnexpectedEOF, true}
			}
			bs, err := fat.NewFATBootSectorFromStream(r)
			if mode != 0 && n-1 < 40 {
				x.Assert(err != nil && bs == nil, "a boot sector was decoded from %d bytes: %v", n-1, bs)
				x.Assert(errors.Is(err, disko.ErrFileSystemCorrupted) || errors.Is(err, disko.ErrIOFailed), "%d bytes: %v is neither corruption nor an IO error", n-1, err)
				return
			}
			if mode != 0 && err != nil && n-1 < 512 {
				return // reading the whole sector is fine too
			}
			checkBoot(x, b, bs, err)
		}},
		{Name: "two volumes", Bounds: "every ordered pair of 8 volumes: decoding the second leaves the first's result alone, and decoding the first again gives the same", Body: func(x *core.X) {
			a := core.Pick(x, "first", volumes...)
			b := core.Pick(x, "second", volumes...)
			x.Begin()
			x.T()
			p, err := fat.NewFATBootSectorFromStream(bytes.NewReader(a.bytes()))
			checkBoot(x, a, p, err)
			b.check(x)
			checkBoot(x, a, p, err)
			a.check(x)
		}},
		{Name: "version function", Bounds: "every cluster count to 2^17, and 2^k-1, 2^k, 2^k+1", Body: func(x *core.X) {
			hi := x.Choose(128+33, "count / 1024, or power")
			x.Begin()
			check := func(n uint) {
				want := 32
				if n < 4085 {
					want = 12
				} else if n < 65525 {
					want = 16
				}
				if got := fat.DetermineFATVersion(n); got != want {
					x.Fail("%d clusters: FAT%d, want FAT%d", n, got, want)
				}
			}
			x.T()
			if hi >= 128 {
				for d := -1; d <= 1; d++ {
					check(uint(int64(1)<<(hi-128) + int64(d)))
				}
				return
			}
			for n := uint(hi) * 1024; n < uint(hi+1)*1024; n++ {
				check(n)
			}
		}},
	}
}
