package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/dargueta/disko/file_systems/fat"
	core "github.com/dargueta/disko/zzverif/core"
)

var zones = []*time.Location{time.UTC, time.FixedZone("east", 5*3600+1800), time.FixedZone("west", -9*3600)}

func bootSector(bpc int) *fat.FATBootSector {
	bs := &fat.FATBootSector{BytesPerCluster: uint(bpc), DirentsPerCluster: bpc / 32}
	bs.BytesPerSector = 512
	bs.SectorsPerCluster = uint8(bpc / 512)
	return bs
}

func validDate(d uint16) bool {
	day, month, year := int(d&31), int(d>>5&15), 1980+int(d>>9)
	if month < 1 || month > 12 || day < 1 {
		return false
	}
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[month-1]
	if month == 2 && (year%4 == 0 && year%100 != 0 || year%400 == 0) {
		days++
	}
	return day <= days
}

func validTime(t uint16) bool { return t>>11 < 24 && t>>5&63 < 60 && t&31 < 30 }

// stamp is the moment a valid date and time stand for.
func stamp(date, tm uint16, hundredths int) time.Time {
	return time.Date(1980+int(date>>9), time.Month(date>>5&15), int(date&31), int(tm>>11), int(tm>>5&63), int(tm&31)*2, 0, time.Local).
		Add(time.Duration(hundredths) * 10 * time.Millisecond)
}

func mode(flags byte) os.FileMode {
	m := os.FileMode(0o777)
	if flags&1 != 0 {
		m = 0o555
	}
	if flags&16 != 0 {
		m |= os.ModeDir
	}
	return m
}

func sameTime(x *core.X, what string, got, want time.Time) {
	if !got.Equal(want) {
		x.Fail("%s is %v, want %v", what, got, want)
	}
	if a, b := got.Format(time.DateTime), want.Format(time.DateTime); a != b {
		x.Fail("%s reads %s, want %s local time", what, a, b)
	}
	if ts := fat.TimeToTimespec(got); ts.Nano() != want.UnixNano() {
		x.Fail("%s is %d s %d ns as a timespec, want %d ns", what, ts.Sec, ts.Nsec, want.UnixNano())
	}
}

// check decodes one entry and compares everything the specification defines.
func checkDirent(x *core.X, bs *fat.FATBootSector, b []byte) {
	raw, err := fat.NewRawDirentFromBytes(b)
	if err != nil {
		x.Fail("NewRawDirentFromBytes(% x): %v", b, err)
	}
	le := binary.LittleEndian
	u16 := func(i int) uint16 { return le.Uint16(b[i:]) }
	if !bytes.Equal(raw.Name[:], b[:8]) || !bytes.Equal(raw.Extension[:], b[8:11]) || raw.AttributeFlags != b[11] || raw.NTReserved != b[12] ||
		raw.CreatedTimeMillis != b[13] || raw.CreatedTime != u16(14) || raw.CreatedDate != u16(16) || raw.LastAccessedDate != u16(18) ||
		raw.FirstClusterHigh != u16(20) || raw.LastModifiedTime != u16(22) || raw.LastModifiedDate != u16(24) || raw.FirstClusterLow != u16(26) ||
		raw.FileSize != le.Uint32(b[28:]) {
		x.Fail("% x was split into %+v", b, raw)
	}
	d, err := fat.NewDirentFromRaw(bs, &raw)
	if b[0] == 0 {
		if err == nil {
			x.Fail("a free entry was decoded: % x", b)
		}
		return
	}
	blank := b[0] == ' '
	if err != nil {
		if blank {
			return // no name at all, or one that begins with a blank
		}
		x.Fail("% x was refused: %v", b, err)
	}
	checkFields(x, bs, b, d)
}

func checkFields(x *core.X, bs *fat.FATBootSector, b []byte, d fat.Dirent) {
	le := binary.LittleEndian
	u16 := func(i int) uint16 { return le.Uint16(b[i:]) }
	blank := strings.Trim(string(b[:8]), " ") == ""
	if !blank {
		first := b[0]
		if first == 5 {
			first = 0xE5
		} else if first == 0xE5 {
			first = b[13]
		}
		want := string([]byte{first}) + strings.TrimRight(string(b[1:8]), " ")
		if ext := strings.TrimRight(string(b[8:11]), " "); ext != "" {
			want += "." + ext
		}
		if d.Name() != want {
			x.Fail("name %q decoded from % x, want %q", d.Name(), b, want)
		}
	}
	if d.AttributeFlags != int(b[11]) || d.NTReserved != int(b[12]) {
		x.Fail("attributes %#x and reserved byte %#x decoded from % x", d.AttributeFlags, d.NTReserved, b)
	}
	first := fat.ClusterID(u16(20))<<16 | fat.ClusterID(u16(26))
	if d.FirstCluster != first {
		x.Fail("first cluster %#x decoded from % x, want %#x", d.FirstCluster, b, first)
	}
	size := int64(le.Uint32(b[28:]))
	st := d.Stat()
	if d.Size() != size || st.Size != size {
		x.Fail("size %d (Stat: %d) decoded from % x, want %d", d.Size(), st.Size, b, size)
	}
	bpc := int64(bs.BytesPerCluster)
	if st.BlockSize != bpc || st.NumBlocks != (size+bpc-1)/bpc {
		x.Fail("%d blocks of %d bytes reported for a size of %d with clusters of %d", st.NumBlocks, st.BlockSize, size, bpc)
	}
	if st.InodeNumber != uint64(first) {
		x.Fail("file ID %d, want the first cluster %d", st.InodeNumber, first)
	}
	m := mode(b[11])
	mask := os.FileMode(0o777) | os.ModeDir | os.ModeSymlink | os.ModeNamedPipe | os.ModeSocket
	if b[11]&0x40 == 0 {
		mask |= os.ModeDevice | os.ModeCharDevice
	}
	if d.Mode()&mask != m || st.ModeFlags&mask != m || d.IsDir() != (b[11]&16 != 0) {
		x.Fail("mode %v (Stat: %v, IsDir %v) decoded from attributes %#x, want %v", d.Mode(), st.ModeFlags, d.IsDir(), b[11], m)
	}
	if validDate(u16(24)) && validTime(u16(22)) {
		want := stamp(u16(24), u16(22), 0)
		sameTime(x, "modification time", d.ModTime(), want)
		sameTime(x, "modification time in Stat", st.LastModified, want)
	}
	if validDate(u16(18)) {
		want := stamp(u16(18), 0, 0)
		sameTime(x, "access date", d.GetLastAccessedAt(), want)
		sameTime(x, "access date in Stat", st.LastAccessed, want)
	}
	created, err := d.GetCreatedAt()
	_, notDeleted := d.GetDeletedAt()
	if b[0] == 0xE5 {
		if err == nil || notDeleted != nil {
			x.Fail("the deleted entry % x is reported as existing (created %v, deletion %v)", b, err, notDeleted)
		}
		return
	}
	if err != nil || notDeleted == nil {
		x.Fail("the entry % x is reported as deleted (created %v, deletion %v)", b, err, notDeleted)
	}
	if validDate(u16(16)) && validTime(u16(14)) && b[13] <= 199 {
		want := stamp(u16(16), u16(14), int(b[13]))
		sameTime(x, "creation time", created, want)
		sameTime(x, "creation time in Stat", st.CreatedAt, want)
	}
}

// plain is an ordinary entry whose bytes are all different.
func plain() []byte {
	b := []byte("FILENAMEEXT")
	b = append(b, 0x20, 0x18, 0x63, 0x4B, 0x91, 0x35, 0x52, 0x71, 0x4E, 0x02, 0x01, 0x29, 0x7A, 0x96, 0x48, 0x34, 0x12, 0x41, 0x23, 0x85, 0x07)
	return b
}

func inZones(f func(zone int)) {
	for i, z := range zones {
		time.Local = z
		f(i)
	}
	time.Local = time.UTC
}

func direntParts(thorough bool) []*core.Part {
	nameBytes := []byte{0, 5, 0xE5, ' ', '.', 'A', 'z', 0x80, 0xFF}
	positions := 4
	if thorough {
		positions = 5
	}
	others := []int{0, 1, 5, 16, 32, 0x7F, 0x80, 0xE5, 0xFF}
	if thorough {
		others = nil
		for v := 0; v < 256; v++ {
			others = append(others, v)
		}
	}
	nb := []int{0, 1, 7, 8, 9, 10, 2}[:positions+1]
	return []*core.Part{
		{Name: "bytes", Bounds: "every value of each of the 32 bytes, in an ordinary entry, a directory, a deleted entry, an escaped name and a short name, with clusters of 512 and 32768 bytes, in 3 time zones", Body: func(x *core.X) {
			base := x.Choose(5, "entry")
			i := x.Choose(32, "byte")
			x.Begin()
			b := plain()
			switch base {
			case 1:
				b[11] = 0x10
			case 2:
				b[0] = 0xE5
			case 3:
				b[0] = 5
			case 4:
				copy(b, "A       B  ")
			}
			for v := 0; v < 256; v++ {
				b[i] = byte(v)
				x.T()
				inZones(func(int) {
					checkDirent(x, bootSector(512), b)
					checkDirent(x, bootSector(32768), b)
				})
			}
		}},
		{Name: "pairs of bytes", Bounds: "all 65536 values of each pair of adjacent bytes in an ordinary entry", Body: func(x *core.X) {
			i := x.Choose(31, "byte")
			hi := x.Choose(256, "first value")
			x.Begin()
			x.T()
			b := plain()
			b[i] = byte(hi)
			bs := bootSector(2048)
			for v := 0; v < 256; v++ {
				b[i+1] = byte(v)
				checkDirent(x, bs, b)
			}
		}},
		{Name: "two bytes", Bounds: fmt.Sprintf("every value of each byte together with %d values of each other byte, in an ordinary entry", len(others)), Body: func(x *core.X) {
			i := x.Choose(32, "byte")
			j := x.Choose(32, "other byte")
			if i == j {
				x.Abandon()
			}
			x.Begin()
			x.T()
			b := plain()
			bs := bootSector(1024)
			for _, w := range others {
				b[j] = byte(w)
				for v := 0; v < 256; v++ {
					b[i] = byte(v)
					checkDirent(x, bs, b)
				}
			}
		}},
		{Name: "field grid", Bounds: "the product of 3 first characters, names and extensions present or blank, 7 attribute bytes, 2 reserved bytes, 4 hundredths, 3 values of each date, time and cluster field, 4 sizes", Body: func(x *core.X) {
			b := plain()
			b[0] = core.Pick[byte](x, "first character", 'F', 5, 0xE5)
			if x.Bool("blank name") {
				copy(b[1:8], "       ")
			}
			if x.Bool("blank extension") {
				copy(b[8:11], "   ")
			}
			b[11] = core.Pick[byte](x, "attributes", 0, 1, 8, 0x0F, 0x10, 0x11, 0x26)
			b[12] = core.Pick[byte](x, "reserved", 0, 0x18)
			b[13] = core.Pick[byte](x, "hundredths", 0, 'A', 100, 199)
			x.Begin()
			x.T()
			le := binary.LittleEndian
			times := []uint16{0, 0x6B2F, 0xBF7D}
			dates := []uint16{0, 0x4A6F, 0xFF9F}
			bs := bootSector(4096)
			for n := 0; n < 3*3*3*3*3*3*3*4; n++ {
				k := n
				next := func(m int) int { v := k % m; k /= m; return v }
				le.PutUint16(b[14:], times[next(3)])
				le.PutUint16(b[16:], dates[next(3)])
				le.PutUint16(b[18:], dates[next(3)])
				le.PutUint16(b[20:], []uint16{0, 1, 0xFFFF}[next(3)])
				le.PutUint16(b[22:], times[next(3)])
				le.PutUint16(b[24:], dates[next(3)])
				le.PutUint16(b[26:], []uint16{0, 2, 0xFFFF}[next(3)])
				le.PutUint32(b[28:], []uint32{0, 1, 4096, 0xFFFFFFFF}[next(4)])
				checkDirent(x, bs, b)
			}
		}},
		{Name: "dates and times", Bounds: "all 65536 dates in all three date fields and all 65536 times in both time fields, in 3 time zones; and through DateFromInt and TimestampFromParts with hundredths 0-199", Body: func(x *core.X) {
			hi := x.Choose(256, "value / 256")
			x.Begin()
			x.T()
			le := binary.LittleEndian
			inZones(func(zone int) {
				for lo := 0; lo < 256; lo++ {
					v := uint16(hi<<8 | lo)
					b := plain()
					for _, at := range []int{14, 16, 18, 22, 24} {
						le.PutUint16(b[at:], v)
						checkDirent(x, bootSector(512), b)
						copy(b, plain())
					}
					if validDate(v) {
						sameTime(x, fmt.Sprintf("DateFromInt(%#x)", v), fat.DateFromInt(v), stamp(v, 0, 0))
						sameTime(x, fmt.Sprintf("TimestampFromParts(%#x, 0, 0)", v), fat.TimestampFromParts(v, 0, 0), stamp(v, 0, 0))
						sameTime(x, fmt.Sprintf("TimestampFromParts(%#x, 23:59:58, 199)", v), fat.TimestampFromParts(v, 0xBF7D, 199), stamp(v, 0xBF7D, 199))
					}
					if validTime(v) {
						for h := 0; h < 200; h++ {
							if h > 3 && h < 197 && (h < 98 || h > 102) && zone > 0 {
								continue
							}
							sameTime(x, fmt.Sprintf("TimestampFromParts(2001-02-28, %#x, %d)", v, h), fat.TimestampFromParts(0x2A5C, v, uint8(h)), stamp(0x2A5C, v, h))
						}
					}
					fat.TimestampFromParts(v, 0xFFFF, 255) // must not panic
					fat.TimestampFromParts(0, v, 255)
				}
			})
		}},
		{Name: "clusters and sizes", Bounds: "first clusters and sizes 2^k-1, 2^k, 2^k+1 for every k and around multiples of every cluster size from 512 to 32768", Body: func(x *core.X) {
			k := x.Choose(33, "k")
			l := 9 + x.Choose(7, "log2 cluster size - 9")
			x.Begin()
			x.T()
			bs := bootSector(1 << l)
			le := binary.LittleEndian
			for d := -1; d <= 1; d++ {
				v := uint32(int64(1)<<k + int64(d))
				b := plain()
				le.PutUint16(b[20:], uint16(v>>16))
				le.PutUint16(b[26:], uint16(v))
				checkDirent(x, bs, b)
				for m := 0; m < 4; m++ {
					le.PutUint32(b[28:], v<<m)
					checkDirent(x, bs, b)
					le.PutUint32(b[28:], v*uint32(m)<<l)
					checkDirent(x, bs, b)
					le.PutUint32(b[28:], v*uint32(m)<<l+1)
					checkDirent(x, bs, b)
				}
			}
		}},
		{Name: "names", Bounds: fmt.Sprintf("all names with bytes %q at positions %v, over a full and a blank background, with every attribute byte's low bits; deleted entries with each of these as the saved first character", nameBytes, nb), Body: func(x *core.X) {
			bg := core.Pick(x, "background", "FILENAMEEXT", "           ", "F       EXT", "FILENAME   ")
			one := core.Pick(x, "byte 0", nameBytes...)
			two := core.Pick(x, "byte 1", nameBytes...)
			x.Begin()
			x.T()
			b := plain()
			copy(b, bg)
			b[0], b[1] = one, two
			bs := bootSector(1024)
			rest := nb[2:]
			var rec func(i int)
			rec = func(i int) {
				if i == len(rest) {
					for _, saved := range nameBytes {
						b[13] = saved
						checkDirent(x, bs, b)
						if one != 0xE5 {
							break
						}
					}
					return
				}
				old := b[rest[i]]
				for _, c := range nameBytes {
					b[rest[i]] = c
					rec(i + 1)
				}
				b[rest[i]] = old
			}
			rec(0)
		}},
		{Name: "attributes", Bounds: "all 256 attribute bytes: Go file mode", Body: func(x *core.X) {
			hi := x.Choose(16, "attributes / 16")
			x.Begin()
			for lo := 0; lo < 16; lo++ {
				f := byte(hi<<4 | lo)
				x.T()
				got := fat.AttrFlagsToFileMode(f)
				m := mode(f)
				mask := os.FileMode(0o777) | os.ModeDir
				x.Assert(got&mask == m && got.IsDir() == (f&16 != 0), "attributes %#x: mode %v, want %v", f, got, m)
				x.Assert(got&os.ModeSymlink == 0 && got&os.ModeNamedPipe == 0 && got&os.ModeSocket == 0, "attributes %#x: mode %v", f, got)
				x.Assert(f&0x40 != 0 || got&(os.ModeDevice|os.ModeCharDevice) == 0, "attributes %#x: mode %v is a device", f, got)
				x.Assert(f&0x50 != 0x40 || got&(os.ModeDevice|os.ModeCharDevice) != 0, "attributes %#x: mode %v is no device", f, got)
			}
		}},
		{Name: "two entries", Bounds: "every ordered pair of 7 entries: decoding the second leaves the first's result alone", Body: func(x *core.X) {
			variants := make([][]byte, 7)
			for i := range variants {
				b := plain()
				b[1] += byte(i)
				b[28] += byte(i)
				b[26] += byte(i)
				variants[i] = b
			}
			variants[1][0] = 0xE5
			variants[2][0] = 5
			variants[3][11] = 0x10
			variants[4][0] = 0
			copy(variants[5], "B       C  ")
			copy(variants[6], "           ")
			i, j := x.Choose(7, "first"), x.Choose(7, "second")
			x.Begin()
			x.T()
			if i == 4 || i == 6 {
				checkDirent(x, bootSector(512), variants[i])
				checkDirent(x, bootSector(512), variants[j])
				return
			}
			bs := bootSector(512)
			b := append([]byte{}, variants[i]...)
			raw, err := fat.NewRawDirentFromBytes(b)
			x.Assert(err == nil, "NewRawDirentFromBytes: %v", err)
			d, err := fat.NewDirentFromRaw(bs, &raw)
			x.Assert(err == nil, "NewDirentFromRaw: %v", err)
			for k := range b {
				b[k] = 0xFF // the caller may reuse its buffer
			}
			checkDirent(x, bs, variants[j])
			checkFields(x, bs, variants[i], d)
		}},
	}
}
