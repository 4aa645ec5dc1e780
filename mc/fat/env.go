package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
	"unsafe"

	"github.com/dargueta/disko/file_systems/fat"
	core "github.com/dargueta/disko/zzverif/core"
)

var errInjected = errors.New("injected failure")

// kind is one FAT variant's special table values.
type kind struct {
	name    string
	version int
	eocLow  fat.ClusterID
	eocHigh fat.ClusterID
	bad     fat.ClusterID
}

var kinds = []kind{
	{"FAT12", 12, 0xFF8, 0xFFF, 0xFF7},
	{"FAT16", 16, 0xFFF8, 0xFFFF, 0xFFF7},
	{"FAT32", 32, 0x0FFFFFF8, 0x0FFFFFFF, 0x0FFFFFF7},
}

// vol is a small FAT volume that implements what FATDriver needs from a
// version-specific driver. It is the harness's own model of the volume.
type vol struct {
	x      *core.X
	kind   kind
	bs     *fat.FATBootSector
	n      int             // clusters that are modelled
	ids    []fat.ClusterID // their numbers, ascending; every other number up to the last is valid but unused
	slots  map[fat.ClusterID]int
	table  map[fat.ClusterID]fat.ClusterID
	root   []byte // raw root directory
	data   []byte // data area
	eof    bool   // ReadAt reports io.EOF together with the last byte
	faulty bool   // offer failures

	failed  bool // a failure was injected
	deleted []string
	freed   []fat.ClusterID
	updates int
}

func newVol(x *core.X, k kind, bps, spc, first, n int) *vol {
	v := &vol{x: x, kind: k, n: n, table: map[fat.ClusterID]fat.ClusterID{}}
	v.bs = &fat.FATBootSector{
		BytesPerCluster:   uint(bps * spc),
		TotalClusters:     uint(n),
		TotalDataSectors:  uint(n * spc),
		FirstDataSector:   fat.SectorID(first),
		FATVersion:        k.version,
		DirentsPerCluster: bps * spc / 32,
		SectorsPerFAT:     1,
		TotalFATSectors:   1,
	}
	v.bs.BytesPerSector = uint16(bps)
	v.bs.SectorsPerCluster = uint8(spc)
	v.bs.ReservedSectors = uint16(first - 1)
	v.bs.NumFATs = 1
	v.number(nil)
	v.data = make([]byte, n*bps*spc)
	for c := 0; c < n; c++ {
		fill(v.cluster(v.ids[c]), c+2)
	}
	return v
}

// number gives the modelled clusters their numbers, 2 and so on by default.
func (v *vol) number(ids []fat.ClusterID) {
	v.ids, v.slots = nil, map[fat.ClusterID]int{}
	for i := 0; i < v.n; i++ {
		c := fat.ClusterID(2 + i)
		if ids != nil {
			c = ids[i]
		}
		v.ids = append(v.ids, c)
		v.slots[c] = i
	}
	last := v.last()
	v.bs.TotalClusters = uint(last) - 1
	v.bs.TotalDataSectors = v.bs.TotalClusters * uint(v.bs.SectorsPerCluster)
}

func (v *vol) last() fat.ClusterID { return v.ids[v.n-1] }

// scattered returns n cluster numbers whose bytes and halves differ.
func scattered(k kind, n int) []fat.ClusterID {
	var l []fat.ClusterID
	switch k.version {
	case 12:
		l = []fat.ClusterID{2, 0x0F6, 0x102, 0x5F7, 0x7FF, 0x802, 0x900, 0xF02, 0xFE9, 0xFF0, 0xFF5, 0xFF6}
	case 16:
		l = []fat.ClusterID{2, 0xF6, 0x102, 0xFF8, 0xFFF, 0x1002, 0x7FFF, 0x8000, 0xF002, 0xFF02, 0xFFF0, 0xFFF6}
	case 32:
		l = []fat.ClusterID{2, 0x102, 0xFFF8, 0xFFFF, 0x10000, 0x10002, 0xFFFFFF, 0x1000002, 0x7FFFFFF, 0x8000002, 0xFFFFFF0, 0xFFFFFF6}
	}
	// The first and the last, and others from the middle.
	out := []fat.ClusterID{}
	for i := 0; i < n; i++ {
		out = append(out, l[i*(len(l)-1)/max(1, n-1)])
	}
	return out
}

// fill writes content that is different for every cluster and every offset.
func fill(b []byte, seed int) {
	for i := range b {
		b[i] = byte(seed*37 + seed>>8*(5+i%3*2) + seed>>16*(11+i%2*4) + i*7 + (i>>8)*13 + 1)
	}
}

func (v *vol) cluster(c fat.ClusterID) []byte {
	size := int(v.bs.BytesPerCluster)
	i, ok := v.slots[c]
	if !ok {
		panic(fmt.Sprintf("harness error: cluster %d is not modelled", c))
	}
	return v.data[i*size : (i+1)*size]
}

func (v *vol) fault(what string) error {
	if v.faulty && v.x.Deviate(2, what+" fails") == 1 {
		v.failed = true
		return errInjected
	}
	return nil
}

func (v *vol) GetBootSector() *fat.FATBootSector { return v.bs }

func (v *vol) GetClusterAtIndex(index uint) (fat.ClusterID, error) {
	if err := v.fault("reading the table"); err != nil {
		return 0, err
	}
	c, ok := v.table[fat.ClusterID(index)]
	if !ok {
		return 0, fmt.Errorf("no table entry %d", index)
	}
	return c, nil
}

func (v *vol) SetClusterAtIndex(index uint, cluster fat.ClusterID) error {
	v.x.Fail("the table entry %d was set to 0x%x", index, cluster)
	return nil
}

func (v *vol) GetNextClusterInChain(cluster fat.ClusterID) (fat.ClusterID, error) {
	return v.GetClusterAtIndex(uint(cluster))
}

func (v *vol) IsValidCluster(c fat.ClusterID) bool { return c >= 2 && c <= v.last() }
func (v *vol) IsEndOfChain(c fat.ClusterID) bool   { return c >= v.kind.eocLow }

func dirents(x *core.X, bs *fat.FATBootSector, raw []byte) []fat.Dirent {
	list := []fat.Dirent{}
	for i := 0; i+32 <= len(raw) && raw[i] != 0; i += 32 {
		r, err := fat.NewRawDirentFromBytes(raw[i : i+32])
		if err != nil {
			x.Abandon()
		}
		d, err := fat.NewDirentFromRaw(bs, &r)
		if err != nil {
			x.Abandon()
		}
		list = append(list, d)
	}
	return list
}

func (v *vol) ListRootDirectory() ([]fat.Dirent, error) {
	if err := v.fault("listing the root"); err != nil {
		return nil, err
	}
	return dirents(v.x, v.bs, v.root), nil
}

func (v *vol) AllocateCluster(count uint) ([]fat.ClusterID, error) {
	v.x.Fail("%d clusters were allocated", count)
	return nil, errInjected
}

func (v *vol) FreeCluster(c fat.ClusterID) error {
	v.x.Logf("FreeCluster(%d)", c)
	if err := v.fault("freeing a cluster"); err != nil {
		return err
	}
	v.freed = append(v.freed, c)
	v.table[c] = 0
	return nil
}

func (v *vol) UpdateDirent(d *fat.Dirent) error {
	v.updates++
	return nil
}

func (v *vol) DeleteDirent(d, parent *fat.Dirent) error {
	v.x.Logf("DeleteDirent(%q in cluster %d)", d.Name(), parent.FirstCluster)
	v.x.Assert(len(v.freed) == 0 || v.deleted != nil, "clusters %v were freed before the entry was deleted", v.freed)
	if err := v.fault("deleting the entry"); err != nil {
		return err
	}
	v.x.Assert(parent.IsDir(), "the parent passed for deleting %q is no directory", d.Name())
	if !v.erase(parent.FirstCluster, d.Name(), d.FirstCluster) {
		v.x.Fail("an entry %q (cluster %d) that is not in directory %d was to be deleted", d.Name(), d.FirstCluster, parent.FirstCluster)
	}
	v.deleted = append(v.deleted, d.Name())
	return nil
}

// dirBytes calls f for every part of a directory until f returns true.
func (v *vol) dirBytes(dir fat.ClusterID, f func(b []byte) bool) bool {
	if dir == 0 {
		return f(v.root)
	}
	for steps := 0; v.IsValidCluster(dir) && steps <= v.n; steps++ {
		if f(v.cluster(dir)) {
			return true
		}
		dir = v.table[dir]
	}
	return false
}

func (v *vol) erase(dir fat.ClusterID, name string, first fat.ClusterID) bool {
	return v.dirBytes(dir, func(b []byte) bool {
		for i := 0; i+32 <= len(b) && b[i] != 0; i += 32 {
			if b[i] != 0xE5 && rawName(b[i:]) == name && rawFirst(b[i:]) == first {
				b[i+13] = b[i]
				b[i] = 0xE5
				return true
			}
		}
		return false
	})
}

func rawFirst(b []byte) fat.ClusterID {
	return fat.ClusterID(binary.LittleEndian.Uint16(b[20:]))<<16 | fat.ClusterID(binary.LittleEndian.Uint16(b[26:]))
}

func rawName(b []byte) string {
	stem := bytes.TrimRight(b[:8], " ")
	ext := bytes.TrimRight(b[8:11], " ")
	s := append([]byte{}, stem...)
	if s[0] == 5 {
		s[0] = 0xE5
	}
	if len(ext) > 0 {
		s = append(append(s, '.'), ext...)
	}
	return string(s)
}

// entry builds a raw directory entry.
func entry(stem, ext string, attr byte, first fat.ClusterID, size int) []byte {
	b := bytes.Repeat([]byte{' '}, 11)
	copy(b, stem)
	copy(b[8:], ext)
	b = append(b, make([]byte, 21)...)
	b[11] = attr
	binary.LittleEndian.PutUint16(b[16:], 0x5021)
	binary.LittleEndian.PutUint16(b[18:], 0x5021)
	binary.LittleEndian.PutUint16(b[24:], 0x5021)
	binary.LittleEndian.PutUint16(b[20:], uint16(first>>16))
	binary.LittleEndian.PutUint16(b[26:], uint16(first))
	binary.LittleEndian.PutUint32(b[28:], uint32(size))
	return b
}

// image is what the driver reads sectors from.
type image struct{ v *vol }

func (m image) ReadAt(p []byte, off int64) (int, error) {
	v := m.v
	if err := v.fault("reading sectors"); err != nil {
		return 0, err
	}
	cs := int64(v.bs.BytesPerCluster)
	base := int64(v.bs.FirstDataSector) * int64(v.bs.BytesPerSector)
	size := base + int64(v.last()-1)*cs
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= size {
		return 0, io.EOF
	}
	n := 0
	for n < len(p) && off+int64(n) < base {
		p[n] = 0xA5 // reserved sectors and tables
		n++
	}
	for n < len(p) && off+int64(n) < size {
		at := off + int64(n) - base
		part := p[n:]
		if int64(len(part)) > cs-at%cs {
			part = part[:cs-at%cs]
		}
		if i, ok := v.slots[fat.ClusterID(2+at/cs)]; ok {
			n += copy(part, v.data[int64(i)*cs+at%cs:(int64(i)+1)*cs])
		} else {
			for j := range part {
				part[j] = 0x5A // the other clusters
			}
			n += len(part)
		}
	}
	if n < len(p) || v.eof && off+int64(n) == size {
		return n, io.EOF
	}
	return n, nil
}

// driver makes a FATDriver over the volume. Its two fields are not exported
// and nothing in the package sets them, so they are found by their types.
func driver(x *core.X, fs fat.FATDriverCommon, img io.ReaderAt) *fat.FATDriver {
	d := &fat.FATDriver{}
	t := reflect.TypeOf(*d)
	common := reflect.TypeOf((*fat.FATDriverCommon)(nil)).Elem()
	have := 0
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		p := unsafe.Add(unsafe.Pointer(d), f.Offset)
		switch {
		case f.Type == common:
			*(*fat.FATDriverCommon)(p) = fs
			have |= 1
		case f.Type.Kind() == reflect.Interface && reflect.TypeOf(img).Implements(f.Type):
			reflect.NewAt(f.Type, p).Elem().Set(reflect.ValueOf(img))
			have |= 2
		}
	}
	if have != 3 {
		panic("harness error: FATDriver has no fields for the driver and the image")
	}
	return d
}

// chain follows a chain in the model: the clusters, and whether it is intact.
func (v *vol) chain(start fat.ClusterID) (list []fat.ClusterID, intact bool) {
	seen := map[fat.ClusterID]bool{}
	for c := start; !v.IsEndOfChain(c); c = v.table[c] {
		if !v.IsValidCluster(c) || seen[c] {
			return list, false
		}
		seen[c] = true
		list = append(list, c)
	}
	return list, true
}

// content is the model's view of a file: its bytes, and whether they exist.
func (v *vol) content(start fat.ClusterID, size int) ([]byte, bool) {
	if size == 0 {
		return nil, true
	}
	list, intact := v.chain(start)
	if !intact {
		return nil, false
	}
	var b []byte
	for _, c := range list {
		b = append(b, v.cluster(c)...)
	}
	if len(b) < size {
		return nil, false
	}
	return b[:size], true
}

// list is the model's view of a directory: its raw entries, and whether its
// chain is intact.
func (v *vol) list(dir fat.ClusterID) (raw [][]byte, intact bool) {
	if dir != 0 {
		if _, ok := v.chain(dir); !ok {
			return nil, false
		}
	}
	v.dirBytes(dir, func(b []byte) bool {
		for i := 0; i+32 <= len(b); i += 32 {
			if b[i] == 0 {
				return true
			}
			if b[i] != 0xE5 {
				raw = append(raw, b[i:i+32])
			}
		}
		return false
	})
	return raw, true
}
