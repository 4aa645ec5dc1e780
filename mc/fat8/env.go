package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"unsafe"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"
	core "github.com/dargueta/disko/zzverif/core"
)

// medium is the documented layout of one kind of image, written out here
// independently of the driver.
type medium struct {
	name      string
	sectors   int // size of the image
	perTrack  int
	tracks    int // tracks that hold data
	dirTrack  int // counted from 0
	perFAT    int // sectors per allocation table
	wholeSize int // bytes
}

var media = []medium{
	{"minifloppy (640 sectors)", 640, 16, 40, 17, 1, 640 * 128},
	{"floppy (1898 sectors)", 1898, 26, 73, 34, 2, 1898 * 128},
	{"floppy (2002 sectors)", 2002, 26, 73, 34, 2, 2002 * 128},
}

func (m medium) perCluster() int   { return m.perTrack / 2 }
func (m medium) clusterBytes() int { return m.perCluster() * 128 }
func (m medium) clusters() int     { return m.tracks * 2 }
func (m medium) dirStart() int     { return m.dirTrack * m.perTrack }
func (m medium) fatStart() int     { return m.dirStart() + m.perTrack - 3*m.perFAT }
func (m medium) info() int         { return m.fatStart() - 1 }
func (m medium) fatBytes() int     { return m.perFAT * 128 }

// clusterAt is the byte offset of cluster n (counted from 1).
func (m medium) clusterAt(n int) int { return (n - 1) * m.clusterBytes() }

// reserved tells whether cluster n lies in the directory track.
func (m medium) reserved(n int) bool {
	first := (n - 1) * m.perCluster()
	return first >= m.dirStart() && first < m.dirStart()+m.perTrack
}

// blank is a freshly formatted image as documented.
func (m medium) blank() []byte {
	img := make([]byte, m.wholeSize)
	for i := m.dirStart() * 128; i < m.info()*128; i++ {
		img[i] = 0xFF
	}
	for k := 0; k < 3; k++ {
		t := img[m.fatStart()*128+k*m.fatBytes():][:m.fatBytes()]
		for i := range t {
			t[i] = 0xFF
			if i < m.clusters() && m.reserved(i+1) {
				t[i] = 0xFE
			}
		}
	}
	return img
}

func (m medium) freeEntries(img []byte) int {
	n := 0
	for _, e := range img[m.fatStart()*128:][:m.clusters()] {
		if e == 0xFF {
			n++
		}
	}
	return n
}

func pattern(n int, seed uint32) []byte {
	out := make([]byte, n)
	v := seed*2654435761 + 977
	for i := range out {
		v ^= v << 13
		v ^= v >> 17
		v ^= v << 5
		out[i] = byte(v >> 9)
	}
	return out
}

type usedKey struct {
	sectors int
	seed    uint32
}

var usedCache = map[usedKey][]byte{}

// used is a valid image with files: varied content and allocation table.
func (m medium) used(seed uint32) []byte {
	k := usedKey{m.sectors, seed}
	if usedCache[k] == nil {
		usedCache[k] = m.makeUsed(seed)
	}
	return append([]byte{}, usedCache[k]...)
}

func (m medium) makeUsed(seed uint32) []byte {
	img := pattern(m.wholeSize, seed)
	blank := m.blank()
	copy(img[m.dirStart()*128:][:m.perTrack*128], blank[m.dirStart()*128:])
	img[m.info()*128] = byte(seed * 37)
	t := pattern(m.fatBytes(), seed+5)
	for i := range t {
		switch {
		case i >= m.clusters():
		case m.reserved(i + 1):
			t[i] = 0xFE
		case t[i]%3 == 0:
			t[i] = 0xFF
		case t[i]%3 == 1:
			t[i] = 0xC0 + t[i]%14
		default:
			t[i] = byte(1 + int(t[i])%m.clusters())
		}
	}
	for k := 0; k < 3; k++ {
		copy(img[m.fatStart()*128+k*m.fatBytes():], t)
	}
	return img
}

// scratch files, one per slot and worker process
var files [3]*os.File

func scratchFile(slot int) *os.File {
	if files[slot] == nil {
		f, err := os.CreateTemp(os.Getenv("MC_TMP"), "image")
		if err != nil {
			panic("harness error: " + err.Error())
		}
		files[slot] = f
	}
	return files[slot]
}

// load sets the content of a scratch file.
func load(slot int, content []byte) *os.File {
	f := scratchFile(slot)
	err := f.Truncate(int64(len(content)))
	if errors.Is(err, os.ErrClosed) { // by the code under test
		name := f.Name()
		f, err = os.OpenFile(name, os.O_RDWR, 0)
		must(err)
		files[slot] = f
		err = f.Truncate(int64(len(content)))
	}
	must(err)
	if len(content) > 0 {
		_, err := f.WriteAt(content, 0)
		must(err)
	}
	_, err = f.Seek(0, 0)
	must(err)
	return f
}

func must(err error) {
	if err != nil {
		panic("harness error: " + err.Error())
	}
}

// content reads a file by its path: the driver's handle is not involved.
func content(f *os.File) []byte {
	g, err := os.Open(f.Name())
	must(err)
	defer g.Close()
	st, err := g.Stat()
	must(err)
	if n := int(st.Size()); cap(readBuffer) < n {
		readBuffer = make([]byte, n)
	}
	b := readBuffer[:st.Size()]
	_, err = io.ReadFull(g, b)
	must(err)
	return b
}

var readBuffer []byte

// differs describes the first difference, or "".
func differs(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	if len(got) != len(want) {
		return fmt.Sprintf("size is %d bytes, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d (sector %d) is %#02x, want %#02x", i, i/128, got[i], want[i])
		}
	}
	return "?"
}

func same(x *core.X, f *os.File, want []byte, what string) {
	if d := differs(content(f), want); d != "" {
		x.Fail("%s: the image differs: %s", what, d)
	}
}

// size is a formatter option with an arbitrary size.
type size int64

func (s size) Metadata() any         { return nil }
func (s size) TotalSizeBytes() int64 { return int64(s) }

// mounted returns a mounted driver of an image.
func mounted(x *core.X, slot int, img []byte) (*fat8.FAT8Driver, *os.File) {
	f := load(slot, img)
	d := fat8.NewDriverFromFile(f)
	x.T()
	err := d.Mount(disko.MountFlagsAllowAll)
	x.Assert(err == nil, "mounting a valid image failed: %v", err)
	return &d, f
}

// ---- injection of private fields, by type ----

// fieldOf finds the only unexported field of the given type (or kind).
func fieldOf(v reflect.Value, match func(reflect.StructField) bool) (reflect.Value, bool) {
	var out reflect.Value
	n := 0
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.IsExported() || !match(f) {
			continue
		}
		n++
		out = reflect.NewAt(f.Type, unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem()
	}
	return out, n == 1
}

func newEntry(x *core.X, name string, clusters []int, index int, unused int) *fat8.DirectoryEntry {
	e := &fat8.DirectoryEntry{IsBinary: true, UnusedSectorsInLastCluster: uint(unused)}
	v := reflect.ValueOf(e).Elem()
	var list []fat8.PhysicalCluster
	for _, c := range clusters {
		list = append(list, fat8.PhysicalCluster(c))
	}
	cs, ok1 := fieldOf(v, func(f reflect.StructField) bool { return f.Type == reflect.TypeOf(list) })
	nm, ok2 := fieldOf(v, func(f reflect.StructField) bool { return f.Type.Kind() == reflect.String })
	ix, ok3 := fieldOf(v, func(f reflect.StructField) bool { return f.Type.Kind() == reflect.Uint })
	if !ok1 || !ok2 || !ok3 {
		x.Abandon() // entries are represented differently
	}
	cs.Set(reflect.ValueOf(list))
	nm.SetString(name)
	ix.SetUint(uint64(index))
	return e
}

func addEntry(x *core.X, d *fat8.FAT8Driver, key string, e *fat8.DirectoryEntry) {
	v := reflect.ValueOf(d).Elem()
	m, ok := fieldOf(v, func(f reflect.StructField) bool {
		return f.Type == reflect.TypeOf(map[string]fat8.DirectoryEntry{})
	})
	if !ok {
		x.Abandon()
	}
	if m.IsNil() {
		m.Set(reflect.MakeMap(m.Type()))
	}
	m.SetMapIndex(reflect.ValueOf(key), reflect.ValueOf(*e))
}
