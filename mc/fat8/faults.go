package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"syscall"
	"unsafe"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"
	core "github.com/dargueta/disko/zzverif/core"
)

// Failing system calls. A seccomp filter, installed once in each worker process,
// makes pread64, pwrite64 and ftruncate fail with EIO for certain file descriptor
// numbers only: 300+j and 350+j fail writes that touch sector j of the directory
// track (counted from the sector before it; floppies and minifloppies), 400+j and
// 450+j do the same for reads, 500 and 501 fail truncation to nothing and to
// anything else. These numbers are duplicates of the scratch file's descriptor,
// and a fault is switched on and off by renumbering the driver's *os.File.

const (
	faultSectors = 28
	noFault      = -1
)

type insn struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

// program is the filter as classic BPF.
func program() []insn {
	const (
		ld, st, ldx, add, sub, lsh, tax, ret = 0x20, 0x02, 0x61, 0x04, 0x14, 0x64, 0x07, 0x06
		addx, ldm                            = 0x0c, 0x60
		jeq, jge, jgtx, jgex                 = 0x15, 0x35, 0x2d, 0x3d
		allow, eio                           = 0x7fff0000, 0x00050000 | uint32(syscall.EIO)
		arg0, arg1, arg2, arg3               = 16, 24, 32, 40
	)
	var p []insn
	op := func(code uint16, k uint32) { p = append(p, insn{code: code, k: k}) }
	jump := func(code uint16, k uint32, jt, jf uint8) { p = append(p, insn{code, jt, jf, k}) }
	// block emits a filter for descriptors [fd, fd+faultSectors) of one call.
	block := func(nr, fd uint32, first int) {
		op(ld, 0)
		jump(jeq, nr, 0, 19) // past the block
		op(ld, arg0)
		jump(jge, fd, 0, 17)
		jump(jge, fd+faultSectors, 16, 0)
		op(sub, fd)
		op(add, uint32(first))
		op(lsh, 7)
		op(st, 0) // first byte of the failing sector
		op(ld, arg2)
		op(tax, 0)
		op(ld, arg3)
		op(addx, 0)
		op(ldx, 0)
		jump(jgtx, 0, 0, 6) // the access ends after its first byte
		op(ldm, 0)
		op(add, 128)
		op(tax, 0)
		op(ld, arg3)
		jump(jgex, 0, 1, 0) // and starts before its end
		op(ret, eio)
	}
	op(ld, 4)
	jump(jeq, 0xc000003e, 1, 0) // x86-64
	op(ret, allow)
	for i, m := range media[:2] {
		block(syscall.SYS_PWRITE64, uint32(350-50*i), m.dirStart()-1)
		block(syscall.SYS_PREAD64, uint32(450-50*i), m.dirStart()-1)
	}
	op(ld, 0)
	jump(jeq, syscall.SYS_FTRUNCATE, 0, 8)
	op(ld, arg0)
	jump(jeq, 500, 0, 2)
	op(ld, arg1)
	jump(jeq, 0, 3, 4)
	jump(jeq, 501, 0, 3)
	op(ld, arg1)
	jump(jeq, 0, 1, 0)
	op(ret, eio)
	op(ret, allow)
	return p
}

var (
	faultsTried, faultsOK bool
	faultFile             *os.File // whose descriptor the numbers are copies of
	faultPlain            int
)

// sysfd gives access to the number of a file's descriptor.
func sysfd(f *os.File) *int {
	v := reflect.ValueOf(f).Elem().Field(0).Elem() // os.file
	fd := v.FieldByName("pfd").FieldByName("Sysfd")
	return (*int)(unsafe.Pointer(fd.UnsafeAddr()))
}

// faulty returns the scratch file with the given content, and a function that
// switches its faults. It tells whether faults can be injected here.
func faulty(content []byte) (*os.File, func(fd int), bool) {
	if faultFile != nil {
		*sysfd(faultFile) = faultPlain
	}
	f := load(0, content)
	if !faultsTried {
		faultsTried = true
		faultsOK = install(f)
	}
	if faultsOK && faultFile != f {
		plain := *sysfd(f)
		for _, base := range []int{300, 350, 400, 450} {
			for j := 0; j < faultSectors; j++ {
				must(syscall.Dup3(plain, base+j, syscall.O_CLOEXEC))
			}
		}
		must(syscall.Dup3(plain, 500, syscall.O_CLOEXEC))
		must(syscall.Dup3(plain, 501, syscall.O_CLOEXEC))
		faultFile, faultPlain = f, plain
	}
	return f, func(fd int) {
		if fd == noFault {
			fd = faultPlain
		}
		*sysfd(f) = fd
	}, faultsOK
}

func install(f *os.File) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	if runtime.GOARCH != "amd64" || sysfd(f) == nil || *sysfd(f) != int(f.Fd()) {
		return false
	}
	p := program()
	prog := struct {
		n     uint16
		insns *insn
	}{uint16(len(p)), &p[0]}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 { // no new privileges
		return false
	}
	_, _, e := syscall.RawSyscall(317, 1, 1, uintptr(unsafe.Pointer(&prog))) // seccomp, for all threads
	runtime.KeepAlive(p)
	if e != 0 {
		fmt.Fprintln(os.Stderr, "no fault injection here:", e)
		return false
	}
	return true
}

// fault chooses a failing call; the names of the numbers are for the trace.
func fault(x *core.X, m medium, kinds string) int {
	floppy := 0
	if m.sectors == 640 {
		floppy = 50
	}
	n := m.perTrack + 2
	var fds []int
	for _, k := range kinds {
		switch k {
		case 'w', 'r':
			for j := 0; j < n; j++ {
				fds = append(fds, map[rune]int{'w': 300, 'r': 400}[k]+floppy+j)
			}
		case 't':
			fds = append(fds, 500, 501)
		}
	}
	fds = append(fds, noFault)
	return core.Pick(x, "failing call (3xx: write, 4xx: read of a sector of the directory track; 50x: truncation; -1: none)", fds...)
}

const faultBounds = "each medium; pwrite, pread or ftruncate of the image file fails (seccomp) at any sector of the directory track or next to it; "

func failingFormats() *core.Part {
	return &core.Part{Name: "failing calls", Bounds: faultBounds + "formatting files with 5 kinds of old content, then trying again", Body: func(x *core.X) {
		m := core.Pick(x, "medium", media...)
		fd := fault(x, m, "wt")
		x.Begin()
		f, set, ok := faulty(oldContent(x.Choose(5, "old content"), m.wholeSize))
		if !ok {
			return
		}
		defer set(noFault)
		d := fat8.NewDriverFromFile(f)
		set(fd)
		x.T()
		err := d.FormatImage(size(m.wholeSize))
		set(noFault)
		x.Logf("format: %v", err)
		if err == nil {
			same(x, f, m.blank(), "formatting that reported success")
		}
		x.Assert(fd != noFault || err == nil, "formatting failed: %v", err)
		if x.Bool("same driver") {
			x.T()
			err = d.FormatImage(size(m.wholeSize))
		} else {
			e := fat8.NewDriverFromFile(f)
			x.T()
			err = e.FormatImage(size(m.wholeSize))
		}
		x.Assert(err == nil, "formatting again, without faults, failed: %v", err)
		same(x, f, m.blank(), "formatting again")
	}}
}

func failingMounts() *core.Part {
	return &core.Part{Name: "failing calls", Bounds: faultBounds + "mounting valid volumes and ones with a damaged table, reading the table, flushing over tables damaged meanwhile, with the fault in one of these calls; then trying again", Body: func(x *core.X) {
		m := core.Pick(x, "medium", media...)
		fd := fault(x, m, "rw")
		x.Begin()
		img := m.blank()
		if x.Bool("used") {
			img = m.used(1)
		}
		t := append([]byte{}, img[m.fatStart()*128:][:m.fatBytes()]...)
		damaged := x.Choose(4, "damaged table")
		if damaged > 0 {
			img[m.fatStart()*128+(damaged-1)*m.fatBytes()+core.Pick(x, "byte", 0, m.fatBytes()-1)] ^= 0x40
		}
		f, set, ok := faulty(img)
		if !ok {
			return
		}
		defer set(noFault)
		d := fat8.NewDriverFromFile(f)
		set(fd)
		x.T()
		err := d.Mount(disko.MountFlagsAllowAll)
		set(noFault)
		x.Logf("mount: %v", err)
		x.Assert(err != nil || damaged == 0, "a volume with a damaged table was mounted")
		x.Assert(err == nil || fd != noFault || damaged > 0, "mounting failed: %v", err)
		if err != nil {
			x.T()
			err = d.Mount(disko.MountFlagsAllowAll)
			x.Assert((err == nil) == (damaged == 0), "mounting again, without faults (damaged table: %d): %v", damaged, err)
			if err != nil {
				same(x, f, img, "refused mounts")
				return
			}
		}
		checkMountStats(x, &d, m, img)
		set(fd)
		x.T()
		got, err := d.GetFAT()
		set(noFault)
		x.Assert(err == nil || fd != noFault, "reading the table failed: %v", err)
		x.Assert(err != nil || bytes.Equal(got, t), "the table was read wrong")
		if hit := x.Choose(4, "table damaged while mounted"); hit > 0 {
			at := int64(m.fatStart()*128 + (hit-1)*m.fatBytes() + core.Pick(x, "byte", 0, m.fatBytes()-1))
			b := []byte{img[at] ^ 0x11}
			_, err := f.WriteAt(b, at)
			must(err)
		}
		set(fd)
		x.T()
		err = d.Flush()
		set(noFault)
		x.Assert(err == nil || fd != noFault, "flushing failed: %v", err)
		if err != nil {
			x.T()
			err = d.Flush()
			x.Assert(err == nil, "flushing again, without faults, failed: %v", err)
		}
		same(x, f, img, "after flushing reported success")
	}}
}

func failingAccess() *core.Part {
	return &core.Part{Name: "failing calls", Bounds: faultBounds + "reading and writing ranges of 1-3 sectors and clusters around the directory track, then trying again; and with the image file cut off at any of these sectors", Body: func(x *core.X) {
		m := core.Pick(x, "medium", media...)
		fd := fault(x, m, "rw")
		at := x.Choose(m.perTrack+2, "sector")
		x.Begin()
		img := m.used(11)
		f, set, ok := faulty(img)
		if !ok {
			return
		}
		defer set(noFault)
		d := fat8.NewDriverFromFile(f)
		x.T()
		x.Assert(d.Mount(disko.MountFlagsAllowAll) == nil, "mounting failed")
		start := m.dirStart() - 1 + at
		count := x.Choose(4, "sectors (0: the cluster)")
		cluster := fat8.PhysicalCluster(start/m.perCluster() + 1)
		if count == 0 {
			start = start / m.perCluster() * m.perCluster()
		}
		read := func() ([]byte, error) {
			x.T()
			if count == 0 {
				return d.ReadAbsoluteCluster(cluster)
			}
			return d.ReadDiskBlocks(fat8.PhysicalBlock(start), uint(count))
		}
		n := count * 128
		if count == 0 {
			n = m.clusterBytes()
		}
		place := img[start*128 : start*128+n]
		data := pattern(n, 77)
		// Which access must work: the failing sector lies elsewhere.
		lo := -1
		if fd != noFault {
			lo = m.dirStart() - 1 + fd%50
		}
		hit := fd != noFault && lo*128 < start*128+n && lo >= start

		set(fd)
		got, err := read()
		set(noFault)
		x.Assert(err != nil || bytes.Equal(got, place), "a read of sector %d reported success with wrong data", start)
		x.Assert(err == nil || hit, "reading at sector %d failed: %v", start, err)
		got, err = read()
		x.Assert(err == nil && bytes.Equal(got, place), "reading sector %d again: %v", start, err)

		if cut := core.Pick(x, "file cut off before the end of the range", -1, 0, 1, 127, 128, n); cut >= 0 && cut <= n {
			must(f.Truncate(int64(start*128 + n - cut)))
			got, err := read()
			x.Assert(err != nil || cut == 0 && bytes.Equal(got, place), "reading sectors at %d of which %d bytes are missing reported success", start, cut)
			return
		}

		set(fd)
		x.T()
		if count == 0 {
			err = d.WriteAbsoluteCluster(cluster, data)
		} else {
			err = d.WriteDiskBlocks(fat8.PhysicalBlock(start), data)
		}
		set(noFault)
		x.Assert(err == nil || hit, "writing at sector %d failed: %v", start, err)
		now := append([]byte{}, content(f)...)
		if err == nil {
			x.Assert(bytes.Equal(now[start*128:][:n], data), "a write at sector %d reported success without storing the data", start)
		}
		copy(now[start*128:], place)
		if diff := differs(now, img); diff != "" {
			x.Fail("a failing write at sector %d changed something else: %s", start, diff)
		}
		x.T()
		if count == 0 {
			err = d.WriteAbsoluteCluster(cluster, data)
		} else {
			err = d.WriteDiskBlocks(fat8.PhysicalBlock(start), data)
		}
		x.Assert(err == nil, "writing at sector %d again: %v", start, err)
		copy(place, data)
		same(x, f, img, "after writing again")
	}}
}
