package main

import (
	"bytes"
	"fmt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"
	core "github.com/dargueta/disko/zzverif/core"
)

// Contents and repetitions: behaviour that depends on which bytes are stored,
// or on how often something has been done.

// filled is n bytes of kind k; kind 3 is what is there already.
func filled(k int, old []byte) []byte {
	if k == 3 {
		return append([]byte{}, old...)
	}
	return bytes.Repeat([]byte{[]byte{0, 0xFF, 0xE5, 0, 0xFE}[k]}, len(old))
}

// contentWrites: every sequence of writes of special contents.
func contentWrites(depth int) *core.Part {
	return &core.Part{Name: "contents", Bounds: fmt.Sprintf("each medium with patterns, zeros or 0xFF in it; all sequences of %d writes of zeros, 0xFF, 0xE5, 0xFE or the present content to 3 clusters and 3 sector ranges", depth), Body: func(x *core.X) {
		m := core.Pick(x, "medium", media...)
		initial := x.Choose(3, "image: patterns, zeros, 0xFF")
		first := x.Choose(30, "first write")
		x.Begin()
		img := m.used(11)
		switch initial {
		case 1:
			img = m.blank()
		case 2:
			img = m.blank()
			for i := range img {
				if i < m.dirStart()*128 || i >= (m.dirStart()+m.perTrack)*128 {
					img[i] = 0xFF
				}
			}
		}
		d, f := mounted(x, 0, img)
		for k, op := 0, first; k < depth; k++ {
			if k > 0 {
				op = x.Choose(30, "write")
			}
			var at, n int
			where := op / 5
			if where < 3 {
				c := []int{1, m.clusters()/2 + 5, m.clusters()}[where]
				at, n = m.clusterAt(c), m.clusterBytes()
				data := filled(op%5, img[at:at+n])
				x.T()
				err := d.WriteAbsoluteCluster(fat8.PhysicalCluster(c), data)
				x.Assert(err == nil, "writing %#02x.. to cluster %d: %v", data[0], c, err)
				copy(img[at:], data)
				x.T()
				got, err := d.ReadAbsoluteCluster(fat8.PhysicalCluster(c))
				x.Assert(err == nil && bytes.Equal(got, data), "cluster %d, filled with %#02x, reads wrong (%v)", c, data[0], err)
			} else {
				s := []int{0, 3, m.sectors - 2}[where-3]
				at, n = s*128, []int{128, 5 * 128, 256}[where-3]
				data := filled(op%5, img[at:at+n])
				x.T()
				err := d.WriteDiskBlocks(fat8.PhysicalBlock(s), data)
				x.Assert(err == nil, "writing %#02x.. to %d bytes at sector %d: %v", data[0], n, s, err)
				copy(img[at:], data)
				x.T()
				got, err := d.ReadDiskBlocks(fat8.PhysicalBlock(s), uint(n/128))
				x.Assert(err == nil && bytes.Equal(got, data), "%d bytes at sector %d, filled with %#02x, read wrong (%v)", n, s, data[0], err)
			}
			same(x, f, img, fmt.Sprintf("after write %d", k+1))
		}
	}}
}

// session is a volume used for a long time.
type session struct {
	x       *core.X
	m       medium
	img     []byte
	d       *fat8.FAT8Driver
	mounted bool
	i       int
}

const sessionOps = 9

func (s *session) do(k int) {
	x, m, d := s.x, s.m, s.d
	x.T()
	switch k {
	case 0:
		err := d.Mount(disko.MountFlagsAllowAll)
		x.Assert((err == nil) == !s.mounted, "round %d: mounting (mounted before: %v): %v", s.i, s.mounted, err)
		s.mounted = true
	case 1:
		x.Assert(d.Unmount() == nil || !s.mounted, "round %d: unmounting failed", s.i)
		s.mounted = false
	case 2:
		x.Assert(d.Flush() == nil || !s.mounted, "round %d: flushing failed", s.i)
	case 3:
		x.Assert(d.FormatImage(size(m.wholeSize)) != nil || !s.mounted, "round %d: formatting a mounted volume succeeded", s.i)
		if !s.mounted {
			s.img = m.blank()
		}
	case 4, 5:
		if !s.mounted {
			return
		}
		c := []int{2, 1 + s.i%(m.clusters()-10)}[k-4]
		if m.reserved(c) {
			c = 1
		}
		data := pattern(m.clusterBytes(), uint32(s.i))
		err := d.WriteAbsoluteCluster(fat8.PhysicalCluster(c), data)
		x.Assert(err == nil, "round %d: writing cluster %d: %v", s.i, c, err)
		copy(s.img[m.clusterAt(c):], data)
	case 6, 7:
		if !s.mounted {
			return
		}
		c := []int{2, 1 + (s.i*7)%m.clusters()}[k-6]
		got, err := d.ReadAbsoluteCluster(fat8.PhysicalCluster(c))
		x.Assert(err == nil && bytes.Equal(got, s.img[m.clusterAt(c):m.clusterAt(c)+m.clusterBytes()]), "round %d: cluster %d reads wrong (%v)", s.i, c, err)
	case 8:
		if s.mounted {
			checkMountStats(x, d, m, s.img)
			_, err := d.ReadAbsoluteCluster(fat8.PhysicalCluster(m.clusters() + 1))
			x.Assert(err != nil, "round %d: reading past the last cluster succeeds", s.i)
		}
	}
}

// sessions repeats sequences of up to three calls on one driver.
func sessions(reps int) *core.Part {
	return &core.Part{Name: "long sessions", Bounds: fmt.Sprintf("each medium: cycles of three out of %d calls (mount, unmount, flush, format, cluster accesses, statistics), repeated %d times with one driver; image compared every 10 rounds", sessionOps, reps), Body: func(x *core.X) {
		m := core.Pick(x, "medium", media...)
		a := x.Choose(sessionOps, "first call")
		b := x.Choose(sessionOps, "second call")
		c := x.Choose(sessionOps, "third call")
		x.Begin()
		s := &session{x: x, m: m, img: m.used(6)}
		d, f := mounted(x, 0, s.img)
		s.d, s.mounted = d, true
		for s.i = 0; s.i < reps; s.i++ {
			for _, k := range []int{a, b, c} {
				s.do(k)
			}
			if s.i%10 == 9 || s.i == reps-1 {
				same(x, f, s.img, fmt.Sprintf("after round %d", s.i))
			}
		}
		x.OutcomeS(fmt.Sprint(m.name, a, b, c))
	}}
}

// nameSequences: conversions do not affect each other or change what earlier
// ones returned.
func nameSequences(depth int) *core.Part {
	names := []string{"a", "A.B", "FILE.BIN", "file", "abcdef.xyz", "7", "a b.c", "Z.9", "toolongname", "x.long", "\u00e9.x", "", "aB", "zzzzzz"}
	return &core.Part{Name: "sequences", Bounds: fmt.Sprintf("all sequences of %d conversions, there and back, of %d names, then 600 more of the last", depth, len(names)), Body: func(x *core.X) {
		var ks []int
		for i := 0; i < depth; i++ {
			ks = append(ks, x.Choose(len(names), "name"))
			if i == 1 {
				x.Begin()
			}
		}
		type result struct {
			raw, keep []byte
			err       error
			text      string
			terr      error
		}
		convert := func(name string) (r result) {
			x.T()
			r.raw, r.err = fat8.FilenameToBytes(name)
			r.keep = append([]byte{}, r.raw...)
			if r.err == nil {
				x.T()
				r.text, r.terr = fat8.BytesToFilename(r.raw)
			}
			return
		}
		seen := map[string]result{}
		var all []result
		check := func(name string) {
			checkName(x, name)
			r := convert(name)
			if o, ok := seen[name]; ok {
				x.Assert(bytes.Equal(o.keep, r.raw) && (o.err == nil) == (r.err == nil) && o.text == r.text && (o.terr == nil) == (r.terr == nil), "%q converted to %q, %q before, and now to %q, %q", name, o.keep, o.text, r.raw, r.text)
			}
			seen[name] = r
			all = append(all, r)
		}
		for _, k := range ks {
			check(names[k])
		}
		if len(seen) < len(ks) {
			for i := 0; i < 600; i++ {
				check(names[ks[len(ks)-1]])
			}
		}
		for _, r := range all {
			x.Assert(bytes.Equal(r.raw, r.keep), "the stored name %q became %q in the caller's hands", r.keep, r.raw)
		}
	}}
}
