package main

import (
	"bytes"
	"io"
	"math"
	"runtime/debug"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	bs "github.com/dargueta/disko/file_systems/common/basicstream"
	bc "github.com/dargueta/disko/file_systems/common/blockcache"
	core "github.com/dargueta/disko/zzverif/core"
)

// farBody explores a file of a little over 4 GiB, of which almost nothing is
// ever loaded. The storage keeps only blocks that differ from their initial
// content, the model only bytes that were written.
func farBody(x *core.X) {
	bsize := core.Pick(x, "block size", 65536)
	x.Begin()
	defer debug.FreeOSMemory()
	n := (1<<32)/bsize + 4
	size := int64(n-1)*int64(bsize) - 5
	blocks := map[int][]byte{}
	initial := func(off int64) byte { return byte(off*7 + off>>8*3 + off>>16*5 + off>>24*11 + off>>32*13 + 1) }
	store := func(b int) []byte {
		if p, ok := blocks[b]; ok {
			return p
		}
		p := make([]byte, bsize)
		for i := range p {
			off := int64(b)*int64(bsize) + int64(i)
			p[i] = initial(off)
			if off >= size {
				p[i] = garbage
			}
		}
		return p
	}
	cache := bc.New(uint(bsize), uint(n), func(b c.LogicalBlock, buf []byte) error {
		x.Assert(int(b) < n && len(buf) == bsize, "fetch of block %d of %d, buffer %d", b, n, len(buf))
		copy(buf, store(int(b)))
		return nil
	}, func(b c.LogicalBlock, buf []byte) error {
		x.Assert(int(b) < n && len(buf) == bsize, "flush of block %d of %d, buffer %d", b, n, len(buf))
		blocks[int(b)] = append([]byte(nil), buf...)
		return nil
	}, func(c.LogicalBlock) error {
		x.Fail("a write inside the storage resized it")
		return nil
	})
	s, err := bs.New(size, cache, rw)
	x.Assert(err == nil && s.Size() == size, "New(%d): %v", size, err)
	model := map[int64]byte{}
	length := size
	at := func(off int64) byte {
		if v, ok := model[off]; ok {
			return v
		}
		if off >= size {
			return 0
		}
		return initial(off)
	}
	var places []int64
	for _, p := range []int64{0, 1 << 16, 1 << 24, 1 << 31, 1<<31 + 1<<16, 1 << 32, 1<<32 + 1<<16, length} {
		if p <= length {
			places = append(places, p)
		}
	}
	lens := []int{1, 2, bsize - 1, bsize, bsize + 1, 2*bsize + 1}
	read := func() {
		for _, p := range places {
			for _, d := range []int64{-3, -1, 0, 1} {
				for _, l := range []int{1, 7, bsize + 1} {
					off := p + d
					if off < 0 {
						continue
					}
					x.T()
					want := int(min(max(length-off, 0), int64(l)))
					buf := make([]byte, l)
					k, err := s.ReadAt(buf, off)
					x.Assert(k == want && (err == nil || k < l && err == io.EOF) && (k == l || err == io.EOF), "ReadAt(%d bytes, offset %d) of %d bytes: %d, %v", l, off, length, k, err)
					for i := range buf[:k] {
						x.Assert(buf[i] == at(off+int64(i)), "ReadAt(%d bytes, offset %d) of %d bytes: byte %d is %#x, expected %#x", l, off, length, i, buf[i], at(off+int64(i)))
					}
					q, err := s.Seek(off, io.SeekStart)
					x.Assert(err == nil && q == off, "Seek(%d): %d, %v", off, q, err)
					again := make([]byte, l)
					j, err := s.Read(again)
					x.Assert(j == k && bytes.Equal(again, buf) && s.Tell() == off+int64(k), "Read at %d: %d, %v, position then %d", off, j, err, s.Tell())
				}
			}
		}
	}
	read()
	for i, p := range places {
		for j, d := range []int64{-2, 0, 1} {
			off := p + d
			l := lens[(i*3+j)%len(lens)]
			if off < 0 {
				continue
			}
			if off+int64(l) > int64(n)*int64(bsize) {
				l = 3
			}
			b := make([]byte, l)
			for k := range b {
				b[k] = byte(i*17 + j*5 + k*3 + k>>8)
				model[off+int64(k)] = b[k]
			}
			x.T()
			var k int
			if j == 1 {
				k, err = s.WriteAt(b, off)
			} else {
				q, err2 := s.Seek(off-s.Tell(), io.SeekCurrent)
				x.Assert(err2 == nil && q == off, "Seek to %d: %d, %v", off, q, err2)
				k, err = s.Write(b)
				x.Assert(s.Tell() == off+int64(l), "after Write(%d bytes) at %d the position is %d", l, off, s.Tell())
			}
			x.Assert(err == nil && k == l, "writing %d bytes at %d: %d, %v", l, off, k, err)
			length = max(length, off+int64(l))
			x.Assert(s.Size() == length, "after writing %d bytes at %d the size is %d, expected %d", l, off, s.Size(), length)
		}
	}
	read()
	q, err := s.Seek(-1, io.SeekEnd)
	x.Assert(err == nil && q == length-1, "Seek(-1, end): %d, %v", q, err)
	var sink bytes.Buffer
	_, err = s.Seek(int64(-bsize-9), io.SeekEnd)
	x.Assert(err == nil, "Seek: %v", err)
	m, err := s.WriteTo(&sink)
	x.Assert(err == nil && m == int64(bsize+10-1) && sink.Len() == int(m), "WriteTo the last %d bytes: %d, %v", bsize+9, m, err)
	for i, v := range sink.Bytes() {
		x.Assert(v == at(length-m+int64(i)), "WriteTo gave a wrong byte %d from the end", m-int64(i))
	}
	err = s.Sync()
	x.Assert(err == nil, "Sync: %v", err)
	for off, v := range model {
		b := int(off / int64(bsize))
		x.Assert(blocks[b] != nil && blocks[b][off%int64(bsize)] == v, "after Sync byte %d is not in storage", off)
	}
	for b, p := range blocks {
		for i, v := range p {
			off := int64(b)*int64(bsize) + int64(i)
			if off < length {
				x.Assert(v == at(off), "after Sync byte %d is %#x in storage, expected %#x", off, v, at(off))
			}
		}
	}
	for _, off := range []int64{length, length + 1, 1 << 33, 1 << 40, math.MaxInt64} {
		k, err := s.ReadAt(make([]byte, 3), off)
		x.Assert(k == 0 && err == io.EOF, "ReadAt(offset %d) of %d bytes: %d, %v", off, length, k, err)
	}
}

// farGrow grows a small file past 4 GiB.
func farGrow(x *core.X) {
	way := x.Choose(3, "Truncate/WriteAt/Seek and Write")
	x.Begin()
	defer debug.FreeOSMemory()
	const bsize = 1 << 20
	n := 1
	size := int64(700)
	first := make([]byte, bsize)
	for i := range first {
		first[i] = garbage
		if int64(i) < size {
			first[i] = pat(1, i)
		}
	}
	blocks := map[int][]byte{0: first}
	zero := make([]byte, bsize)
	stored := map[int]bool{}
	cache := bc.New(bsize, 1, func(b c.LogicalBlock, buf []byte) error {
		x.Assert(int(b) < n && len(buf) == bsize, "fetch of block %d of %d, buffer %d", b, n, len(buf))
		for i := range buf {
			buf[i] = garbage
		}
		copy(buf, blocks[int(b)])
		return nil
	}, func(b c.LogicalBlock, buf []byte) error {
		x.Assert(int(b) < n && len(buf) == bsize, "flush of block %d of %d, buffer %d", b, n, len(buf))
		stored[int(b)] = true
		delete(blocks, int(b))
		if !bytes.Equal(buf, zero) {
			blocks[int(b)] = append([]byte(nil), buf...)
		}
		return nil
	}, func(k c.LogicalBlock) error {
		if k > 1<<14 {
			return disko.ErrFileTooLarge
		}
		n = int(k)
		return nil
	})
	s, err := bs.New(size, cache, rw)
	x.Assert(err == nil, "New: %v", err)
	end := int64(1<<32) + 77
	tail := []byte{}
	x.T()
	switch way {
	case 0:
		err = s.Truncate(end)
	case 1:
		tail = []byte{1, 2, 3}
		_, err = s.WriteAt(tail, end-3)
	case 2:
		tail = []byte{4, 5}
		_, err = s.Seek(end-2, io.SeekStart)
		x.Assert(err == nil, "Seek: %v", err)
		_, err = s.Write(tail)
		x.Assert(s.Tell() == end, "the position is %d, expected %d", s.Tell(), end)
	}
	x.Assert(err == nil && s.Size() == end, "growing to %d bytes: %v, size %d", end, err, s.Size())
	x.Assert(n == 1<<12+1, "a file of %d bytes has %d blocks of %d", end, n, bsize)
	buf := make([]byte, 100)
	for _, off := range []int64{0, 650, 1<<20 - 50, 1<<31 - 50, 1<<32 - 50, end - 100} {
		k, err := s.ReadAt(buf, off)
		x.Assert(k == 100 && err == nil, "ReadAt(100, %d): %d, %v", off, k, err)
		for i, v := range buf {
			p := off + int64(i)
			want := byte(0)
			if p < size {
				want = pat(1, int(p))
			} else if p >= end-int64(len(tail)) {
				want = tail[p-(end-int64(len(tail)))]
			}
			x.Assert(v == want, "byte %d of the file grown to %d bytes is %#x, expected %#x", p, end, v, want)
		}
	}
	err = s.Sync()
	x.Assert(err == nil, "Sync: %v", err)
	for b := 0; b < n; b++ {
		x.Assert(stored[b] || b == 0 && !stored[0], "after Sync new block %d was not stored", b)
		for i, v := range blocks[b] {
			p := int64(b)*bsize + int64(i)
			want := byte(0)
			if p < size {
				want = pat(1, int(p))
			} else if p >= end-int64(len(tail)) && p < end {
				want = tail[p-(end-int64(len(tail)))]
			}
			x.Assert(v == want || p >= end, "byte %d is %#x in storage, expected %#x", p, v, want)
		}
	}
}
