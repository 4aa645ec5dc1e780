package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime/debug"
	"sort"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	bc "github.com/dargueta/disko/file_systems/common/blockcache"
	core "github.com/dargueta/disko/zzverif/core"
)

// farBlocks lists blocks on both sides of the places where block numbers or
// byte offsets stop fitting a smaller integer.
func farBlocks(bs, n int) []int {
	seen := map[int]bool{}
	var out []int
	for _, v := range []int{0, 1 << 8, 1 << 15, 1 << 16, 1 << 24, (1 << 16) / bs, (1 << 24) / bs, (1 << 31) / bs, (1 << 32) / bs, n - 1} {
		for d := -1; d <= 1; d++ {
			if b := v + d; b >= 0 && b < n && !seen[b] {
				seen[b] = true
				out = append(out, b)
			}
		}
	}
	sort.Ints(out)
	return out
}

// sparse is a storage of which only the blocks that differ from the initial
// content are kept.
type sparse struct {
	x      *core.X
	bs, n  int
	blocks map[int][]byte
	wrote  map[int]int
}

func (s *sparse) initial(b int) []byte {
	p := make([]byte, s.bs)
	for i := range p {
		p[i] = byte(b*31 + b>>8*7 + b>>16*5 + i*3 + 1)
	}
	return p
}

func (s *sparse) get(b int) []byte {
	if p, ok := s.blocks[b]; ok {
		return p
	}
	return s.initial(b)
}

func (s *sparse) fetch(b c.LogicalBlock, buf []byte) error {
	s.x.Assert(uint(b) < uint(s.n) && len(buf) == s.bs, "fetch of block %d of %d, buffer %d", b, s.n, len(buf))
	copy(buf, s.get(int(b)))
	return nil
}

func (s *sparse) flush(b c.LogicalBlock, buf []byte) error {
	s.x.Assert(uint(b) < uint(s.n) && len(buf) == s.bs, "flush of block %d of %d, buffer %d", b, s.n, len(buf))
	s.blocks[int(b)] = append([]byte(nil), buf...)
	s.wrote[int(b)]++
	return nil
}

// sparse is also a seekable stream of bs*n bytes.
type sparseStream struct {
	*sparse
	pos int64
}

func (s *sparseStream) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(s.bs) * int64(s.n)
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off, nil
}

func (s *sparseStream) Read(p []byte) (int, error) {
	b := s.pos / int64(s.bs)
	if b >= int64(s.n) {
		return 0, io.EOF
	}
	n := copy(p, s.get(int(b))[s.pos%int64(s.bs):])
	s.pos += int64(n)
	return n, nil
}

func (s *sparseStream) Write(p []byte) (int, error) {
	n := 0
	for n < len(p) {
		b := int(s.pos / int64(s.bs))
		if b >= s.n {
			return n, io.ErrShortWrite
		}
		block := append([]byte(nil), s.get(b)...)
		m := copy(block[s.pos%int64(s.bs):], p[n:])
		s.blocks[b] = block
		s.wrote[b]++
		s.pos += int64(m)
		n += m
	}
	return n, nil
}

// far explores a cache of more than 4 GiB, almost none of which is ever loaded.
func far(stream bool) func(x *core.X) {
	return func(x *core.X) {
		bs := core.Pick(x, "block size", 512, 4096)
		x.Begin()
		x.T()
		defer debug.FreeOSMemory()
		n := (1<<32)/bs + 3
		s := &sparse{x: x, bs: bs, n: n, blocks: map[int][]byte{}, wrote: map[int]int{}}
		var cache *bc.BlockCache
		switch {
		case !stream:
			cache = bc.New(uint(bs), uint(n), s.fetch, s.flush, nil)
		case bs == 512:
			cache = bc.WrapStream(&sparseStream{sparse: s}, uint(bs), uint(n), false)
		default:
			cache = bc.WrapStreamWithInferredSize(&sparseStream{sparse: s}, uint(bs), false)
		}
		x.Assert(cache.Size() == int64(bs)*int64(n) && int(cache.TotalBlocks()) == n, "the cache has %d blocks, %d bytes, expected %d blocks of %d", cache.TotalBlocks(), cache.Size(), n, bs)
		list := farBlocks(bs, n)
		want := map[int][]byte{}
		changed := map[int]bool{}
		value := func(b, v int) []byte {
			p := make([]byte, bs)
			for i := range p {
				p[i] = byte(b*13 + b>>8*3 + b>>16*11 + i*5 + v*71)
			}
			return p
		}
		for k, b := range list {
			want[b] = s.initial(b)
			x.T()
			switch k % 4 {
			case 0: // only read
				continue
			case 1:
				copy(want[b], value(b, 1))
				_, err := cache.WriteAt(want[b], c.LogicalBlock(b))
				x.Assert(err == nil, "WriteAt of block %d of %d: %v", b, n, err)
			case 2:
				copy(want[b][:bs/2], value(b, 2))
				_, err := cache.WriteAt(want[b][:bs/2], c.LogicalBlock(b))
				x.Assert(err == nil, "WriteAt of block %d of %d: %v", b, n, err)
			case 3:
				copy(want[b], value(b, 3))
				p, err := cache.GetSlice(c.LogicalBlock(b), 1)
				x.Assert(err == nil && len(p) == bs, "GetSlice of block %d of %d: %d bytes, %v", b, n, len(p), err)
				x.Assert(bytes.Equal(p, s.initial(b)), "GetSlice of block %d of %d gave another block's data", b, n)
				copy(p, want[b])
				err = cache.MarkBlockRangeDirty(c.LogicalBlock(b), 1)
				x.Assert(err == nil, "MarkBlockRangeDirty of block %d of %d: %v", b, n, err)
			}
			changed[b] = true
		}
		read := func() {
			buf := make([]byte, bs)
			for _, b := range list {
				x.T()
				k, err := cache.ReadAt(buf, c.LogicalBlock(b))
				x.Assert(err == nil && k == bs && bytes.Equal(buf, want[b]), "ReadAt of block %d of %d blocks of %d bytes: %d, %v, content as expected: %v", b, n, bs, k, err, bytes.Equal(buf, want[b]))
			}
		}
		read()
		x.Assert(len(s.wrote) == 0, "blocks were stored before a flush")
		err := cache.Flush()
		x.Assert(err == nil, "Flush: %v", err)
		for b := range s.wrote {
			x.Assert(changed[b], "the flush wrote block %d of %d, which was not modified", b, n)
			x.Assert(s.wrote[b] == 1, "the flush wrote block %d %d times", b, s.wrote[b])
		}
		for b, p := range want {
			x.Assert(bytes.Equal(s.get(b), p), "after the flush the storage does not hold block %d of %d blocks of %d bytes", b, n, bs)
		}
		read()
		err = cache.Flush()
		x.Assert(err == nil, "Flush: %v", err)
		for b := range s.wrote {
			x.Assert(s.wrote[b] == 1, "the second flush wrote block %d", b)
		}
		for _, b := range []int{n, n + 1, 1<<32 + n} {
			_, err := cache.ReadAt(make([]byte, 1), c.LogicalBlock(b))
			x.Assert(errors.Is(err, disko.ErrArgumentOutOfRange), "ReadAt of block %d of %d: %v", b, n, err)
		}
		x.OutcomeS(fmt.Sprint(bs, len(s.wrote)))
	}
}

const farBounds = "caches of just over 4 GiB (blocks of 512 and 4096 bytes): reads, writes and flushes of blocks on both sides of block numbers 2^8, 2^15, 2^16, 2^24 and byte offsets 2^16, 2^24, 2^31, 2^32, and of the last blocks"
