package main

import (
	"bytes"
	"fmt"

	"github.com/dargueta/disko/utilities/compression"
	core "github.com/dargueta/disko/zzverif/core"
)

// item is a call that has to give a known result.
type item struct {
	c    codec
	in   []byte
	want []byte // nil: judged by restoring it with back
	back codec
	orig []byte
}

// held is a result that the caller keeps.
type held struct {
	it   item
	what string
	in   []byte // the caller's input
	got  []byte
}

func (h *held) check(x *core.X, when string) {
	x.Assert(bytes.Equal(h.in, h.it.in), "%s: the input of %s has changed", when, h.what)
	if h.it.want != nil || h.it.back.f == nil {
		x.Assert(bytes.Equal(h.got, h.it.want), "%s: the result of %s is %s, was %s", when, h.what, short(h.got), short(h.it.want))
		return
	}
	call(x, h.it.back, bytes.NewReader(h.got), h.got, h.it.orig)
}

// callSequence explores sequences of calls, some of which fail. Each starts
// from nothing, and leaves the results of earlier ones alone.
func callSequence(items func() []item, depth int) func(x *core.X) {
	var cache []item
	return func(x *core.X) {
		if cache == nil {
			cache = items()
		}
		var kept []*held
		for i := 0; i < depth; i++ {
			it := core.Pick(x, "call", cache...)
			mode := x.Choose(6, "ok, result overwritten, source fails at once, source fails later, destination fails, input cut")
			if i == 0 {
				x.Begin()
			}
			in := append([]byte{}, it.in...)
			src := &source{x: x, data: in, chunk: 3, err: errFault, sticky: true}
			if len(in) > 100 {
				src.chunk = len(in)/3 + 1
			}
			d := &sink{x: x, err: errFault, sticky: true}
			what := fmt.Sprintf("call %d, %s(%s)", i+1, it.c.name, short(it.in))
			x.T()
			var got []byte
			var n int64
			var err error
			switch mode {
			case 2:
				src.failed = errFault
			case 3:
				src.hook = func(k int) {
					if k > 2 {
						src.failed = errFault
					}
				}
			case 4:
				d.failed = errFault
			case 5:
				src.data = in[:len(in)/2]
			}
			if it.c.name == dBytes.name {
				got, err = compression.DecompressImageToBytes(src)
				n = int64(len(got))
			} else {
				n, err = it.c.f(src, d)
				got = d.buf
			}
			x.Logf("%s, mode %d -> %d, %v", what, mode, n, err)
			if mode < 2 {
				x.Assert(err == nil, "%s failed: %v", what, err)
				x.Assert(n == int64(len(got)), "%s reported %d bytes, wrote %d", what, n, len(got))
				h := &held{it, what, in, got}
				h.check(x, "at once")
				if mode == 1 {
					for j := range got {
						got[j] ^= 0x5A
					}
				} else {
					kept = append(kept, h)
				}
			} else if mode < 5 && len(in) > 9 && !(mode == 4 && it.c.name == dBytes.name) && !(mode == 4 && len(it.orig) == 0) {
				x.Assert(err != nil, "%s succeeded although the %s failed", what, []string{"source", "source", "destination"}[mode-2])
			}
			for _, h := range kept {
				h.check(x, "after "+what)
			}
		}
	}
}

func rleItems(f format) func() []item {
	return func() []item {
		var l []item
		for _, s := range [][]byte{[]byte("aabbbcaaaaaaaaad"), bytes.Repeat([]byte{9}, 300), []byte("xyzxxyzzyyxzyzy"), bytes.Repeat([]byte{0}, 514)} {
			l = append(l, item{c: f.comp, in: s, want: f.enc(s), orig: s}, item{c: f.dec, in: f.enc(s), want: s, orig: s})
		}
		return l
	}
}

func imageItems() []item {
	var l []item
	for _, s := range [][]byte{make([]byte, 1024), noise(1024, 6), sector(3, 900), {}, sector(1, 1024)} {
		var b bytes.Buffer
		if _, err := compression.CompressImage(bytes.NewReader(s), &b); err != nil {
			continue // reported elsewhere
		}
		z := b.Bytes()
		l = append(l, item{c: cImage, in: s, back: dImage, orig: s}, item{c: dImage, in: z, want: s, orig: s}, item{c: dBytes, in: z, want: s, orig: s})
	}
	return l
}

// nestedImages: a call runs inside a read or a write of another.
func nestedImages(x *core.X) {
	images := [][]byte{make([]byte, 700), noise(700, 21), []byte("aaab\x00\x00")}
	s, t := core.Pick(x, "outer image", images...), core.Pick(x, "inner image", images...)
	outer, inner := x.Choose(3, "outer call"), x.Choose(3, "inner call")
	x.Begin()
	pack := func(img []byte) []byte {
		var b bytes.Buffer
		_, err := compression.CompressImage(bytes.NewReader(img), &b)
		x.Assert(err == nil, "CompressImage failed: %v", err)
		return b.Bytes()
	}
	zs, zt := pack(s), pack(t)
	codecs := []codec{cImage, dImage, dBytes}
	deviations := 0
	nested := func(k int) {
		if k > 40 || deviations > 1 || x.Deviate(2, "nested call here") == 0 {
			return
		}
		deviations++
		if inner == 0 {
			z := call(x, cImage, &source{x: x, data: t, chunk: 300}, t, nil)
			call(x, dImage, bytes.NewReader(z), z, t)
		} else {
			call(x, codecs[inner], &source{x: x, data: zt, chunk: 100}, zt, t)
		}
	}
	in := zs
	if outer == 0 {
		in = s
	}
	d := &sink{x: x, hook: nested}
	var got []byte
	var err error
	src := &source{x: x, data: in, chunk: len(in)/4 + 1, hook: nested}
	x.T()
	if outer == 2 {
		got, err = compression.DecompressImageToBytes(src)
	} else {
		_, err = codecs[outer].f(src, d)
		got = d.buf
	}
	x.Assert(err == nil, "%s failed with an interleaved call: %v", codecs[outer].name, err)
	if outer == 0 {
		call(x, dImage, bytes.NewReader(got), got, s)
	} else {
		x.Assert(bytes.Equal(got, s), "%s with an interleaved call = %s, want %s", codecs[outer].name, short(got), short(s))
	}
}
