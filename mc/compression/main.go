package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"

	"github.com/dargueta/disko/utilities/compression"
	core "github.com/dargueta/disko/zzverif/core"
)

// format describes one run-length format.
type format struct {
	comp, dec codec
	enc       func([]byte) []byte
	ref       func([]byte) ([]byte, bool)
	recursive bool
}

var rle8 = format{cRLE8, dRLE8, rle8enc, rle8dec, false}
var rrle = format{cRR, dRR, rrenc, rrdec, true}

// roundTrip checks encoding, reported counts and restoration.
func roundTrip(x *core.X, f format, s []byte, kind int) {
	want := f.enc(s)
	got := call(x, f.comp, sourceKind(kind, s), s, want)
	call(x, f.dec, sourceKind(kind, got), got, s)
	if f.recursive {
		twice := call(x, f.comp, sourceKind(kind, got), got, f.enc(got))
		call(x, f.dec, sourceKind(kind, twice), twice, got)
	}
	x.OutcomeS(string(got))
}

// decode checks the decoder on arbitrary data.
func decode(x *core.X, f format, s []byte, in io.Reader) {
	want, missing := f.ref(s)
	if missing {
		cut(x, f.dec, in, s)
		return
	}
	if f.recursive && !bytes.Equal(f.enc(want), s) {
		// Not producible by the encoder: the format does not define it.
		x.T()
		f.dec.f(in, &sink{x: x})
		return
	}
	call(x, f.dec, in, s, want)
}

var edges = []int{1, 2, 3, 254, 255, 256, 257, 258, 259, 260, 509, 510, 511, 512, 513, 514, 515, 516, 517, 767, 768, 769, 771, 772, 1024, 4094, 4095, 4096, 4097, 4098, 65535, 65536, 65537, 65538, 65792}
var fewEdges = []int{1, 2, 3, 256, 257, 258, 259, 511, 512, 514, 515, 516, 4095, 4096, 4097, 65536}

func rleParts(f format, thorough bool) []*core.Part {
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	binLen, quadLen := pick(15, 20), pick(8, 10)
	single := pick(6000, 70000)
	delLen, delAlpha := pick(8, 11), []byte{7, 7 ^ 1}
	decLen := pick(8, 10)
	multi := fewEdges
	if thorough {
		multi = edges
	}
	giant := []int{1 << 20, 1<<24 + 1}
	if thorough {
		giant = append(giant, 1<<31+1)
	}
	parts := []*core.Part{
		{Name: "binary strings", Bounds: fmt.Sprintf("all strings over {00,01} of length 0..%d", binLen), Body: func(x *core.X) {
			roundTrip(x, f, word(x, []byte{0, 1}, binLen), 0)
		}},
		{Name: "four-symbol strings", Bounds: fmt.Sprintf("all strings over {00,01,02,ff} of length 0..%d, 6 kinds of source for length <= 4", quadLen), Body: func(x *core.X) {
			s := word(x, []byte{0, 1, 2, 255}, quadLen)
			k := 0
			if len(s) <= 4 {
				k = x.Choose(nSources, "kind of source")
			}
			roundTrip(x, f, s, k)
		}},
		{Name: "byte pairs", Bounds: "for all byte values a, b: the strings ab, aab, abb, aabb, aaab, abab", Body: func(x *core.X) {
			a := byte(x.Choose(256, "a"))
			x.Begin()
			b := byte(x.Choose(256, "b"))
			s := [][]byte{{a, b}, {a, a, b}, {a, b, b}, {a, a, b, b}, {a, a, a, b}, {a, b, a, b}}[x.Choose(6, "shape")]
			roundTrip(x, f, s, 0)
		}},
		{Name: "run lengths", Bounds: fmt.Sprintf("every single run length 0..%d of bytes 00, ff and 41, alone and between other bytes", single), Body: func(x *core.X) {
			n := x.Choose(single+1, "run length")
			x.Begin()
			b := core.Pick[byte](x, "byte", 0, 255, 0x41)
			s := bytes.Repeat([]byte{b}, n)
			if x.Bool("neighbours") {
				s = append(append([]byte{b ^ 1}, s...), b^1, b^1)
			}
			roundTrip(x, f, s, 0)
		}},
		{Name: "several runs", Bounds: fmt.Sprintf("3 consecutive runs with lengths from %v, equal outer bytes or all different, delivered whole or in pieces of 1, 255, 4095, 4096, 4097 bytes", multi), Body: func(x *core.X) {
			var s []byte
			l1 := core.Pick(x, "length 1", multi...)
			l2 := core.Pick(x, "length 2", multi...)
			x.Begin()
			l3 := core.Pick(x, "length 3", fewEdges...)
			same := x.Choose(3, "bytes")
			bs := [][]byte{{0, 255, 0}, {3, 4, 5}, {255, 0, 1}}[same]
			for i, l := range []int{l1, l2, l3} {
				s = append(s, bytes.Repeat(bs[i:i+1], l)...)
			}
			want := f.enc(s)
			total := len(s)
			chunks := []int{0, 4096}
			if total < 20000 {
				chunks = []int{0, 1, 255, 4095, 4096, 4097}
			}
			c := core.Pick(x, "delivery size", chunks...)
			got := call(x, f.comp, &source{x: x, data: s, chunk: c, eofWith: c == 255}, s, want)
			call(x, f.dec, &source{x: x, data: got, chunk: c, eofWith: c == 255}, got, s)
			x.OutcomeS(string(want))
		}},
		{Name: "giant runs", Bounds: fmt.Sprintf("runs of %v bytes, followed by nothing or by a run of two", giant), Body: func(x *core.X) {
			n := core.Pick(x, "run length", giant...)
			b := core.Pick[byte](x, "byte", 0, 255)
			tail := x.Bool("tail")
			x.Begin()
			rs := []run{{b, n}}
			if tail {
				rs = append(rs, run{b ^ 0x55, 2})
			}
			want := giantEnc(f, rs)
			x.T()
			d := &sink{x: x}
			k, err := f.comp.f(&gen{runs: append([]run{}, rs...)}, d)
			x.Assert(err == nil, "%s of a run of %d bytes failed: %v", f.comp.name, n, err)
			x.Assert(bytes.Equal(d.buf, want), "%s of a run of %d bytes is wrong (%s, want %s)", f.comp.name, n, short(d.buf), short(want))
			x.Assert(k == int64(len(want)), "%s of a run of %d bytes reported %d bytes, wrote %d", f.comp.name, n, k, len(want))
			x.T()
			v := &genSink{runs: append([]run{}, rs...)}
			k, err = f.dec.f(bytes.NewReader(want), v)
			x.Assert(err == nil, "%s of a run of %d bytes failed: %v", f.dec.name, n, err)
			x.Assert(!v.bad && len(v.runs) == 0, "%s of a run of %d bytes does not restore it", f.dec.name, n)
			x.Assert(k == v.total, "%s of a run of %d bytes reported %d bytes, wrote %d", f.dec.name, n, k, v.total)
			x.Outcome(uint64(len(want)))
		}},
		{Name: "deliveries", Bounds: fmt.Sprintf("all binary strings of length 0..%d, every splitting of the source's deliveries into reads, end-of-file with or after the last bytes, up to 2 empty reads", delLen), Budget: 2, Body: func(x *core.X) {
			s := word(x, delAlpha, delLen)
			if x.Bool("decompress") {
				call(x, f.dec, &source{x: x, data: f.enc(s), split: true, empties: len(s) <= 4}, f.enc(s), s)
			} else {
				call(x, f.comp, &source{x: x, data: s, split: true, empties: len(s) <= 5}, s, f.enc(s))
			}
		}},
		{Name: "decompression", Bounds: fmt.Sprintf("decompression of all strings over {00,01,02,ff} of length 0..%d, and of a a n z for all bytes a, n and 3 tails", decLen), Body: func(x *core.X) {
			if x.Bool("long counts") {
				a := byte(x.Choose(256, "byte"))
				x.Begin()
				n := byte(x.Choose(256, "count"))
				s := []byte{a, a, n}
				switch x.Choose(4, "tail") {
				case 1:
					s = append(s, a)
				case 2:
					s = append(s, n^1, a)
				case 3:
					s = append(s, a, a)
				}
				decode(x, f, s, bytes.NewReader(s))
				return
			}
			s := word(x, []byte{0, 1, 2, 255}, decLen)
			decode(x, f, s, plainReader{bytes.NewReader(s)})
		}},
		{Name: "truncated decompression in pieces", Bounds: "encodings of 5 inputs cut after every byte, every splitting of the deliveries (inputs up to 8 bytes), up to 1 empty read", Budget: 1, Body: func(x *core.X) {
			s := f.enc(core.Pick(x, "input", []byte("aab"), []byte("aaaa"), []byte("abbba"), []byte("aabb"), bytes.Repeat([]byte{255}, 600)))
			n := x.Choose(len(s)+1, "cut after")
			x.Begin()
			s = s[:n]
			decode(x, f, s, &source{x: x, data: s, split: true, empties: true})
		}},
		{Name: "call sequences", Bounds: fmt.Sprintf("sequences of %d calls with 4 inputs each, in each of which the source or destination may fail or the input be cut; every result kept, some overwritten by the caller", pick(3, 4)), Body: callSequence(rleItems(f), pick(3, 4))},
		{Name: "interleaved calls", Bounds: "a second compression or decompression of other data runs inside any one or two reads or writes of the first", Budget: 2, Body: func(x *core.X) {
			inputs := [][]byte{[]byte("aabbbc"), {0, 0, 0, 255, 255}, bytes.Repeat([]byte{9}, 300), bytes.Repeat([]byte("xxy"), 5)}
			s := core.Pick(x, "outer input", inputs...)
			t := core.Pick(x, "inner input", inputs...)
			deco, innerDeco := x.Bool("outer decompresses"), x.Bool("inner decompresses")
			x.Begin()
			in, want, c := s, f.enc(s), f.comp
			if deco {
				in, want, c = f.enc(s), s, f.dec
			}
			nested := func(k int) {
				if x.Deviate(2, "nested call here") == 1 {
					if innerDeco {
						call(x, f.dec, &source{x: x, data: f.enc(t), chunk: 2}, f.enc(t), t)
					} else {
						call(x, f.comp, &source{x: x, data: t, chunk: 2}, t, f.enc(t))
					}
				}
			}
			d := &sink{x: x, hook: nested}
			x.T()
			n, err := c.f(&source{x: x, data: in, chunk: 3, hook: nested}, d)
			x.Assert(err == nil, "%s failed with an interleaved call: %v", c.name, err)
			x.Assert(bytes.Equal(d.buf, want), "%s(%s) with an interleaved call = %s, want %s", c.name, short(in), short(d.buf), short(want))
			x.Assert(n == int64(len(want)), "%s(%s) with an interleaved call reported %d bytes, wrote %d", c.name, short(in), n, len(want))
		}},
	}
	return parts
}

// gen produces runs without holding them in memory.
type gen struct {
	runs []run
}

func (g *gen) Read(p []byte) (int, error) {
	n := 0
	for n < len(p) && len(g.runs) > 0 {
		k := len(p) - n
		if k > g.runs[0].n {
			k = g.runs[0].n
		}
		b := g.runs[0].b
		for i := n; i < n+k; i++ {
			p[i] = b
		}
		n += k
		if g.runs[0].n -= k; g.runs[0].n == 0 {
			g.runs = g.runs[1:]
		}
	}
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

type genSink struct {
	runs  []run
	bad   bool
	total int64
}

func (g *genSink) Write(p []byte) (int, error) {
	g.total += int64(len(p))
	for _, b := range p {
		if len(g.runs) == 0 || g.runs[0].b != b {
			g.bad = true
			return len(p), nil
		}
		if g.runs[0].n--; g.runs[0].n == 0 {
			g.runs = g.runs[1:]
		}
	}
	return len(p), nil
}

func giantEnc(f format, rs []run) []byte {
	var out []byte
	for _, r := range rs {
		if f.recursive {
			out = append(out, r.b, r.b)
			out = append(out, bytes.Repeat([]byte{255}, (r.n-2)/255)...)
			out = append(out, byte((r.n-2)%255))
			continue
		}
		out = append(out, bytes.Repeat([]byte{r.b, r.b, 255}, r.n/257)...)
		switch k := r.n % 257; k {
		case 0:
		case 1:
			out = append(out, r.b)
		default:
			out = append(out, r.b, r.b, byte(k-2))
		}
	}
	return out
}

// ---- C15, C16: images ----

func sector(kind, size int) []byte {
	switch kind {
	case 0:
		return make([]byte, size)
	case 1:
		return bytes.Repeat([]byte{0xFF}, size)
	case 2:
		return bytes.Repeat([]byte{0xE5}, size)
	case 3:
		t := bytes.Repeat([]byte("A directory entry  \x00\x00\x01\x02"), size/20+1)
		return t[:size]
	default:
		return noise(size, uint32(kind))
	}
}

var number = regexp.MustCompile(`[0-9]+`)

// tool runs a command-line tool on files in a scratch directory.
func tool(x *core.X, name, in, out string) (code int, stdout string) {
	x.T()
	cmd := exec.Command(filepath.Join(os.Getenv("MC_BIN"), name), in, out)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			panic("harness error: " + err.Error())
		}
		code = ee.ExitCode()
		if code < 0 {
			code = 255
		}
	}
	x.Logf("%s -> exit status %d, stdout %q, stderr %q", name, code, so.String(), se.String())
	x.Assert(code != 2 || !bytes.Contains(se.Bytes(), []byte("goroutine ")), "%s panicked: %s", name, se.String())
	return code, so.String()
}

func scratch(x *core.X) string {
	d, err := os.MkdirTemp(os.Getenv("MC_TMP"), "cli")
	if err != nil {
		panic("harness error: " + err.Error())
	}
	x.Defer(func() { os.RemoveAll(d) })
	return d
}

func put(path string, data []byte) {
	if err := os.WriteFile(path, data, 0o600); err != nil {
		panic("harness error: " + err.Error())
	}
}

func get(x *core.X, path string) []byte {
	b, err := os.ReadFile(path)
	x.Assert(!errors.Is(err, os.ErrNotExist), "%s was not written or was removed", filepath.Base(path))
	if err != nil {
		panic("harness error: " + err.Error())
	}
	return b
}

func libImage(x *core.X, img []byte, chunk int) []byte {
	z := call(x, cImage, &source{x: x, data: img, chunk: chunk}, img, nil)
	x.Assert(len(z) > 0, "CompressImage produced nothing")
	call(x, dImage, &source{x: x, data: z, chunk: chunk}, z, img)
	call(x, dBytes, &source{x: x, data: z, chunk: chunk, eofWith: true}, z, img)
	return z
}

func cliImage(x *core.X, img []byte, stale bool) {
	d := scratch(x)
	a, b, c := filepath.Join(d, "image"), filepath.Join(d, "packed"), filepath.Join(d, "restored")
	put(a, img)
	if stale {
		put(b, bytes.Repeat([]byte("old"), 3000))
		put(c, bytes.Repeat([]byte("old content"), 100000))
	}
	code, out := tool(x, "zipimage", a, b)
	x.Assert(code == 0, "zipimage failed with status %d", code)
	x.Assert(reports(out, len(get(x, b))), "zipimage reports %q but wrote %d bytes", out, len(get(x, b)))
	x.Assert(bytes.Equal(get(x, a), img), "zipimage changed its input")
	code, out = tool(x, "unzipimage", b, c)
	x.Assert(code == 0, "unzipimage failed with status %d", code)
	got := get(x, c)
	x.Assert(bytes.Equal(got, img), "unzipimage restored %d bytes that differ from the image of %d bytes", len(got), len(img))
	x.Assert(reports(out, len(img)), "unzipimage reports %q but wrote %d bytes", out, len(img))
	// What the tools write, the library reads.
	call(x, dImage, bytes.NewReader(get(x, b)), nil, img)
}

func reports(out string, n int) bool {
	for _, m := range number.FindAllString(out, -1) {
		if v, err := strconv.Atoi(m); err == nil && v == n {
			return true
		}
	}
	return false
}

func imageParts(thorough bool) []*core.Part {
	seqLen := 2
	sectors, tails := 5, []int{0, 1, 2, 100}
	if thorough {
		sectors = 7
		seqLen = 3
	}
	sizes := []int{0, 1, 2, 3, 255, 256, 257, 258, 512, 4095, 4096, 4097, 4098, 65535, 65536, 65537, 163840, 242944, 256256, 368640}
	if thorough {
		sizes = append(sizes, 737280, 1474560, 4<<20, 33<<20)
	}
	return []*core.Part{
		{Name: "sector patterns", Bounds: fmt.Sprintf("all images of 0..%d sectors of 128 or 512 bytes, each null, FF-, E5-filled, text or noise, with a tail of %v bytes", sectors, tails), Body: func(x *core.X) {
			size := core.Pick(x, "sector size", 128, 512)
			n := x.Choose(sectors+1, "sectors")
			var img []byte
			for i := 0; i < n; i++ {
				img = append(img, sector(x.Choose(5, "sector"), size)...)
				if i == 1 {
					x.Begin()
				}
			}
			x.Begin()
			img = append(img, sector(0, core.Pick(x, "tail", tails...))...)
			z := libImage(x, img, 0)
			x.Outcome(core.NewH().B(z).Sum())
		}},
		{Name: "short images", Bounds: "all images over {00,01,ff} of length 0..6", Body: func(x *core.X) {
			libImage(x, word(x, []byte{0, 1, 255}, 6), 0)
		}},
		{Name: "image sizes", Bounds: fmt.Sprintf("images of %v bytes: null, noise, mixed; delivered whole or in pieces of 1, 512, 4096 bytes", sizes), Body: func(x *core.X) {
			n := core.Pick(x, "size", sizes...)
			k := x.Choose(3, "content")
			x.Begin()
			var img []byte
			switch k {
			case 0:
				img = make([]byte, n)
			case 1:
				img = noise(n, 99)
			default:
				for i := 0; len(img) < n; i++ {
					img = append(img, sector([]int{0, 0, 3, 0, 1, 4, 2, 0, 3, 3}[i%10], 512)...)
				}
				img = img[:n]
			}
			cs := []int{0, 512, 4096}
			if n < 70000 {
				cs = append(cs, 1)
			}
			libImage(x, img, core.Pick(x, "delivery size", cs...))
		}},
		{Name: "deliveries", Bounds: "3 small images, every splitting of the source's deliveries when compressing (6 bytes), fixed splittings when decompressing", Body: func(x *core.X) {
			img := core.Pick(x, "image", []byte("aaab\x00\x00"), []byte("abcabc"), []byte{0, 0, 0, 0, 0, 0})
			x.Begin()
			z := call(x, cImage, &source{x: x, data: img, split: true}, img, nil)
			for _, c := range []int{1, 2, 7, 0} {
				call(x, dImage, &source{x: x, data: z, chunk: c}, z, img)
			}
		}},
		{Name: "call sequences", Bounds: fmt.Sprintf("sequences of %d calls (compression, both kinds of decompression; 5 images), in each of which the source or destination may fail or the input be cut; every result kept, some overwritten by the caller", seqLen), Body: callSequence(imageItems, seqLen)},
		{Name: "interleaved calls", Budget: 2, Bounds: "a second call with another image runs inside any one or two reads or writes of the first", Body: nestedImages},
		{Name: "command-line tools", Bounds: "zipimage and unzipimage as processes: all images of 0..2 sectors of 5 kinds, and 8 sizes up to 256256 bytes; into new files and over longer existing files", Body: func(x *core.X) {
			var img []byte
			if x.Bool("sizes") {
				n := core.Pick(x, "size", 1, 257, 258, 4096, 4097, 65537, 163840, 256256)
				img = make([]byte, n)
				if x.Bool("mixed") {
					copy(img, noise(n/2, 5))
				}
			} else {
				for i, n := 0, x.Choose(3, "sectors"); i < n; i++ {
					img = append(img, sector(x.Choose(5, "sector"), 128)...)
				}
			}
			stale := x.Bool("outputs exist")
			x.Begin()
			cliImage(x, img, stale)
		}},
	}
}

type damaged struct {
	name string
	img  []byte
	z    []byte
}

func samples(thorough bool) []damaged {
	list := []damaged{
		{name: "empty image"},
		{name: "one byte", img: []byte{7}},
		{name: "null sector", img: make([]byte, 512)},
		{name: "text", img: []byte("aabbccdd  an image with text\x00\x00\x00")},
		{name: "four sectors", img: append(append(sector(0, 128), sector(3, 128)...), append(sector(1, 128), sector(4, 128)...)...)},
		{name: "floppy", img: append(make([]byte, 250000), 1, 2, 3, 3, 3)},
	}
	if thorough {
		list = append(list, damaged{name: "noise", img: noise(1500, 3)}, damaged{name: "mixed", img: append(sector(3, 700), append(make([]byte, 5000), noise(300, 8)...)...)})
	}
	for i := range list {
		var b bytes.Buffer
		if _, err := compression.CompressImage(bytes.NewReader(list[i].img), &b); err != nil {
			// Reported by C15; nothing to damage here.
			list[i].z = nil
			continue
		}
		list[i].z = b.Bytes()
	}
	return list
}

func damageParts(thorough bool) []*core.Part {
	var cache []damaged
	all := func() []damaged {
		if cache == nil {
			cache = samples(thorough)
		}
		return cache
	}
	var bigOne *damaged
	big := func() damaged {
		if bigOne == nil {
			s := damaged{name: "large", img: append(noise(14000, 11), make([]byte, 5000)...)}
			var b bytes.Buffer
			if _, err := compression.CompressImage(bytes.NewReader(s.img), &b); err == nil {
				s.z = b.Bytes()
			}
			bigOne = &s
		}
		return *bigOne
	}
	check := func(x *core.X, s damaged, bad []byte, chunk int) {
		for _, c := range []codec{dImage, dBytes} {
			x.T()
			d := &sink{x: x}
			_, err := c.f(&source{x: x, data: bad, chunk: chunk}, d)
			x.Logf("%s -> err=%v, %d bytes", c.name, err, len(d.buf))
			if err == nil {
				x.Assert(bytes.Equal(d.buf, s.img), "%s of a damaged image (%s) reported success with different data: %s", c.name, s.name, short(d.buf))
				x.OutcomeS("same")
			} else {
				x.OutcomeS(err.Error())
			}
		}
	}
	truncate := func(s damaged, n int) []byte { return append([]byte{}, s.z[:n]...) }
	return []*core.Part{
		{Name: "truncations", Bounds: "6 (thorough: 8) compressed images, cut after every byte, delivered whole, byte by byte and in pieces of 3", Body: func(x *core.X) {
			s := core.Pick(x, "image", all()...)
			if len(s.z) == 0 {
				x.Abandon()
			}
			n := x.Choose(len(s.z), "cut after")
			x.Begin()
			bad := truncate(s, n)
			check(x, s, bad, core.Pick(x, "delivery size", 0, 1, 3))
		}},
		{Name: "truncated deliveries", Bounds: "2 compressed images, cut after each of the last 10 bytes, the end of the data delivered with every splitting of the last 6 bytes", Body: func(x *core.X) {
			s := core.Pick(x, "image", all()[1], all()[2])
			if len(s.z) < 10 {
				x.Abandon()
			}
			cutAt := len(s.z) - x.Choose(11, "bytes cut")
			x.Begin()
			bad := truncate(s, cutAt)
			x.T()
			d := &sink{x: x}
			head := len(bad) - 6
			_, err := dImage.f(io.MultiReader(bytes.NewReader(bad[:head]), &source{x: x, data: bad[head:], split: true}), d)
			if err == nil {
				x.Assert(bytes.Equal(d.buf, s.img), "DecompressImage of an image cut after %d bytes reported success with different data", cutAt)
			}
		}},
		{Name: "altered bytes", Bounds: "6 (thorough: 8) compressed images, every byte replaced by each of the 255 other values", Body: func(x *core.X) {
			s := core.Pick(x, "image", all()...)
			if len(s.z) == 0 {
				x.Abandon()
			}
			n := x.Choose(len(s.z), "position")
			x.Begin()
			bad := append([]byte{}, s.z...)
			bad[n] ^= byte(1 + x.Choose(255, "change"))
			check(x, s, bad, 0)
		}},
		{Name: "other damage", Bounds: "6 (thorough: 8) compressed images: at every position 1, 2, 3, 8 or half of the bytes removed, repeated, zeroed or moved to the end, neighbours exchanged, any byte inserted; at the end up to 20 bytes of rubbish or any part of the beginning appended", Body: func(x *core.X) {
			s := core.Pick(x, "image", all()...)
			if len(s.z) == 0 {
				x.Abandon()
			}
			z := s.z
			n := x.Choose(len(z), "position")
			x.Begin()
			how := x.Choose(7, "damage")
			var bad []byte
			switch how {
			case 0, 1, 2, 3:
				k := core.Pick(x, "length", 1, 2, 3, 8, len(z)/2)
				end := min(n+k, len(z))
				bad = append(bad, z[:n]...)
				switch how {
				case 1:
					bad = append(append(bad, z[n:end]...), z[n:end]...)
				case 2:
					bad = append(bad, make([]byte, end-n)...)
				}
				bad = append(bad, z[end:]...)
				if how == 3 {
					bad = append(bad, z[n:end]...)
				}
			case 4:
				bad = append(bad, z...)
				m := (n + 1) % len(z)
				bad[n], bad[m] = bad[m], bad[n]
			case 5:
				bad = append(bad, z[:n]...)
				bad = append(append(bad, byte(x.Choose(256, "inserted"))), z[n:]...)
			default:
				bad = append(bad, z...)
				switch x.Choose(4, "appended") {
				case 0:
					bad = append(bad, z[:n]...)
				case 1:
					bad = append(bad, z[len(z)-n:]...)
				case 2:
					bad = append(bad, make([]byte, n%20+1)...)
				default:
					bad = append(bad, bytes.Repeat([]byte{0x1F, 0x8B, 8}, 7)[:n%20+1]...)
				}
			}
			check(x, s, bad, 0)
		}},
		{Name: "two altered bytes", Bounds: "5 (thorough: 8) compressed images, any two bytes altered in 3 ways each", Body: func(x *core.X) {
			images := all()
			if !thorough {
				images = images[:5]
			}
			s := core.Pick(x, "image", images...)
			if len(s.z) == 0 {
				x.Abandon()
			}
			n := x.Choose(len(s.z), "position")
			x.Begin()
			changes := []byte{1, 0x80, 0xFF}
			a := core.Pick(x, "change", changes...)
			for m := 0; m < n; m++ {
				for _, b := range changes {
					bad := append([]byte{}, s.z...)
					bad[n] ^= a
					bad[m] ^= b
					check(x, s, bad, 0)
				}
			}
		}},
		{Name: "large image", Bounds: "an image of 14000 incompressible and 5000 null bytes, cut after every byte, or with every byte altered in 2 ways", Body: func(x *core.X) {
			s := big()
			if len(s.z) == 0 {
				x.Abandon()
			}
			block := x.Choose(64, "part of the image")
			x.Begin()
			lo, hi := len(s.z)*block/64, len(s.z)*(block+1)/64
			how := x.Choose(3, "cut or altered")
			for n := lo; n < hi; n++ {
				bad := append([]byte{}, s.z...)
				if how == 0 {
					bad = bad[:n]
				} else {
					bad[n] ^= []byte{1, 0xFF}[how-1]
				}
				check(x, s, bad, 0)
			}
		}},
		{Name: "command-line tool", Bounds: "unzipimage on 3 compressed images: every truncation and every byte altered in 3 ways; missing or unreadable input; unwritable output", Body: func(x *core.X) {
			s := core.Pick(x, "image", all()[2], all()[3], all()[0])
			if len(s.z) == 0 {
				x.Abandon()
			}
			n := x.Choose(len(s.z), "position")
			how := x.Choose(4, "damage")
			x.Begin()
			bad := append([]byte{}, s.z...)
			if how == 0 {
				bad = bad[:n]
			} else {
				bad[n] ^= []byte{1, 0x80, 0xFF}[how-1]
			}
			d := scratch(x)
			in, out := filepath.Join(d, "in"), filepath.Join(d, "out")
			put(in, bad)
			code, _ := tool(x, "unzipimage", in, out)
			_, err := dImage.f(bytes.NewReader(bad), &sink{x: x})
			if code == 0 {
				got := get(x, out)
				x.Assert(bytes.Equal(got, s.img), "unzipimage of a damaged image (%s) exits with status 0 and wrote %d different bytes", s.name, len(got))
			}
			x.Assert(err == nil || code != 0, "unzipimage exits with status 0 although decompression fails (%v)", err)
		}},
	}
}

// ---- C17 ----

func faultParts(thorough bool) []*core.Part {
	type target struct {
		c  codec
		in []byte
	}
	sample := []byte("aaabcc\x00\x00\x00\x00d")
	long := append(bytes.Repeat([]byte{0}, 600), append(noise(40, 2), bytes.Repeat([]byte{255}, 300)...)...)
	huge := noise(150000, 4)
	if thorough {
		huge = noise(1200000, 4)
	}
	var targets []target
	for _, in := range [][]byte{sample, long, {}, huge} {
		var z bytes.Buffer
		compression.CompressImage(bytes.NewReader(in), &z)
		targets = append(targets, target{cImage, in}, target{dImage, z.Bytes()}, target{dBytes, z.Bytes()})
		if len(in) < 100000 {
			targets = append(targets, target{cRLE8, in}, target{dRLE8, rle8enc(in)}, target{cRR, in}, target{dRR, rrenc(in)})
		}
	}
	errs := []error{errFault, errPathed, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortWrite, bufio.ErrBufferFull}
	body := func(src bool) func(x *core.X) {
		return func(x *core.X) {
			t := core.Pick(x, "function and input", targets...)
			e := core.Pick(x, "error", errs...)
			sticky := x.Bool("failure persists")
			chunks := []int{0, 1, 3}
			if len(t.in) > 2000 {
				chunks = []int{0, 4096}
			}
			c := core.Pick(x, "delivery size", chunks...)
			x.Begin()
			if !src && t.c.name == dBytes.name {
				x.Abandon()
			}
			s := &source{x: x, data: t.in, chunk: c, faults: src, err: e, sticky: sticky}
			d := &sink{x: x, faults: !src, err: e, sticky: sticky}
			if len(t.in) > 100000 && t.c.name == dImage.name {
				d.sparse = len(huge)
			}
			x.T()
			_, err := t.c.f(s, d)
			failed := s.failed
			if !src {
				failed = d.failed
			}
			x.Logf("%s -> %v (%d reads, %d writes, injected %v)", t.c.name, err, s.reads, d.writes, failed)
			if failed == nil {
				x.Assert(err == nil, "%s failed without an injected failure: %v", t.c.name, err)
				return
			}
			where := fmt.Sprintf("read %d", s.reads)
			if !src {
				where = fmt.Sprintf("write %d", d.writes)
			}
			x.Assert(err != nil, "%s reported success although %s failed", t.c.name, where)
			x.Assert(errors.Is(err, e), "%s: error %q does not carry the underlying error %q of %s", t.c.name, err, e, where)
			x.OutcomeS(t.c.name, err.Error())
		}
	}
	return []*core.Part{
		{Name: "failing source", Budget: 1, Bounds: "7 functions, 4 inputs, 4 errors (transient or persistent), 3 delivery sizes, every read fails once (with or without data)", Body: body(true)},
		{Name: "failing destination", Budget: 1, Bounds: "6 functions, 4 inputs, 4 errors (transient or persistent), every write fails once (nothing or half stored; for the largest input when decompressing: the first and last 20 writes and those around multiples of 4096)", Body: body(false)},
		{Name: "command-line tools", Bounds: "zipimage and unzipimage: input missing, input a directory, output in a missing directory, output a directory, output device full (small and large images)", Body: func(x *core.X) {
			name := core.Pick(x, "tool", "zipimage", "unzipimage")
			how := x.Choose(5, "failure")
			big := x.Bool("large image")
			x.Begin()
			d := scratch(x)
			in, out := filepath.Join(d, "in"), filepath.Join(d, "out")
			img := sample
			if big {
				img = huge
			}
			if name == "unzipimage" {
				var z bytes.Buffer
				compression.CompressImage(bytes.NewReader(img), &z)
				img = z.Bytes()
			}
			put(in, img)
			switch how {
			case 0:
				in = filepath.Join(d, "missing")
			case 1:
				in = d
			case 2:
				out = filepath.Join(d, "missing", "out")
			case 3:
				out = filepath.Join(d, "dir")
				os.Mkdir(out, 0o700)
			case 4:
				// A device on which every write fails.
				if f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
					_, err = f.Write([]byte{0})
					f.Close()
					if err == nil {
						x.Abandon()
					}
				} else {
					x.Abandon()
				}
				out = "/dev/full"
			}
			code, _ := tool(x, name, in, out)
			x.Assert(code != 0, "%s exits with status 0 although it could not do its work (case %d)", name, how)
		}},
	}
}

// ---- C18 ----

type grouperKind int

// newGrouper builds a grouper over data.
func newGrouper(k int, data []byte) compression.RLEGrouper {
	switch k {
	case 0:
		return compression.NewRLEGrouperFromReader(plainReader{bytes.NewReader(data)})
	case 1:
		return compression.NewRLEGrouperFromByteScanner(bytes.NewReader(data))
	case 2:
		return compression.NewRLEGrouperFromByteScanner(bytes.NewBuffer(append([]byte{}, data...)))
	case 3:
		return compression.NewRLEGrouperFromReader(bytes.NewReader(data))
	default:
		return compression.NewRLEGrouperFromByteScanner(&scanner{data: data})
	}
}

// scanner is a strict io.ByteScanner: UnreadByte works once after a ReadByte.
type scanner struct {
	data []byte
	pos  int
	last bool
}

func (s *scanner) ReadByte() (byte, error) {
	if s.pos == len(s.data) {
		s.last = false
		return 0xCC, io.EOF
	}
	s.pos++
	s.last = true
	return s.data[s.pos-1], nil
}

func (s *scanner) UnreadByte() error {
	if !s.last {
		return errors.New("UnreadByte without ReadByte")
	}
	s.last = false
	s.pos--
	return nil
}

// failingScanner reads single bytes from a source.
type failingScanner struct {
	src  *source
	last bool
	peak int // bytes delivered at least once
}

func (f *failingScanner) ReadByte() (byte, error) {
	var b [1]byte
	f.last = false
	if f.src.failed != nil {
		return 0, f.src.failed
	}
	if f.src.ended {
		return 0, io.EOF
	}
	if f.src.x.Deviate(2, "ReadByte fails") == 1 {
		f.src.failed = f.src.err
		return 0, f.src.err
	}
	if f.src.pos == len(f.src.data) {
		f.src.ended = true
		return 0, io.EOF
	}
	b[0] = f.src.data[f.src.pos]
	f.src.pos++
	f.peak = max(f.peak, f.src.pos)
	f.last = true
	return b[0], nil
}

func (f *failingScanner) UnreadByte() error {
	if !f.last {
		return errors.New("UnreadByte without ReadByte")
	}
	f.last = false
	f.src.pos--
	return nil
}

// group drains a grouper and compares.
func group(x *core.X, g compression.RLEGrouper, input string, want []run) {
	for i, w := range want {
		x.T()
		r, err := g.GetNextRun()
		x.Logf("run %d: %v, %v", i, r, err)
		x.Assert(r.Byte == w.b && r.RunLength == w.n, "run %d of %s is {%02x %d} (error %v), want {%02x %d}", i, input, r.Byte, r.RunLength, err, w.b, w.n)
		x.Assert(err == nil || i == len(want)-1 && errors.Is(err, io.EOF), "run %d of %d of %s came with error %v", i, len(want), input, err)
	}
	for i := 0; i < 3; i++ {
		x.T()
		r, err := g.GetNextRun()
		x.Assert(errors.Is(err, io.EOF) && r.RunLength < 1, "call %d after the last run of %s returned %v, %v instead of end-of-file", i+1, input, r, err)
	}
}

func grouperParts(thorough bool) []*core.Part {
	bin, tri, del := 15, 9, 9
	single := 4200
	giant := []int{1 << 20, 1<<24 + 1}
	if thorough {
		bin, tri, del = 21, 12, 11
		single = 70000
		giant = append(giant, 1<<31+1)
	}
	return []*core.Part{
		{Name: "binary strings", Bounds: fmt.Sprintf("all strings over {00,01} of length 0..%d", bin), Body: func(x *core.X) {
			s := word(x, []byte{0, 1}, bin)
			group(x, newGrouper(0, s), short(s), runsOf(s))
		}},
		{Name: "three-symbol strings", Bounds: fmt.Sprintf("all strings over {00,80,ff} of length 0..%d, 5 kinds of source", tri), Body: func(x *core.X) {
			s := word(x, []byte{0, 0x80, 255}, tri)
			group(x, newGrouper(x.Choose(5, "source"), s), short(s), runsOf(s))
		}},
		{Name: "run lengths", Bounds: fmt.Sprintf("every run length 1..%d of bytes 00, ff and 41, alone and between other bytes", single), Body: func(x *core.X) {
			n := 1 + x.Choose(single, "run length - 1")
			x.Begin()
			b := core.Pick[byte](x, "byte", 0, 255, 0x41)
			s := bytes.Repeat([]byte{b}, n)
			if x.Bool("neighbours") {
				s = append(append([]byte{b ^ 1}, s...), b^1, b^1)
			}
			group(x, newGrouper(0, s), short(s), runsOf(s))
		}},
		{Name: "byte pairs", Bounds: "for all byte values a, b: a a b", Body: func(x *core.X) {
			a := byte(x.Choose(256, "a"))
			x.Begin()
			b := byte(x.Choose(256, "b"))
			s := []byte{a, a, b}
			group(x, newGrouper(x.Choose(2, "source"), s), short(s), runsOf(s))
		}},
		{Name: "several runs", Bounds: fmt.Sprintf("2 consecutive runs with lengths from %v, in pieces of 1, 255, 4095, 4096, 4097 bytes or whole", edges), Body: func(x *core.X) {
			l1 := core.Pick(x, "length 1", edges...)
			x.Begin()
			l2 := core.Pick(x, "length 2", edges...)
			s := append(bytes.Repeat([]byte{0}, l1), bytes.Repeat([]byte{255}, l2)...)
			cs := []int{0, 4096}
			if len(s) < 10000 {
				cs = []int{0, 1, 255, 4095, 4096, 4097}
			}
			c := core.Pick(x, "delivery size", cs...)
			group(x, compression.NewRLEGrouperFromReader(&source{x: x, data: s, chunk: c}), short(s), []run{{0, l1}, {255, l2}})
		}},
		{Name: "giant runs", Bounds: fmt.Sprintf("runs of %v bytes", giant), Body: func(x *core.X) {
			n := core.Pick(x, "run length", giant...)
			x.Begin()
			rs := []run{{5, n}, {6, 2}}
			group(x, compression.NewRLEGrouperFromReader(&gen{runs: append([]run{}, rs...)}), fmt.Sprint(rs), rs)
		}},
		{Name: "deliveries", Budget: 2, Bounds: fmt.Sprintf("all binary strings of length 0..%d, every splitting of the deliveries, end-of-file with or after the last bytes, up to 2 empty reads", del), Body: func(x *core.X) {
			s := word(x, []byte{3, 4}, del)
			group(x, compression.NewRLEGrouperFromReader(&source{x: x, data: s, split: true, empties: len(s) <= 6}), short(s), runsOf(s))
		}},
		{Name: "failing source", Budget: 1, Bounds: "all binary strings of length 0..6 delivered in every splitting; every read fails once (with or without data), or every ReadByte of a byte scanner; 5 kinds of errors", Body: func(x *core.X) {
			e := core.Pick(x, "error", errPathed, io.ErrUnexpectedEOF, io.ErrNoProgress, bufio.ErrBufferFull, bufio.ErrNegativeCount)
			way := x.Choose(2, "reader or byte scanner")
			s := word(x, []byte{3, 4}, 6)
			src := &source{x: x, data: s, split: true, faults: true, sticky: true, err: e}
			var g compression.RLEGrouper
			var scan *failingScanner
			if way == 0 {
				g = compression.NewRLEGrouperFromReader(src)
			} else {
				scan = &failingScanner{src: src}
				g = compression.NewRLEGrouperFromByteScanner(scan)
			}
			var got []byte
			eof := false
			for i := 0; ; i++ {
				x.T()
				r, err := g.GetNextRun()
				x.Logf("run %d: %v, %v", i, r, err)
				delivered := s[:src.pos]
				if scan != nil {
					delivered = s[:scan.peak]
				}
				if err != nil && !errors.Is(err, io.EOF) {
					x.Assert(src.failed != nil && errors.Is(err, src.failed), "error %v instead of the source's error", err)
					x.Assert(r.RunLength < 1, "a run %v came with the source's failure", r)
					// Everything before the interrupted run was returned.
					done := runsOf(delivered)
					var want []byte
					for j := 0; j+1 < len(done); j++ {
						want = append(want, delivered[len(want):len(want)+done[j].n]...)
					}
					x.Assert(bytes.Equal(got, want), "before the failure the runs cover %s of %s", short(got), short(delivered))
					return
				}
				if r.RunLength >= 1 {
					x.Assert(!eof, "a run after end-of-file")
					got = append(got, bytes.Repeat([]byte{r.Byte}, r.RunLength)...)
					x.Assert(len(got) <= len(s) && bytes.Equal(got, s[:len(got)]), "runs expand to %s, input %s", short(got), short(s))
				} else {
					x.Assert(err != nil, "an invalid run without an error")
				}
				if err != nil {
					eof = true
					x.Assert(src.failed == nil, "end-of-file reported although the source failed with %v", src.failed)
					x.Assert(bytes.Equal(got, s), "end-of-file after %s of %s", short(got), short(s))
					if r.RunLength < 1 {
						return
					}
				}
			}
		}},
		{Name: "two groupers", Bounds: "two groupers over two of 4 inputs, every interleaving of up to 5 calls each", Body: func(x *core.X) {
			inputs := [][]byte{[]byte("aabbbc"), {0, 0, 0, 255}, []byte("zzzzz"), []byte("abab")}
			s, t := core.Pick(x, "input 1", inputs...), core.Pick(x, "input 2", inputs...)
			k := x.Choose(5, "source")
			x.Begin()
			gs := []compression.RLEGrouper{newGrouper(k, s), newGrouper(k, t)}
			want := [][]run{runsOf(s), runsOf(t)}
			done := [2]int{}
			for done[0] < 5 || done[1] < 5 {
				i := 0
				if done[0] == 5 {
					i = 1
				} else if done[1] < 5 {
					i = x.Choose(2, "grouper")
				}
				x.T()
				r, err := gs[i].GetNextRun()
				j := done[i]
				done[i]++
				if j < len(want[i]) {
					x.Assert(r.Byte == want[i][j].b && r.RunLength == want[i][j].n, "run %d of grouper %d is %v, want %v", j, i, r, want[i][j])
				} else {
					x.Assert(errors.Is(err, io.EOF) && r.RunLength < 1, "call %d of grouper %d returned %v, %v", j, i, r, err)
				}
			}
		}},
	}
}

func main() {
	core.Main(
		core.Property{ID: "C13", Parts: func(t bool) []*core.Part { return rleParts(rle8, t) }, Assumptions: []string{"The encoding documented in doc.go, written out independently in the harness, is the oracle."}},
		core.Property{ID: "C14", Parts: func(t bool) []*core.Part { return rleParts(rrle, t) }, Assumptions: []string{"The encoding documented at CompressRLERecursive is the oracle; strings the encoder never produces are only required not to crash the decoder."}},
		core.Property{ID: "C15", Parts: imageParts},
		core.Property{ID: "C16", Parts: damageParts, Assumptions: []string{"Single truncations and single altered bytes."}},
		core.Property{ID: "C17", Parts: faultParts, Assumptions: []string{"A writer that stores less than it was given reports an error (io.Writer's contract)."}},
		core.Property{ID: "C18", Parts: grouperParts},
	)
}
