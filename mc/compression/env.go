package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/dargueta/disko/utilities/compression"
	core "github.com/dargueta/disko/zzverif/core"
)

// ---- reference encodings, written from doc.go and the doc comments ----

type run struct {
	b byte
	n int
}

func runsOf(s []byte) []run {
	var out []run
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && s[j] == s[i] {
			j++
		}
		out = append(out, run{s[i], j - i})
		i = j
	}
	return out
}

func rle8enc(s []byte) []byte {
	var out []byte
	for _, r := range runsOf(s) {
		n := r.n
		for n > 0 {
			if n == 1 {
				out = append(out, r.b)
				break
			}
			k := n
			if k > 257 {
				k = 257
			}
			out = append(out, r.b, r.b, byte(k-2))
			n -= k
		}
	}
	return out
}

// rle8dec returns the expansion and whether a repeat count is missing.
func rle8dec(s []byte) ([]byte, bool) {
	var out []byte
	for i := 0; i < len(s); {
		if i+1 < len(s) && s[i] == s[i+1] {
			if i+2 >= len(s) {
				return nil, true
			}
			for k := 0; k < 2+int(s[i+2]); k++ {
				out = append(out, s[i])
			}
			i += 3
		} else {
			out = append(out, s[i])
			i++
		}
	}
	return out, false
}

func rrenc(s []byte) []byte {
	var out []byte
	for _, r := range runsOf(s) {
		out = append(out, r.b)
		if r.n == 1 {
			continue
		}
		out = append(out, r.b)
		rest := r.n - 2
		for ; rest >= 255; rest -= 255 {
			out = append(out, 255)
		}
		out = append(out, byte(rest))
	}
	return out
}

func rrdec(s []byte) ([]byte, bool) {
	var out []byte
	for i := 0; i < len(s); {
		b := s[i]
		out = append(out, b)
		i++
		if i >= len(s) || s[i] != b {
			continue
		}
		out = append(out, b)
		i++
		for {
			if i >= len(s) {
				return nil, true
			}
			c := s[i]
			i++
			for k := 0; k < int(c); k++ {
				out = append(out, b)
			}
			if c != 255 {
				break
			}
		}
	}
	return out, false
}

// ---- environment: sources and destinations ----

var (
	errFault  = errors.New("injected I/O failure")
	errPathed = fmt.Errorf("outer layer: %w", errFault)
)

// source delivers data under the control of the explorer.
type source struct {
	x       *core.X
	data    []byte
	pos     int
	split   bool // every splitting of the deliveries
	chunk   int  // otherwise: fixed delivery size (0: as much as asked)
	empties bool // may return (0, nil), budgeted
	faults  bool // may fail, budgeted
	sticky  bool // a failure persists
	err     error
	failed  error
	eofWith bool // EOF arrives together with the last bytes (chunk mode)
	reads   int
	hook    func(k int) // called at every read
	ended   bool
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	if s.hook != nil {
		s.hook(s.reads)
	}
	if s.failed != nil && s.sticky {
		return 0, s.failed
	}
	if s.ended {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	rest := len(s.data) - s.pos
	if s.faults {
		switch s.x.Deviate(3, "read failure (1: no data, 2: with data)") {
		case 1:
			s.failed = s.err
			return 0, s.err
		case 2:
			n := rest
			if n > len(p) {
				n = len(p)
			}
			if n > 1 {
				n = (n + 1) / 2
			}
			copy(p, s.data[s.pos:s.pos+n])
			s.pos += n
			s.failed = s.err
			return n, s.err
		}
	}
	if s.empties && s.x.Deviate(2, "read returns (0, nil)") == 1 {
		return 0, nil
	}
	if rest == 0 {
		s.ended = true
		return 0, io.EOF
	}
	n := rest
	if n > len(p) {
		n = len(p)
	}
	if s.split {
		n = 1 + s.x.Choose(n, "bytes delivered - 1")
	} else if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	copy(p, s.data[s.pos:s.pos+n])
	// A reader may use the rest of the buffer as scratch space.
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = 0xA7
	}
	s.pos += n
	if s.pos == len(s.data) && (s.eofWith || s.split && s.x.Bool("EOF together with the data")) {
		s.ended = true
		return n, io.EOF
	}
	return n, nil
}

// sink records what is written.
type sink struct {
	x      *core.X
	buf    []byte
	writes int
	faults bool
	sparse int // if > 0: only some of that many writes may fail
	sticky bool
	failed error
	err    error
	hook   func(k int)
}

// failable limits the failing positions of very long write sequences.
func (d *sink) failable() bool {
	k := d.writes
	if d.sparse == 0 || k < 20 || k > d.sparse-20 {
		return true
	}
	for _, b := range []int{256, 4096, 32768, 65536} {
		if m := k % b; (m <= 1 || m == b-1) && (b >= 4096 || k < 5000) {
			return true
		}
	}
	return false
}

func (d *sink) Write(p []byte) (int, error) {
	d.writes++
	if d.hook != nil {
		d.hook(d.writes)
	}
	if d.failed != nil && d.sticky {
		return 0, d.failed
	}
	if d.faults && d.failable() {
		switch d.x.Deviate(3, "write failure (1: nothing stored, 2: part stored)") {
		case 1:
			d.failed = d.err
			return 0, d.err
		case 2:
			n := len(p) / 2
			d.buf = append(d.buf, p[:n]...)
			d.failed = d.err
			return n, d.err
		}
	}
	d.buf = append(d.buf, p...)
	return len(p), nil
}

type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

const nSources = 6

// sourceKind wraps data as one of the usual reader implementations.
func sourceKind(k int, data []byte) io.Reader {
	switch k {
	case 0:
		return plainReader{bytes.NewReader(data)}
	case 1:
		return bytes.NewReader(data)
	case 2:
		return bytes.NewBuffer(append([]byte{}, data...))
	case 3:
		return strings.NewReader(string(data))
	case 4:
		return bufio.NewReaderSize(plainReader{bytes.NewReader(data)}, 16)
	default: // a bufio.Reader already in use
		r := bufio.NewReader(plainReader{bytes.NewReader(append([]byte("qq"), data...))})
		r.ReadByte()
		r.ReadByte()
		return r
	}
}

// ---- functions under test ----

type codec struct {
	name string
	f    func(io.Reader, io.Writer) (int64, error)
}

var (
	cRLE8  = codec{"CompressRLE8", compression.CompressRLE8}
	dRLE8  = codec{"DecompressRLE8", compression.DecompressRLE8}
	cRR    = codec{"CompressRLERecursive", compression.CompressRLERecursive}
	dRR    = codec{"DecompressRLERecursive", compression.DecompressRLERecursive}
	cImage = codec{"CompressImage", compression.CompressImage}
	dImage = codec{"DecompressImage", compression.DecompressImage}
	dBytes = codec{"DecompressImageToBytes", func(r io.Reader, w io.Writer) (int64, error) {
		b, err := compression.DecompressImageToBytes(r)
		if err != nil {
			return 0, err
		}
		n, err := w.Write(b)
		return int64(n), err
	}}
)

func short(b []byte) string {
	if len(b) <= 40 {
		return fmt.Sprintf("% x", b)
	}
	return fmt.Sprintf("% x ... (%d bytes)", b[:40], len(b))
}

// call runs a codec that has to succeed and compares its output.
func call(x *core.X, c codec, in io.Reader, input, want []byte) []byte {
	x.T()
	d := &sink{x: x}
	n, err := c.f(in, d)
	x.Logf("%s(%s) -> n=%d err=%v out=%s", c.name, short(input), n, err, short(d.buf))
	x.Assert(err == nil, "%s(%s) failed: %v", c.name, short(input), err)
	if want != nil || len(d.buf) == 0 {
		x.Assert(bytes.Equal(d.buf, want), "%s(%s) = %s, want %s", c.name, short(input), short(d.buf), short(want))
	}
	x.Assert(n == int64(len(d.buf)), "%s(%s) reported %d bytes but wrote %d", c.name, short(input), n, len(d.buf))
	return d.buf
}

// cut runs a decoder on data whose repeat count is missing.
func cut(x *core.X, c codec, in io.Reader, input []byte) {
	x.T()
	d := &sink{x: x}
	_, err := c.f(in, d)
	x.Logf("%s(%s) -> err=%v", c.name, short(input), err)
	x.Assert(err != nil, "%s(%s) reported success although the repeat count is missing", c.name, short(input))
	x.Assert(errors.Is(err, io.ErrUnexpectedEOF), "%s(%s): error %v is not an unexpected-end error", c.name, short(input), err)
}

// word chooses a string over an alphabet.
func word(x *core.X, alphabet []byte, maxLen int) []byte {
	n := x.Choose(maxLen+1, "length")
	s := make([]byte, n)
	for i := range s {
		s[i] = alphabet[x.Choose(len(alphabet), "")]
		if i == 2 {
			x.Begin()
		}
	}
	x.Begin()
	return s
}

// noise is deterministic incompressible data.
func noise(n int, seed uint32) []byte {
	out := make([]byte, n)
	v := seed*2654435761 + 12345
	for i := range out {
		v ^= v << 13
		v ^= v >> 17
		v ^= v << 5
		out[i] = byte(v >> 11)
	}
	return out
}
