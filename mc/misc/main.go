package main

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/disks"
	"github.com/dargueta/disko/file_systems/unixv6"
	core "github.com/dargueta/disko/zzverif/core"
	"github.com/hashicorp/go-multierror"
)

// ---- C36 ----

var standard = []disko.DriverError{
	disko.ErrAlreadyInProgress, disko.ErrArgumentOutOfRange, disko.ErrBlockDeviceRequired, disko.ErrBusy,
	disko.ErrCrossDeviceLink, disko.ErrDirectoryNotEmpty, disko.ErrDiskQuotaExceeded, disko.ErrExists,
	disko.ErrFileDescriptorBadState, disko.ErrFileSystemCorrupted, disko.ErrFileTooLarge, disko.ErrInvalidArgument,
	disko.ErrInvalidFileDescriptor, disko.ErrInvalidFileSystem, disko.ErrIOFailed, disko.ErrIsADirectory,
	disko.ErrLinkCycleDetected, disko.ErrNameTooLong, disko.ErrNoDevice, disko.ErrNoSpaceOnDevice,
	disko.ErrNotADirectory, disko.ErrNotFound, disko.ErrNotImplemented, disko.ErrNotPermitted,
	disko.ErrNotSupported, disko.ErrPermissionDenied, disko.ErrReadOnlyFileSystem, disko.ErrResultOutOfRange,
	disko.ErrTooManyLinks, disko.ErrTooManyOpenFiles, disko.ErrTooManyUsers,
}

type ptrError struct{ s string }

func (e *ptrError) Error() string { return e.s }

type sliceError []string // not comparable

func (e sliceError) Error() string { return fmt.Sprint([]string(e)) }

type valueError struct{ n int }

func (e valueError) Error() string { return fmt.Sprintf("value error %d", e.n) }

var (
	plain   = errors.New("plain error")
	inner   = errors.New("inner error")
	pointer = &ptrError{"pointer error"}
)

// A foreignError is an error to wrap, with what it matches: sentinels and
// standard errors.
type foreignError struct {
	err   error
	match []error
	std   []int
}

func (f foreignError) sentinels() map[error]bool {
	m := map[error]bool{}
	for _, e := range f.match {
		m[e] = true
	}
	return m
}

func (f foreignError) standard() map[int]bool {
	m := map[int]bool{}
	for _, i := range f.std {
		m[i] = true
	}
	return m
}

// identity tells whether an error can be found by itself.
func (f foreignError) identity() bool {
	_, list := f.err.(*multierror.Error) // lists are merged
	_, slice := f.err.(sliceError)
	return !list && !slice
}

// Errors made by NewError.
var newErrors = []disko.DriverError{disko.NewError("a new error"), disko.NewError("another new error: with details")}

func indexOf(e error) int {
	for i, s := range standard {
		if s == e {
			return i
		}
	}
	panic("harness error: no standard error")
}

// newForeign makes the errors to wrap; some of them can be changed by code
// that holds them, so every execution has its own.
func newForeign() []foreignError {
	return []foreignError{
		{plain, []error{plain}, nil},
		{io.EOF, []error{io.EOF}, nil},
		{pointer, []error{pointer}, nil},
		{valueError{3}, []error{valueError{3}}, nil},
		{fmt.Errorf("outer: %w", inner), []error{inner}, nil},
		{errors.Join(plain, inner), []error{plain, inner}, nil},
		{&os.PathError{Op: "open", Path: "p", Err: os.ErrNotExist}, []error{os.ErrNotExist}, nil},
		{multierror.Append(nil, plain, pointer), []error{plain, pointer}, nil},
		{sliceError{"not comparable"}, nil, nil},
		{errors.New(""), nil, nil},
		{fmt.Errorf("reading: %w, then: %w", disko.ErrIOFailed, plain), []error{plain}, []int{indexOf(disko.ErrIOFailed)}},
		{errors.Join(inner, &os.PathError{Op: "stat", Path: "q", Err: disko.ErrNotFound.Wrap(pointer)}), []error{inner, pointer}, []int{indexOf(disko.ErrNotFound)}},
		{multierror.Append(nil, disko.ErrExists.WithMessage("m"), newErrors[1], os.ErrNotExist), []error{os.ErrNotExist, newErrors[1]}, []int{indexOf(disko.ErrExists)}},
	}
}

// unchanged asserts that the wrapped errors are what newForeign made them.
func unchanged(x *core.X, fs []foreignError) {
	for i, f := range newForeign() {
		x.Assert(fs[i].err.Error() == f.err.Error(), "an error that was wrapped now reads %q, not %q", fs[i].err.Error(), f.err.Error())
		if _, list := f.err.(*multierror.Error); !list {
			continue // cannot be added to
		}
		sent, std := f.sentinels(), f.standard()
		for _, s := range sentinels {
			x.Assert(errors.Is(fs[i].err, s) == sent[s], "an error that was wrapped (%q): whether it matches %q has changed", f.err.Error(), s)
		}
		for k, s := range standard {
			x.Assert(errors.Is(fs[i].err, s) == std[k], "an error that was wrapped (%q): whether it matches %q has changed", f.err.Error(), s.Error())
		}
	}
}

var sentinels = []error{plain, inner, pointer, io.EOF, valueError{3}, os.ErrNotExist, io.ErrUnexpectedEOF, valueError{4}, newErrors[0], newErrors[1]}

// derived is an error together with what the property demands of it.
type derived struct {
	err  disko.DriverError
	text string
	std  map[int]bool
	sent map[error]bool
}

func (d derived) check(x *core.X, what string) {
	x.Assert(d.err.Error() == d.text, "%s: text is %q, want %q", what, d.err.Error(), d.text)
	for i, s := range standard {
		x.Assert(errors.Is(d.err, s) == d.std[i], "%s (%q): errors.Is(err, %q) = %v, want %v", what, d.text, s.Error(), !d.std[i], d.std[i])
	}
	for _, s := range sentinels {
		x.Assert(errors.Is(d.err, s) == d.sent[s], "%s (%q): errors.Is(err, %q) = %v, want %v", what, d.text, s.Error(), !d.sent[s], d.sent[s])
	}
	x.Assert(!errors.Is(d.err, nil), "%s matches nil", what)
}

func union[K comparable](ms ...map[K]bool) map[K]bool {
	out := map[K]bool{}
	for _, m := range ms {
		for k := range m {
			out[k] = true
		}
	}
	return out
}

func errorParts(thorough bool) []*core.Part {
	depths := "2 (for some of these, 3)"
	if thorough {
		depths = "3"
	}
	messages := []string{"first message", "", "100% %s %v: \n"}
	text := map[int]string{}
	for i, s := range standard {
		text[i] = s.Error()
	}
	// origin is what derivations start from: a standard error, an error made
	// by NewError, or the cast of a foreign error.
	origins := len(standard) + len(newErrors) + len(newForeign())
	origin := func(i int, foreign []foreignError) derived {
		if i < len(standard) {
			return derived{err: standard[i], text: text[i], std: map[int]bool{i: true}, sent: map[error]bool{}}
		}
		i -= len(standard)
		if i < len(newErrors) {
			return derived{newErrors[i], []string{"a new error", "another new error: with details"}[i], map[int]bool{}, map[error]bool{newErrors[i]: true}}
		}
		f := foreign[i-len(newErrors)]
		return derived{disko.CastToDriverError(f.err), f.err.Error(), f.standard(), f.sentinels()}
	}
	return []*core.Part{
		{Name: "standard errors", Bounds: "all 31 standard errors pairwise", Body: func(x *core.X) {
			i := x.Choose(len(standard), "error")
			j := x.Choose(len(standard), "other")
			x.Begin()
			x.T()
			x.Assert(errors.Is(standard[i], standard[j]) == (i == j), "errors.Is(%q, %q) is %v", standard[i], standard[j], i != j)
			x.Assert(standard[i].Error() != "", "a standard error has no text")
			x.Assert(i == j || standard[i].Error() != standard[j].Error(), "two standard errors have the text %q", standard[i])
		}},
		{Name: "new errors", Bounds: "NewError with all 14 x 14 pairs of texts: text, identity, and the root cause if it offers one", Body: func(x *core.X) {
			texts := []string{"", " ", "a", "a ", "A", "a: b", ": ", "100%", "%s%d", "\x00", "\xff", "é", "Not a file", "a\nb"}
			s, t := core.Pick(x, "text", texts...), core.Pick(x, "other text", texts...)
			x.Begin()
			x.T()
			e, f := disko.NewError(s), disko.NewError(t)
			x.Assert(e.Error() == s && f.Error() == t, "NewError(%q), NewError(%q) have the texts %q, %q", s, t, e, f)
			x.Assert(errors.Is(e, e), "NewError(%q) isn't itself", s)
			x.Assert(s == t || !errors.Is(e, f), "NewError(%q) is NewError(%q)", s, t)
			for i, std := range standard {
				x.Assert(!errors.Is(e, std), "NewError(%q) is standard error %d", s, i)
				x.Assert(!errors.Is(std, e) || s == "", "standard error %d is NewError(%q)", i, s)
			}
			if r, ok := e.(interface{ RootCause() disko.DriverError }); ok {
				x.Assert(errors.Is(r.RootCause(), e) && r.RootCause().Error() == s, "the root cause of NewError(%q) is %q", s, r.RootCause())
			}
		}},
		{Name: "derivations", Bounds: fmt.Sprintf("from each standard error, 2 errors made by NewError and the casts of 13 foreign errors: every tree of %s derivations (add one of %d messages, wrap one of %d foreign errors, a standard error or an error derived before, cast), each applied to any error derived so far; at the end all of them are checked", depths, len(messages), len(newForeign())), Body: func(x *core.X) {
			base := x.Choose(origins, "standard, new or cast error")
			x.Begin()
			foreign := newForeign()
			depth := 3
			if base != 0 && base != len(standard) && base != len(standard)+len(newErrors)+10 {
				depth = pick(thorough, 2, 3)
			}
			all := []derived{origin(base, foreign)}
			other := (base + 7) % len(standard)
			for step := 0; step < depth; step++ {
				p := all[x.Choose(len(all), "derive from")]
				k := x.Choose(len(messages)+len(foreign)+2+len(all), "derivation")
				x.T()
				var d derived
				switch {
				case k < len(messages):
					d = derived{p.err.WithMessage(messages[k]), p.text + ": " + messages[k], p.std, p.sent}
				case k < len(messages)+len(foreign):
					f := foreign[k-len(messages)]
					d = derived{p.err.Wrap(f.err), p.text + ": " + f.err.Error(), union(p.std, f.standard()), union(p.sent, f.sentinels())}
					x.Assert(!f.identity() || errors.Is(d.err, f.err), "wrapping %q: the result does not match it", f.err)
				case k == len(messages)+len(foreign):
					d = derived{p.err.Wrap(standard[other]), p.text + ": " + text[other], union(p.std, map[int]bool{other: true}), p.sent}
				case k == len(messages)+len(foreign)+1:
					d = derived{disko.CastToDriverError(p.err), p.text, p.std, p.sent}
				default:
					q := all[k-len(messages)-len(foreign)-2]
					d = derived{p.err.Wrap(q.err), p.text + ": " + q.text, union(p.std, q.std), union(p.sent, q.sent)}
				}
				all = append(all, d)
				x.Logf("derived %q", d.err.Error())
			}
			for i, a := range all {
				a.check(x, fmt.Sprintf("error %d after %d derivations", i, depth))
			}
			for i, s := range standard {
				x.Assert(s.Error() == text[i], "standard error %q now reads %q", text[i], s.Error())
			}
			unchanged(x, foreign)
			x.OutcomeS(all[len(all)-1].text)
		}},
		{Name: "long derivations", Bounds: "each of these errors; chains of 4-400 derivations: messages, wraps of foreign errors, wraps of standard errors, mixed, with casts, nested from the inside; messages of up to 70000 bytes; all intermediate errors of short chains and the last of long ones are checked", Body: func(x *core.X) {
			base := x.Choose(origins, "standard, new or cast error")
			length := core.Pick(x, "derivations", 4, 5, 6, 8, 9, 10, 16, 17, 32, 33, 50, 64, 65, 100, 128, 129, 200, 256, 257, 400)
			kind := x.Choose(6, "messages/foreign errors/standard errors/mixed/nested/long messages")
			x.Begin()
			foreign := newForeign()
			d := origin(base, foreign)
			all := []derived{d}
			for i := 0; i < length; i++ {
				x.T()
				message := fmt.Sprintf("message %d", i)
				f := foreign[i%len(foreign)]
				o := (base + 3*i) % len(standard)
				k := kind
				if k == 3 {
					k = i * 7 % 5
				}
				switch k {
				case 1:
					d = derived{d.err.Wrap(f.err), d.text + ": " + f.err.Error(), union(d.std, f.standard()), union(d.sent, f.sentinels())}
				case 2:
					d = derived{d.err.Wrap(standard[o]), d.text + ": " + text[o], union(d.std, map[int]bool{o: true}), d.sent}
				case 4: // what was derived so far becomes the cause of another
					d = derived{standard[o].Wrap(d.err), text[o] + ": " + d.text, union(d.std, map[int]bool{o: true}), d.sent}
				case 5:
					if length > 65 {
						x.Abandon()
					}
					message = fmt.Sprintf("%0*d", []int{1, 255, 256, 257, 1025, 4097, 70000}[i%7], i)
					fallthrough
				default:
					d = derived{d.err.WithMessage(message), d.text + ": " + message, d.std, d.sent}
				}
				if i%9 == 4 {
					d.err = disko.CastToDriverError(d.err)
				}
				all = append(all, d)
			}
			if length > 33 {
				all = append(all[:3:3], all[len(all)-2:]...)
			}
			for i, a := range all {
				a.check(x, fmt.Sprintf("error %d of a chain of %d", i, length))
			}
			for i, s := range standard {
				x.Assert(s.Error() == text[i], "standard error %q now reads %q", text[i], s.Error())
			}
			unchanged(x, foreign)
		}},
		{Name: "casts", Bounds: "casting nil, every standard error and 13 foreign errors, some of which contain standard errors", Body: func(x *core.X) {
			foreign := newForeign()
			k := x.Choose(1+len(standard)+len(foreign), "error")
			x.Begin()
			x.T()
			switch {
			case k == 0:
				x.Assert(disko.CastToDriverError(nil) == nil, "casting nil gives an error")
			case k <= len(standard):
				s := standard[k-1]
				x.Assert(disko.CastToDriverError(s) == s, "casting %q changes it", s)
			default:
				f := foreign[k-1-len(standard)]
				d := disko.CastToDriverError(f.err)
				x.Assert(d != nil, "casting %q gives nil", f.err)
				x.Assert(!f.identity() || errors.Is(d, f.err), "the cast of %q does not match it", f.err)
				derived{d, f.err.Error(), f.standard(), f.sentinels()}.check(x, "the cast")
				x.Assert(disko.CastToDriverError(d) == d, "casting the cast of %q changes it", f.err)
				unchanged(x, foreign)
			}
		}},
	}
}

// ---- C37 ----

func flagParts(thorough bool) []*core.Part {
	type pair struct {
		os    int
		io    disko.IOFlags
		label string
	}
	opts := []pair{{os.O_APPEND, disko.O_APPEND, "append"}, {os.O_CREATE, disko.O_CREATE, "create"}, {os.O_EXCL, disko.O_EXCL, "exclusive"}, {os.O_TRUNC, disko.O_TRUNC, "truncate"}, {os.O_SYNC, disko.O_SYNC, "sync"}}
	modes := []pair{{os.O_RDONLY, disko.O_RDONLY, "read"}, {os.O_WRONLY, disko.O_WRONLY, "write"}, {os.O_RDWR, disko.O_RDWR, "read-write"}}
	rest := []disko.IOFlags{disko.O_NOFOLLOW, disko.O_DIRECTORY, disko.O_TMPFILE, disko.O_NOATIME, disko.O_PATH}
	queries := func(x *core.X, f disko.IOFlags, m int, on map[disko.IOFlags]bool) {
		x.T()
		x.Assert(f.Read() == (m != 1), "flags %#x: Read() = %v", int(f), f.Read())
		x.Assert(f.Write() == (m != 0), "flags %#x: Write() = %v", int(f), f.Write())
		x.Assert(f.Append() == on[disko.O_APPEND], "flags %#x: Append() = %v", int(f), f.Append())
		x.Assert(f.Create() == on[disko.O_CREATE], "flags %#x: Create() = %v", int(f), f.Create())
		x.Assert(f.Truncate() == on[disko.O_TRUNC], "flags %#x: Truncate() = %v", int(f), f.Truncate())
		x.Assert(f.Exclusive() == on[disko.O_EXCL], "flags %#x: Exclusive() = %v", int(f), f.Exclusive())
		x.Assert(f.Synchronous() == on[disko.O_SYNC], "flags %#x: Synchronous() = %v", int(f), f.Synchronous())
		x.Assert(f.NoFollow() == on[disko.O_NOFOLLOW], "flags %#x: NoFollow() = %v", int(f), f.NoFollow())
		want := m != 0 || on[disko.O_TRUNC]
		x.Assert(f.RequiresWritePerm() == want, "flags %#x: RequiresWritePerm() = %v", int(f), !want)
	}
	return []*core.Part{
		{Name: "translation", Bounds: "all 3 access modes x 2^5 options of the os package", Body: func(x *core.X) {
			m := x.Choose(3, "access mode")
			x.Begin()
			in, want := modes[m].os, modes[m].io
			on := map[disko.IOFlags]bool{}
			for _, o := range opts {
				if x.Bool(o.label) {
					in |= o.os
					want |= o.io
					on[o.io] = true
				}
			}
			x.T()
			got := disko.OSFlagsToIOFlags(in)
			x.Assert(got == want, "os flags %#x translate to %#x, want %#x", in, int(got), int(want))
			queries(x, got, m, on)
			x.Outcome(uint64(got))
		}},
		{Name: "queries", Bounds: "all 3 access modes x 2^10 options x 16 combinations of undefined bits", Body: func(x *core.X) {
			m := x.Choose(3, "access mode")
			f := modes[m].io
			on := map[disko.IOFlags]bool{}
			for i, o := range append([]disko.IOFlags{disko.O_APPEND, disko.O_CREATE, disko.O_EXCL, disko.O_TRUNC, disko.O_SYNC}, rest...) {
				if x.Bool("") {
					f |= o
					on[o] = true
				}
				if i == 4 {
					x.Begin()
				}
			}
			for _, b := range []disko.IOFlags{1 << 4, 1 << 12, 1 << 26, 1 << 30} {
				if x.Bool("") {
					f |= b
				}
			}
			queries(x, f, m, on)
			x.Outcome(uint64(f))
		}},
		{Name: "mount flags", Bounds: "all 2^16 combinations of the 16 lowest mount flags, and of 3 custom ones", Body: func(x *core.X) {
			hi := x.Choose(1<<8, "high bits")
			x.Begin()
			f := disko.MountFlags(hi<<8 | x.Choose(1<<8, "low bits"))
			f |= core.Pick(x, "custom", disko.MountFlags(0), 1<<20, 1<<30)
			x.T()
			for _, q := range []struct {
				name string
				got  bool
				bit  disko.MountFlags
			}{{"CanRead", f.CanRead(), disko.MountFlagsAllowRead}, {"CanWrite", f.CanWrite(), disko.MountFlagsAllowWrite}, {"CanDelete", f.CanDelete(), disko.MountFlagsAllowDelete}} {
				x.Assert(q.got == (f&q.bit == q.bit), "mount flags %#x: %s() = %v", int(f), q.name, q.got)
			}
			bits := []disko.MountFlags{disko.MountFlagsAllowRead, disko.MountFlagsAllowWrite, disko.MountFlagsAllowInsert, disko.MountFlagsAllowDelete, disko.MountFlagsAllowAdminister, disko.MountFlagsPreserveTimestamps, disko.MountFlagsCustomStart}
			seen := disko.MountFlags(0)
			for _, b := range bits {
				x.Assert(b != 0 && b&(b-1) == 0 && seen&b == 0, "mount flag %#x is not a bit of its own", int(b))
				seen |= b
			}
			x.Assert(disko.MountFlagsAllowReadWrite == bits[0]|bits[1] && disko.MountFlagsAllowAll == bits[0]|bits[1]|bits[2]|bits[3]|bits[4], "the combined mount flags are wrong")
		}},
		{Name: "file types", Bounds: "all 2^13 combinations of the portable mode's type bits with 9 permission patterns", Body: func(x *core.X) {
			hi := x.Choose(1<<13, "bits")
			x.Begin()
			m := os.FileMode(hi)<<19 | core.Pick(x, "permissions", 0, os.FileMode(0o777), 0o400, 0o200, 0o100, 0o040, 0o001, 0o111, 0o644)
			st := disko.FileStat{ModeFlags: m, Size: 5, Nlinks: 3}
			typ := m & os.ModeType
			x.T()
			x.Assert(st.IsDir() == (m&os.ModeDir != 0), "mode %v: IsDir() = %v", m, st.IsDir())
			x.Assert(st.IsFile() == (typ == 0), "mode %v: IsFile() = %v", m, st.IsFile())
			x.Assert(st.IsSymlink() == (typ == os.ModeSymlink), "mode %v: IsSymlink() = %v", m, st.IsSymlink())
		}},
	}
}

// ---- C38 ----

func geometryParts(thorough bool) []*core.Part {
	known := map[string]bool{}
	for _, g := range table {
		known[g.Slug] = true
	}
	capacity := func(g disks.DiskGeometry) *big.Int {
		n := big.NewInt(1)
		for _, f := range []uint{g.BitsPerAddressUnit, g.AddressUnitsPerSector, g.SectorsPerTrack, g.TotalDataTracks, g.Heads} {
			n.Mul(n, new(big.Int).SetUint64(uint64(f)))
		}
		return n
	}
	ceil := func(bits *big.Int) *big.Int {
		q, r := new(big.Int).DivMod(bits, big.NewInt(8), new(big.Int))
		if r.Sign() != 0 {
			q.Add(q, big.NewInt(1))
		}
		return q
	}
	size := func(x *core.X, g disks.DiskGeometry) {
		bits := capacity(g)
		if !bits.IsInt64() {
			x.Abandon()
		}
		x.T()
		got := g.TotalSizeBytes()
		x.Assert(big.NewInt(got).Cmp(ceil(bits)) == 0, "geometry %+v has %d bytes, want %v", g, got, ceil(bits))
		x.Outcome(uint64(got))
	}
	units := []uint{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 18, 24, 31, 32, 36, 48, 60, 63, 64, 65, 72}
	mid := []uint{0, 1, 2, 3, 5, 7, 8, 26, 128, 255, 256, 257, 319, 512, 1000, 1024, 4096, 65535, 65536, 65537}
	wide := []uint{1, 3, 7, 77, 1 << 16, 1<<16 + 1, 1<<20 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1}
	return []*core.Part{
		{Name: "predefined", Bounds: "all 34 predefined geometries; fetched again after the first result was modified", Body: func(x *core.X) {
			g := table[x.Choose(len(table), "geometry")]
			x.Begin()
			for i := 0; i < 2; i++ {
				x.T()
				got, err := disks.GetPredefinedDiskGeometry(g.Slug)
				x.Assert(err == nil, "slug %q: %v", g.Slug, err)
				x.Assert(got == g, "slug %q: got %+v, want %+v", g.Slug, got, g)
				size(x, got)
				got = disks.DiskGeometry{}
				_ = got
			}
		}},
		{Name: "unknown slugs", Bounds: "every slug with one byte removed, changed to one of 40 characters or inserted, changed case, and special strings", Body: func(x *core.X) {
			g := table[x.Choose(len(table), "slug")]
			x.Begin()
			s := g.Slug
			const chars = "abcdefghijklmnopqrstuvwxyz0123456789_- S"
			switch x.Choose(4, "change") {
			case 0:
				i := x.Choose(len(s), "remove")
				s = s[:i] + s[i+1:]
			case 1:
				i := x.Choose(len(s), "replace")
				s = s[:i] + string(chars[x.Choose(len(chars), "by")]) + s[i+1:]
			case 2:
				i := x.Choose(len(s)+1, "insert at")
				s = s[:i] + string(chars[x.Choose(len(chars), "byte")]) + s[i:]
			case 3:
				s = core.Pick(x, "string", "", " ", g.Name, g.FormFactor, "slug", s+"\x00", s+"\n", s+s, "*", "%")
			}
			x.T()
			got, err := disks.GetPredefinedDiskGeometry(s)
			if known[s] {
				x.Assert(err == nil && got.Slug == s, "slug %q is not found", s)
				return
			}
			x.Assert(err != nil, "unknown slug %q yields %+v", s, got)
			x.Assert(got == disks.DiskGeometry{}, "unknown slug %q yields an error and a geometry %+v", s, got)
		}},
		{Name: "capacities", Bounds: "all geometries with bits per unit from 26 values, units, sectors and tracks from 20 values, 1, 2 or 15 heads, any hidden tracks", Body: func(x *core.X) {
			g := disks.DiskGeometry{Name: "x", HiddenTracks: 3, IsRemovable: 1}
			g.BitsPerAddressUnit = core.Pick(x, "bits per unit", units...)
			g.AddressUnitsPerSector = core.Pick(x, "units per sector", mid...)
			x.Begin()
			g.SectorsPerTrack = core.Pick(x, "sectors per track", mid...)
			g.TotalDataTracks = core.Pick(x, "tracks", mid...)
			g.Heads = core.Pick[uint](x, "heads", 1, 2, 15)
			g.HiddenTracks = g.Heads - 1
			size(x, g)
		}},
		{Name: "volume statistics", Bounds: "block sizes and counts from 13 values up to 2^32+1, as long as the product fits in 63 bits; other fields zero or not", Body: func(x *core.X) {
			bs := core.Pick(x, "block size", append([]uint{0}, wide...)...)
			n := core.Pick(x, "blocks", append([]uint{0}, wide...)...)
			x.Begin()
			st := disko.FSStat{BlockSize: bs, TotalBlocks: uint64(n)}
			if x.Bool("other fields") {
				st.BlocksFree, st.BlocksAvailable, st.Files, st.FilesFree, st.FileSystemID, st.MaxNameLength = uint64(n)/2, uint64(n)/3, 5, 6, "7", 8
			}
			want := new(big.Int).Mul(new(big.Int).SetUint64(uint64(bs)), new(big.Int).SetUint64(uint64(n)))
			if !want.IsInt64() {
				x.Abandon()
			}
			x.T()
			x.Assert(st.TotalSizeBytes() == want.Int64(), "%d blocks of %d bytes are %d bytes", n, bs, st.TotalSizeBytes())
			x.Assert(st.Metadata() == nil, "volume statistics have metadata %v", st.Metadata())
			x.Outcome(uint64(st.TotalSizeBytes()))
		}},
		{Name: "large capacities", Bounds: "factors from 13 values up to 2^32+1, as long as the number of bits fits in 63 bits", Body: func(x *core.X) {
			var g disks.DiskGeometry
			g.BitsPerAddressUnit = core.Pick[uint](x, "bits per unit", 1, 7, 8, 12, 36, 1<<32+1)
			g.AddressUnitsPerSector = core.Pick(x, "units per sector", wide...)
			x.Begin()
			g.SectorsPerTrack = core.Pick(x, "sectors per track", wide...)
			g.TotalDataTracks = core.Pick(x, "tracks", wide...)
			g.Heads = core.Pick(x, "heads", wide...)
			size(x, g)
		}},
	}
}

// ---- C39 ----

const kept = 0x6000 | 0x0C00 | 0x01FF // type, set-id and permission bits

// portable gives the expected portable mode (without the device bit of
// character devices, which may be present or not).
func portable(flags uint16) os.FileMode {
	m := os.FileMode(flags & 0o777)
	if flags&0x0800 != 0 {
		m |= os.ModeSetuid
	}
	if flags&0x0400 != 0 {
		m |= os.ModeSetgid
	}
	switch flags & 0x6000 {
	case 0x6000:
		m |= os.ModeDevice
	case 0x4000:
		m |= os.ModeDir
	case 0x2000:
		m |= os.ModeCharDevice
	}
	return m
}

func sameMode(got os.FileMode, flags uint16) bool {
	want := portable(flags)
	return got == want || flags&0x6000 == 0x2000 && got == want|os.ModeDevice
}

func inodeParts(thorough bool) []*core.Part {
	stamps := []uint32{0, 1, 86399, 86400, 1<<31 - 1, 1 << 31, 1<<32 - 1, 168480000, 1000000007}
	statCheck := func(x *core.X, num unixv6.Inumber, in unixv6.RawInode, size int64) {
		x.T()
		st, err := unixv6.RawInodeToStat(num, in)
		x.Assert(err == nil, "RawInodeToStat(%d, %+v): %v", num, in, err)
		x.Assert(st.InodeNumber == uint64(num), "inode number %d is reported as %d", num, st.InodeNumber)
		x.Assert(st.Size == size, "size %d (%v) is reported as %d", size, in.Size, st.Size)
		x.Assert(st.NumBlocks == (size+511)/512, "%d bytes occupy %d blocks, reported %d", size, (size+511)/512, st.NumBlocks)
		x.Assert(st.Nlinks == uint64(in.NLink), "link count %d is reported as %d", in.NLink, st.Nlinks)
		x.Assert(st.Uid == uint32(in.UID) && st.Gid == uint32(in.GID), "owner %d:%d is reported as %d:%d", in.UID, in.GID, st.Uid, st.Gid)
		x.Assert(sameMode(st.ModeFlags, in.Flags), "flags %#x are reported as mode %v (%#x)", in.Flags, st.ModeFlags, uint32(st.ModeFlags))
		x.Assert(st.LastAccessed.Equal(time.Unix(int64(in.AccessedTime), 0)), "access time %d is reported as %v", in.AccessedTime, st.LastAccessed)
		x.Assert(st.LastModified.Equal(time.Unix(int64(in.ModifiedTime), 0)), "modification time %d is reported as %v", in.ModifiedTime, st.LastModified)
	}
	return []*core.Part{
		{Name: "flags", Bounds: "all 65536 flag words to portable modes and back", Body: func(x *core.X) {
			hi := x.Choose(256, "high byte")
			x.Begin()
			flags := uint16(hi<<8 | x.Choose(256, "low byte"))
			x.T()
			mode, err := unixv6.ConvertFSFlagsToStandard(flags)
			x.Assert(err == nil, "flags %#x: %v", flags, err)
			x.Assert(sameMode(mode, flags), "flags %#x convert to %v (%#x), want %v", flags, mode, uint32(mode), portable(flags))
			x.T()
			back, err := unixv6.ConvertStandardFlagsToFS(mode)
			x.Assert(err == nil, "flags %#x convert to %v, which is refused: %v", flags, mode, err)
			x.Assert(back&kept == flags&kept, "flags %#x -> mode %v -> flags %#x", flags, mode, back)
			x.Outcome(uint64(mode))
		}},
		{Name: "modes", Bounds: "all portable modes: 2^7 type combinations x 2^7 other mode bits x permission bits (all 512 for plain files and directories, 11 otherwise)", Body: func(x *core.X) {
			types := []os.FileMode{os.ModeDir, os.ModeSymlink, os.ModeDevice, os.ModeNamedPipe, os.ModeSocket, os.ModeCharDevice, os.ModeIrregular}
			others := []os.FileMode{os.ModeAppend, os.ModeExclusive, os.ModeTemporary, os.ModeSetuid, os.ModeSetgid, os.ModeSticky, 1 << 9}
			var typ, mode os.FileMode
			for _, t := range types {
				if x.Bool("type bit") {
					typ |= t
				}
			}
			x.Begin()
			for _, o := range others {
				if x.Bool("mode bit") {
					mode |= o
				}
			}
			var perm os.FileMode
			if typ == 0 || typ == os.ModeDir {
				perm = os.FileMode(x.Choose(512, "permissions"))
			} else {
				perm = core.Pick[os.FileMode](x, "permissions", 0, 0o777, 0o400, 0o200, 0o100, 0o040, 0o020, 0o010, 0o004, 0o002, 0o001)
			}
			m := typ | mode | perm
			x.T()
			got, err := unixv6.ConvertStandardFlagsToFS(m)
			var want uint16
			switch typ {
			case 0:
			case os.ModeDir:
				want = 0x4000
			case os.ModeDevice:
				want = 0x6000
			case os.ModeCharDevice:
				want = 0x2000
			case os.ModeDevice | os.ModeCharDevice:
				if err != nil {
					return // the other spelling of a character device may be refused
				}
				want = 0x2000
			default:
				x.Assert(err != nil, "mode %v (%#x) has a type Unix V6 lacks but converts to %#x", m, uint32(m), got)
				return
			}
			want |= uint16(perm)
			if m&os.ModeSetuid != 0 {
				want |= 0x0800
			}
			if m&os.ModeSetgid != 0 {
				want |= 0x0400
			}
			x.Assert(err == nil, "mode %v (%#x) is refused: %v", m, uint32(m), err)
			x.Assert(got&kept == want, "mode %v (%#x) converts to %#x, want %#x", m, uint32(m), got, want)
		}},
		{Name: "sizes", Bounds: "all 2^24 file sizes", Body: func(x *core.X) {
			b := [3]int{x.Choose(256, "high"), 0, 0}
			x.Begin()
			b[1] = x.Choose(256, "middle")
			b[2] = x.Choose(256, "low")
			in := unixv6.RawInode{Flags: 0x81A4, NLink: 1, Size: [3]uint8{uint8(b[0]), uint8(b[2]), uint8(b[1])}}
			statCheck(x, 1, in, int64(b[0])<<16|int64(b[1])<<8|int64(b[2]))
		}},
		{Name: "owners and links", Bounds: "all user x group numbers with all link counts derived from them, 6 flag words, 5 inode numbers", Body: func(x *core.X) {
			u := x.Choose(256, "uid")
			x.Begin()
			g := x.Choose(256, "gid")
			in := unixv6.RawInode{UID: uint8(u), GID: uint8(g), NLink: uint8(u*7 + g), AccessedTime: uint32(u), ModifiedTime: uint32(g) << 24}
			in.Flags = core.Pick[uint16](x, "flags", 0, 0x8000, 0xC1ED, 0xE1A4, 0xAFFF, 0x9000)
			num := core.Pick[unixv6.Inumber](x, "inode", 0, 1, 255, 256, 65535)
			in.Size = [3]uint8{0, 1, 0}
			statCheck(x, num, in, 1)
		}},
		{Name: "flags and sizes", Bounds: "all 65536 flag words with 12 sizes, 0, 1 or 255 links, all addresses zero or not, timestamps zero or not", Body: func(x *core.X) {
			hi := x.Choose(256, "flags, high byte")
			x.Begin()
			x.T()
			for lo := 0; lo < 256; lo++ {
				in := unixv6.RawInode{Flags: uint16(hi<<8 | lo)}
				for i, size := range []int{0, 1, 511, 512, 513, 4095, 4096, 4097, 65535, 65536, 917504, 1<<24 - 1} {
					in.Size = [3]uint8{uint8(size >> 16), uint8(size), uint8(size >> 8)}
					in.NLink = []uint8{0, 1, 255}[(i+lo)%3]
					for _, addr := range []unixv6.BlockNum{0, 0x1234} {
						for j := range in.Addr {
							in.Addr[j] = addr
						}
						in.AccessedTime, in.ModifiedTime = uint32(addr)<<8, uint32(addr)<<19
						statCheck(x, unixv6.Inumber(addr)+1, in, int64(size))
					}
				}
			}
		}},
		{Name: "timestamps", Bounds: "all pairs of 9 timestamps, 256 link counts", Body: func(x *core.X) {
			in := unixv6.RawInode{Flags: 0x8000, AccessedTime: core.Pick(x, "accessed", stamps...), ModifiedTime: core.Pick(x, "modified", stamps...)}
			x.Begin()
			in.NLink = uint8(x.Choose(256, "links"))
			for i := range in.Addr {
				in.Addr[i] = unixv6.BlockNum(0x0101 * (i + 1))
			}
			statCheck(x, 9, in, 0)
		}},
	}
}

func main() {
	core.Main(
		core.Property{ID: "C36", Parts: errorParts},
		core.Property{ID: "C37", Parts: flagParts, Assumptions: []string{"The access mode that combines the write-only and read-write bits is not a valid mode and is left out."}},
		core.Property{ID: "C38", Parts: geometryParts, Assumptions: []string{"The documented parameters are those of disk-geometries.csv at the pinned commit (an independent copy is compiled into the checker)."}},
		core.Property{ID: "C39", Parts: inodeParts, Assumptions: []string{"A character device may be represented with or without os.ModeDevice."}},
	)
}

func pick(t bool, q, th int) int {
	if t {
		return th
	}
	return q
}
