package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
	core "github.com/dargueta/disko/zzverif/core"
)

// meta is a volume that stores updated entries.
type meta struct {
	*vol
	path    []string // whose entry may be updated
	updated []fat.Dirent
}

func (m *meta) UpdateDirent(d *fat.Dirent) error {
	m.x.Logf("UpdateDirent(%q)", d.Name())
	if err := m.fault("updating the entry"); err != nil {
		return err
	}
	m.updated = append(m.updated, *d)
	raw, ok := m.find(0, m.path...)
	m.x.Assert(ok && raw != nil, "the entry %q was updated", d.Name())
	raw[11] = byte(d.AttributeFlags)
	st := d.Stat()
	binary.LittleEndian.PutUint16(raw[18:], dateOf(st.LastAccessed))
	binary.LittleEndian.PutUint16(raw[24:], dateOf(st.LastModified))
	binary.LittleEndian.PutUint16(raw[22:], timeOf(st.LastModified))
	return nil
}

func dateOf(t time.Time) uint16 {
	t = t.In(time.Local)
	return uint16(min(max(t.Year()-1980, 0), 127)<<9 | int(t.Month())<<5 | t.Day())
}

func timeOf(t time.Time) uint16 {
	t = t.In(time.Local)
	return uint16(t.Hour()<<11 | t.Minute()<<5 | t.Second()/2)
}

var epoch = time.Date(1980, 1, 1, 0, 0, 0, 0, time.Local)

var moments = []time.Time{
	epoch, epoch.Add(-1), epoch.Add(time.Nanosecond), {}, time.Unix(0, 0), epoch.Add(-time.Hour), epoch.AddDate(-1, 11, 30),
	time.Date(2001, 2, 3, 4, 5, 6, 7, time.Local), time.Date(2020, 2, 29, 23, 59, 59, 999999999, time.Local),
	time.Date(2107, 12, 31, 23, 59, 58, 0, time.Local), time.Date(1, 1, 1, 0, 0, 0, 1, time.Local),
	time.Date(1999, 12, 31, 23, 59, 59, 0, time.FixedZone("", 13*3600)),
}

// facts is everything an entry says.
type facts struct {
	name     string
	attr, nt int
	first    fat.ClusterID
	size     int64
	mode     os.FileMode
	mod      time.Time
	stat     disko.FileStat
	dir      bool
}

func factsOf(d fat.Dirent) facts {
	return facts{d.Name(), d.AttributeFlags, d.NTReserved, d.FirstCluster, d.Size(), d.Mode(), d.ModTime(), d.Stat(), d.IsDir()}
}

// entryAt finds the entry of a path in its directory's listing.
func (m *meta) entryAt(d *fat.FATDriver, path []string) facts {
	faulty := m.faulty
	m.faulty = false
	defer func() { m.faulty = faulty }()
	l, err := d.Readdir("/" + join(path[:len(path)-1]))
	m.x.Assert(err == nil, "listing the directory of /%s: %v", join(path), err)
	for _, fi := range l {
		if fi.Name() != path[len(path)-1] {
			continue
		}
		switch e := fi.(type) {
		case fat.Dirent:
			return factsOf(e)
		case *fat.Dirent:
			return factsOf(*e)
		}
		panic("harness error: the entries of a listing are not of type Dirent")
	}
	m.x.Fail("/%s is not listed", join(path))
	panic("harness error: /" + join(path) + " is not listed")
}

type change struct {
	chmod        bool
	mode         os.FileMode
	atime, mtime time.Time
}

func (c change) String() string {
	if c.chmod {
		return fmt.Sprintf("Chmod(%v)", c.mode)
	}
	return fmt.Sprintf("Chtimes(%v, %v)", c.atime, c.mtime)
}

// apply makes a change and checks what was handed over.
func (m *meta) apply(d *fat.FATDriver, path []string, spelled string, c change) {
	x := m.x
	raw, ok := m.find(0, path...)
	m.path, m.updated = path, nil
	before := m.snapshot()
	var want facts
	if ok && raw != nil {
		want = m.entryAt(d, path)
	}
	var err error
	x.T()
	if c.chmod {
		err = d.Chmod(spelled, c.mode)
	} else {
		err = d.Chtimes(spelled, c.atime, c.mtime)
	}
	x.Logf("%v of %s: %v", c, spelled, err)
	bad := !c.chmod && (c.atime.Before(epoch) || c.mtime.Before(epoch))
	if !ok || raw == nil || bad || m.failed {
		x.Assert(err != nil, "%v of %s succeeded", c, spelled)
		x.Assert(len(m.updated) == 0, "the failed %v of %s updated an entry", c, spelled)
		m.unchanged(before, "the failed change")
		return
	}
	x.Assert(err == nil, "%v of %s: %v", c, spelled, err)
	x.Assert(len(m.updated) == 1, "%v of %s updated %d entries", c, spelled, len(m.updated))
	if c.chmod {
		want.attr &^= 1
		want.mode |= 0o222
		if c.mode&0o222 == 0 {
			want.attr |= 1
			want.mode &^= 0o222
		}
		want.stat.ModeFlags = want.mode
	} else {
		want.mod, want.stat.LastModified, want.stat.LastAccessed = c.mtime, c.mtime, c.atime
	}
	got := factsOf(m.updated[0])
	if got == want {
		return
	}
	sameTimes := got.mod.Equal(want.mod) && got.stat.LastModified.Equal(want.stat.LastModified) && got.stat.LastAccessed.Equal(want.stat.LastAccessed) && got.stat.CreatedAt.Equal(want.stat.CreatedAt) && got.stat.DeletedAt.Equal(want.stat.DeletedAt) && got.stat.LastChanged.Equal(want.stat.LastChanged)
	got.mod, got.stat.LastModified, got.stat.LastAccessed, got.stat.CreatedAt, got.stat.DeletedAt, got.stat.LastChanged = want.mod, want.stat.LastModified, want.stat.LastAccessed, want.stat.CreatedAt, want.stat.DeletedAt, want.stat.LastChanged
	x.Assert(sameTimes && got == want, "%v of %s handed over %+v, want %+v", c, spelled, factsOf(m.updated[0]), want)
}

func newMeta(x *core.X, k kind, bps, rot int) (*meta, *fat.FATDriver) {
	m := &meta{vol: tree(x, k, bps, 1, rot)}
	return m, driver(x, m, image{m.vol})
}

var metaPaths = [][]string{{"A"}, {"E"}, {"X.Y"}, {"D"}, {"D", "A"}, {"D", "S"}, {"D", "S", "A"}, {"B"}, {"A", "A"}, {"D", "S", "B"}}

func metaParts(thorough bool) []*core.Part {
	depth := 3
	if thorough {
		depth = 4
	}
	var changes []change
	for _, mode := range []os.FileMode{0, 0o444, 0o200, 0o020, 0o002, 0o777, os.ModeDir | 0o555, os.ModeSetuid | os.ModeSymlink | 0o755} {
		changes = append(changes, change{chmod: true, mode: mode})
	}
	for i := range moments[:9] {
		changes = append(changes, change{atime: moments[i], mtime: moments[(i*4+7)%9]})
	}
	changes = append(changes, change{atime: moments[7], mtime: moments[8]}, change{atime: moments[8], mtime: moments[7]}, change{atime: moments[0], mtime: moments[0]})
	return []*core.Part{
		{Name: "modes", Bounds: "all 128 attribute combinations of a file and of a directory, all 512 permissions, with and without other mode bits", Body: func(x *core.X) {
			attr := x.Choose(128, "attributes")
			dir := x.Bool("directory")
			x.Begin()
			perm := x.Choose(512, "permissions")
			extra := core.Pick(x, "other bits", 0, os.ModeDir, os.ModeSetuid|os.ModeSetgid|os.ModeSticky|os.ModeDevice)
			m, d := newMeta(x, kinds[0], 96, 0)
			path := []string{"X.Y"}
			if dir {
				path = []string{"D"}
			}
			raw, _ := m.find(0, path...)
			raw[11] = byte(attr&15 | attr>>4<<5)
			if dir {
				raw[11] |= 16
			}
			raw[12] = 0xA7
			m.apply(d, path, "/"+path[0], change{chmod: true, mode: os.FileMode(perm) | extra})
		}},
		{Name: "times", Bounds: fmt.Sprintf("all pairs of %d times around the earliest and the latest one FAT can represent, %d paths", len(moments), len(metaPaths)), Body: func(x *core.X) {
			path := core.Pick(x, "path", metaPaths...)
			a := core.Pick(x, "accessed", moments...)
			x.Begin()
			b := core.Pick(x, "modified", moments...)
			m, d := newMeta(x, kinds[1], 512, 1)
			m.apply(d, path, "/"+join(path), change{atime: a, mtime: b})
		}},
		{Name: "spellings", Bounds: fmt.Sprintf("every path of a tree with equal names at three levels in 6 spellings, 3 FAT variants, 2 placements, %d changes", len(changes)), Body: func(x *core.X) {
			path := core.Pick(x, "path", treePaths[1:]...)
			spell := x.Choose(len(spellings), "spelling")
			x.Begin()
			k := core.Pick(x, "variant", kinds...)
			rot := x.Choose(2, "placement")
			m, d := newMeta(x, k, 96, rot)
			m.apply(d, path, spellings[spell](join(path)), core.Pick(x, "change", changes...))
		}},
		{Name: "sequences", Bounds: fmt.Sprintf("all sequences of %d of %d changes to 3 files, each stored before the next", depth, len(changes)), Body: func(x *core.X) {
			n := len(changes)
			op := x.Choose(3*n, "change")
			x.Begin()
			m, d := newMeta(x, kinds[0], 96, 1)
			for i := 0; i < depth; i++ {
				if i > 0 {
					op = x.Choose(3*n, "change")
				}
				path := [][]string{{"A"}, {"D", "A"}, {"D", "S"}}[op/n]
				m.apply(d, path, "/"+join(path), changes[op%n])
			}
		}},
		{Name: "faults", Budget: 1, Bounds: "every access to the root, the table, the image and the entry failing once: it is reported and nothing is updated", Body: func(x *core.X) {
			path := core.Pick(x, "path", metaPaths...)
			x.Begin()
			c := core.Pick(x, "change", changes...)
			m, d := newMeta(x, kinds[0], 96, 1)
			m.faulty = true
			m.apply(d, path, "/"+join(path), c)
		}},
		{Name: "same file", Bounds: "all pairs of entries of all directories of a tree, listed separately, on 3 FAT variants; other systems' files", Body: func(x *core.X) {
			k := core.Pick(x, "variant", kinds...)
			rot := x.Choose(4, "placement")
			x.Begin()
			_, d := newMeta(x, k, 512, rot)
			list := func() (infos []os.FileInfo) {
				for _, p := range []string{"/", "/D", "/D/S"} {
					l, err := d.Readdir(p)
					x.Assert(err == nil, "Readdir(%s): %v", p, err)
					infos = append(infos, l...)
				}
				return
			}
			for _, a := range list() {
				for _, b := range list() {
					ca, cb := a.(fat.Dirent).FirstCluster, b.(fat.Dirent).FirstCluster
					if ca == 0 || cb == 0 {
						if ca != cb {
							x.Assert(!d.SameFile(a, b), "SameFile(%s at %d, %s at %d)", a.Name(), ca, b.Name(), cb)
						}
						continue // files without clusters and the root have no identity
					}
					x.T()
					x.Assert(d.SameFile(a, b) == (ca == cb), "SameFile(%s at %d, %s at %d) is %v", a.Name(), ca, b.Name(), cb, ca != cb)
				}
				x.Assert(!d.SameFile(a, foreign{}) && !d.SameFile(foreign{}, a), "SameFile(%s, a file of another system)", a.Name())
			}
		}},
		{Name: "unsupported", Bounds: "every operation FAT cannot support, on every path of a tree", Body: func(x *core.X) {
			path := core.Pick(x, "path", treePaths...)
			x.Begin()
			m, d := newMeta(x, kinds[2], 512, 3)
			before := m.snapshot()
			p := "/" + join(path)
			_, rerr := d.Readlink(p)
			for i, err := range []error{rerr, d.Chown(p, 1, 2), d.Lchown(p, 1, 2), d.Link(p, "/N"), d.Symlink(p, "/N"), d.Link("/N", p), d.Symlink("/N", p)} {
				x.T()
				x.Assert(err != nil, "unsupported operation %d on %s succeeded", i, p)
			}
			m.unchanged(before, "unsupported operations")
			x.Assert(len(m.updated) == 0, "an unsupported operation updated an entry")
		}},
		{Name: "entry times", Mode: core.DFS, Bounds: fmt.Sprintf("all sequences of %d settings of one of 4 times of an existing or deleted entry to %d times", depth, len(moments)), Body: entryTimes(depth)},
	}
}

type foreign struct{ os.FileInfo }

func (foreign) Sys() any     { return nil }
func (foreign) Name() string { return "A" }

// entryTimes sets times of an entry.
func entryTimes(depth int) func(x *core.X) {
	return func(x *core.X) {
		deleted := x.Bool("deleted")
		op := x.Choose(4*len(moments), "setting")
		x.Begin()
		raw := entry("A", "B", 0x20, 9, 100)
		if deleted {
			raw[13], raw[0] = raw[0], 0xE5
		}
		r, err := fat.NewRawDirentFromBytes(raw)
		x.Assert(err == nil, "decoding: %v", err)
		e, err := fat.NewDirentFromRaw(bootSector(512), &r)
		x.Assert(err == nil, "decoding: %v", err)
		st := e.Stat()
		accessed, modified, created, gone := st.LastAccessed, st.LastModified, st.CreatedAt, st.DeletedAt
		for i := 0; i < depth; i++ {
			if i > 0 {
				op = x.Choose(4*len(moments), "setting")
			}
			t := moments[op%len(moments)]
			var err error
			what := ""
			ok := !t.Before(epoch)
			x.T()
			switch op / len(moments) {
			case 0:
				what, err = "SetLastAccessedAt", e.SetLastAccessedAt(t)
				if ok {
					accessed = t
				}
			case 1:
				what, err = "SetLastModifiedAt", e.SetLastModifiedAt(t)
				if ok {
					modified = t
				}
			case 2:
				what, err = "SetCreatedAt", e.SetCreatedAt(t)
				ok = ok && !deleted
				if ok {
					created = t
				}
			default:
				what, err = "SetDeletedAt", e.SetDeletedAt(t)
				if ok {
					deleted, gone = true, t
				}
			}
			x.Logf("%s(%v): %v", what, t, err)
			x.Assert((err == nil) == ok, "%s(%v) of an entry (deleted: %v): %v", what, t, deleted, err)
			x.Assert(e.GetLastAccessedAt().Equal(accessed) && e.Stat().LastAccessed.Equal(accessed), "after %s(%v) the time of access is %v, want %v", what, t, e.GetLastAccessedAt(), accessed)
			x.Assert(e.GetLastModifiedAt().Equal(modified) && e.ModTime().Equal(modified) && e.Stat().LastModified.Equal(modified), "after %s(%v) the time of modification is %v, want %v", what, t, e.GetLastModifiedAt(), modified)
			c, err := e.GetCreatedAt()
			x.Assert((err == nil) == !deleted && (deleted || c.Equal(created)), "after %s(%v) the time of creation is %v, %v, want %v", what, t, c, err, created)
			g, err := e.GetDeletedAt()
			x.Assert((err == nil) == deleted && (!deleted || g.Equal(gone)), "after %s(%v) the time of deletion is %v, %v, want %v", what, t, g, err, gone)
		}
	}
}
