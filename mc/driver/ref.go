package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/dargueta/disko"
	core "github.com/dargueta/disko/zzverif/core"
)

// node is an object of the reference file system.
type node struct {
	mode         os.FileMode
	uid, gid     int
	atime, mtime time.Time
	data         []byte // content of a file, target of a link
	names        []string
	kids         map[string]*node
}

func (n *node) dir() bool  { return n.mode.IsDir() }
func (n *node) link() bool { return n.mode&os.ModeType == os.ModeSymlink }
func (n *node) file() bool { return n.mode.IsRegular() }

// special objects can be listed and removed with their directory; what else can
// be done with them is unspecified.
func (n *node) special() bool { return !n.dir() && !n.link() && !n.file() }

func (n *node) add(name string, k *node) {
	n.names = append(n.names, name)
	n.kids[name] = k
}

func (n *node) remove(name string) {
	delete(n.kids, name)
	for i, s := range n.names {
		if s == name {
			n.names = append(append([]string{}, n.names[:i]...), n.names[i+1:]...)
			return
		}
	}
}

func dirNode(perm os.FileMode) *node { return &node{mode: os.ModeDir | perm, kids: map[string]*node{}} }
func fileNode(data string) *node     { return &node{mode: 0o644, data: []byte(data)} }
func linkNode(target string) *node {
	return &node{mode: os.ModeSymlink | 0o777, data: []byte(target)}
}

// ref is the reference file system.
type ref struct {
	root *node
	cwd  string
	feat *disko.FSFeatures
	hops int // links followed before a cycle is assumed (0: 300)
}

// normalize resolves the components of a path one by one.
func normalize(cwd, path string) string {
	if !strings.HasPrefix(path, "/") {
		path = cwd + "/" + path
	}
	var out []string
	for _, c := range strings.Split(path, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	return "/" + strings.Join(out, "/")
}

func split(path string) (dir, base string) {
	i := strings.LastIndexByte(path, '/')
	if i == 0 {
		return "/", path[1:]
	}
	return path[:i], path[i+1:]
}

// walk resolves a normalized path. It returns the object and its physical
// path. For a missing last component of an existing directory, the path is
// that of the missing object.
func (r *ref) walk(path string, follow bool, budget *int) (*node, string, error) {
	cur, phys := r.root, "/"
	if path == "/" {
		return cur, phys, nil
	}
	comps := strings.Split(path[1:], "/")
	for i, c := range comps {
		if !cur.dir() {
			return nil, "", disko.ErrNotADirectory
		}
		next := cur.kids[c]
		p := phys + "/" + c
		if phys == "/" {
			p = "/" + c
		}
		last := i == len(comps)-1
		if next == nil {
			if last {
				return nil, p, disko.ErrNotFound
			}
			return nil, "", disko.ErrNotFound
		}
		if next.link() && (follow || !last) {
			if *budget--; *budget < 0 {
				return nil, "", disko.ErrLinkCycleDetected
			}
			var err error
			next, p, err = r.walk(normalize(phys, string(next.data)), true, budget)
			if err != nil {
				if !last {
					p = ""
				}
				return nil, p, err
			}
		}
		cur, phys = next, p
	}
	return cur, phys, nil
}

func (r *ref) lookup(path string, follow bool) (*node, string, error) {
	budget := max(r.hops, 300)
	return r.walk(normalize(r.cwd, path), follow, &budget)
}

// clone copies the file system. Shared objects stay shared.
func (r *ref) clone() *ref {
	m := map[*node]*node{}
	return &ref{r.root.clone(m), r.cwd, r.feat, r.hops}
}

func (n *node) clone(m map[*node]*node) *node {
	if c, ok := m[n]; ok {
		return c
	}
	c := &node{}
	*c = *n
	m[n] = c
	c.data = append([]byte{}, n.data...)
	c.names = append([]string{}, n.names...)
	if n.kids != nil {
		c.kids = map[string]*node{}
		for name, k := range n.kids {
			c.kids[name] = k.clone(m)
		}
	}
	return c
}

// store puts a copy of the reference tree into a file system.
func (fs *memfs) store(r *ref) map[*node]*inode {
	m := map[*node]*inode{}
	var walk func(n *node) *inode
	walk = func(n *node) *inode {
		if i, ok := m[n]; ok {
			i.nlink++
			return i
		}
		i := fs.newInode(n.mode)
		i.nlink = 1
		m[n] = i
		i.uid, i.gid, i.atime, i.mtime = n.uid, n.gid, n.atime, n.mtime
		fs.setData(i, n.data)
		for _, name := range n.names {
			i.kids = append(i.kids, kid{name, walk(n.kids[name])})
		}
		return i
	}
	fs.root = walk(r.root)
	return m
}

// load makes a reference tree of what a file system contains.
func (fs *memfs) load(cwd string) *ref {
	m := map[*inode]*node{}
	var walk func(i *inode) *node
	walk = func(i *inode) *node {
		if n, ok := m[i]; ok {
			return n
		}
		n := &node{mode: i.mode, uid: i.uid, gid: i.gid, atime: i.atime, mtime: i.mtime, data: append([]byte{}, i.data()...)}
		m[i] = n
		if i.dir() {
			n.kids = map[string]*node{}
			for _, k := range i.kids {
				n.add(k.name, walk(k.ino))
			}
		}
		return n
	}
	return &ref{walk(fs.root), cwd, &fs.feat, 0}
}

// compare finds the first difference between a volume and the reference.
// skip lists objects whose content is not to be compared.
func (fs *memfs) compare(r *ref, skip map[*node]bool) string {
	fwd, back := map[*node]*inode{}, map[*inode]*node{}
	var walk func(path string, n *node, i *inode) string
	walk = func(path string, n *node, i *inode) string {
		if fwd[n] != nil || back[i] != nil {
			if fwd[n] != i {
				return fmt.Sprintf("%s is not the object it should be", path)
			}
			return ""
		}
		fwd[n], back[i] = i, n
		if n.mode != i.mode {
			return fmt.Sprintf("%s has mode %v, want %v", path, i.mode, n.mode)
		}
		if n.uid != i.uid || n.gid != i.gid {
			return fmt.Sprintf("%s belongs to %d:%d, want %d:%d", path, i.uid, i.gid, n.uid, n.gid)
		}
		if !n.atime.Equal(i.atime) || !n.mtime.Equal(i.mtime) {
			return fmt.Sprintf("%s has times %v, %v, want %v, %v", path, i.atime, i.mtime, n.atime, n.mtime)
		}
		if !n.dir() && !skip[n] && string(n.data) != string(i.data()) {
			return fmt.Sprintf("%s contains %q, want %q", path, i.data(), n.data)
		}
		for _, k := range i.kids {
			if n.kids[k.name] == nil {
				return fmt.Sprintf("%s/%s exists", strings.TrimSuffix(path, "/"), k.name)
			}
		}
		for _, name := range n.names {
			k := i.get(name)
			p := strings.TrimSuffix(path, "/") + "/" + name
			if k == nil {
				return p + " is missing"
			}
			if s := walk(p, n.kids[name], k); s != "" {
				return s
			}
		}
		return ""
	}
	return walk("/", r.root, fs.root)
}

// expect is what an operation may report.
type expect struct {
	ok   bool
	errs []error // acceptable errors; none means any
	free bool    // succeeding is fine too, and so is failing
}

var (
	success = expect{ok: true}
	failure = expect{}
)

func oneOf(errs ...error) expect { return expect{errs: errs} }

func lookupError(err error) expect {
	if errors.Is(err, disko.ErrNotADirectory) {
		return failure
	}
	return oneOf(err)
}

func (e expect) check(x *core.X, what any, err error) {
	if e.free {
		return
	}
	if e.ok {
		x.Assert(err == nil, "%v: %v", what, err)
		return
	}
	x.Assert(err != nil, "%v succeeded", what)
	if len(e.errs) == 0 {
		return
	}
	for _, want := range e.errs {
		if errors.Is(err, want) {
			return
		}
	}
	x.Fail("%v reported %v, want %v", what, err, e.errs)
}
