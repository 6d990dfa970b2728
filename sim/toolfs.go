package main

import (
	"encoding/binary"
	"sort"
	"strings"
	"syscall"
)

// ---- the simulated disk ---------------------------------------------------------

const (
	kDir  = 'd'
	kFile = 'f'
	kLink = 'l'
)

type inode struct {
	ino    uint64
	kind   byte
	data   []byte
	target string
	kids   map[string]*inode
	mode   uint32
	mtime  int64
	synced bool // the data is on the medium
}

type simFS struct {
	root *inode
	next uint64
	now  int64
}

func newFS() *simFS {
	fs := &simFS{next: 1}
	fs.root = fs.node(kDir, 0o755)
	return fs
}

func (fs *simFS) node(kind byte, mode uint32) *inode {
	fs.next++
	n := &inode{ino: fs.next, kind: kind, mode: mode, mtime: fs.now}
	if kind == kDir {
		n.kids = map[string]*inode{}
	}
	return n
}

func (fs *simFS) clone() *simFS {
	seen := map[*inode]*inode{}
	var cp func(n *inode) *inode
	cp = func(n *inode) *inode {
		if c, ok := seen[n]; ok {
			return c
		}
		c := *n
		seen[n] = &c
		c.data = append([]byte(nil), n.data...)
		if n.kids != nil {
			c.kids = make(map[string]*inode, len(n.kids))
			for k, v := range n.kids {
				c.kids[k] = cp(v)
			}
		}
		return &c
	}
	return &simFS{root: cp(fs.root), next: fs.next, now: fs.now}
}

func splitPath(p string) []string {
	var out []string
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			out = append(out, c)
		}
	}
	return out
}

// found is where a path leads: the directory, the name in it and what is there.
// real is the path without links.
type found struct {
	dir  *inode
	name string
	n    *inode
	real string
}

// walk resolves an absolute path.
func (fs *simFS) walk(path string, follow bool) (found, syscall.Errno) {
	return fs.walkN(path, follow, 0)
}

func (fs *simFS) walkN(path string, follow bool, depth int) (found, syscall.Errno) {
	if depth > 40 {
		return found{}, syscall.ELOOP
	}
	comps := splitPath(path)
	slash := strings.HasSuffix(path, "/") && len(comps) > 0
	cur := fs.root
	var stack []*inode
	var names []string
	f := found{n: cur, real: "/"}
	for i := 0; i < len(comps); i++ {
		c := comps[i]
		if cur.kind != kDir {
			return found{}, syscall.ENOTDIR
		}
		if len(c) > 255 {
			return found{}, syscall.ENAMETOOLONG
		}
		if c == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack, names = stack[:len(stack)-1], names[:len(names)-1]
			}
			f = found{n: cur, real: "/" + strings.Join(names, "/")}
			continue
		}
		last := i == len(comps)-1
		k := cur.kids[c]
		if k == nil {
			if !last {
				return found{}, syscall.ENOENT
			}
			return found{dir: cur, name: c, real: "/" + strings.Join(append(append([]string{}, names...), c), "/")}, 0
		}
		if k.kind == kLink && (!last || follow || slash) {
			t := k.target
			if !strings.HasPrefix(t, "/") {
				t = "/" + strings.Join(names, "/") + "/" + t
			}
			rest := strings.Join(comps[i+1:], "/")
			if rest != "" {
				t += "/" + rest
			}
			if slash {
				t += "/"
			}
			return fs.walkN(t, follow, depth+1)
		}
		f = found{dir: cur, name: c, n: k, real: "/" + strings.Join(append(append([]string{}, names...), c), "/")}
		stack = append(stack, cur)
		names = append(names, c)
		cur = k
	}
	if slash && f.n != nil && f.n.kind != kDir {
		return found{}, syscall.ENOTDIR
	}
	return f, 0
}

func (fs *simFS) mkdirAll(path string) *inode {
	cur := fs.root
	for _, c := range splitPath(path) {
		k := cur.kids[c]
		if k == nil {
			k = fs.node(kDir, 0o755)
			cur.kids[c] = k
		}
		cur = k
	}
	return cur
}

// put stores a file as it is before the run begins.
func (fs *simFS) put(path string, data []byte) {
	i := strings.LastIndexByte(path, '/')
	d := fs.mkdirAll(path[:i])
	n := d.kids[path[i+1:]]
	if n == nil || n.kind != kFile {
		n = fs.node(kFile, 0o644)
		d.kids[path[i+1:]] = n
	}
	n.data, n.synced = append([]byte(nil), data...), true
}

func (fs *simFS) link(path, target string) {
	i := strings.LastIndexByte(path, '/')
	d := fs.mkdirAll(path[:i])
	n := fs.node(kLink, 0o777)
	n.target = target
	d.kids[path[i+1:]] = n
}

func (fs *simFS) remove(path string) {
	if f, e := fs.walk(path, false); e == 0 && f.dir != nil {
		delete(f.dir.kids, f.name)
	}
}

// tree lists everything below a directory: files with their content, links with
// their target, empty directories with a trailing slash.
func (fs *simFS) tree(path string) map[string]string {
	out := map[string]string{}
	f, e := fs.walk(path, true)
	if e != 0 || f.n == nil {
		return out
	}
	var rec func(n *inode, at string)
	rec = func(n *inode, at string) {
		switch n.kind {
		case kFile:
			out[at] = string(n.data)
		case kLink:
			out[at] = "->" + n.target
		case kDir:
			if len(n.kids) == 0 && at != "" {
				out[at+"/"] = ""
			}
			for k, v := range n.kids {
				rec(v, strings.TrimPrefix(at+"/"+k, "/"))
			}
		}
	}
	rec(f.n, "")
	return out
}

func (n *inode) stat() []byte {
	b := make([]byte, 144)
	le := binary.LittleEndian
	le.PutUint64(b[0:], 1)
	le.PutUint64(b[8:], n.ino)
	le.PutUint64(b[16:], 1)
	m := n.mode
	size := int64(len(n.data))
	switch n.kind {
	case kDir:
		m |= syscall.S_IFDIR
		size = 4096
	case kFile:
		m |= syscall.S_IFREG
	case kLink:
		m |= syscall.S_IFLNK
		size = int64(len(n.target))
	}
	le.PutUint32(b[24:], m)
	le.PutUint64(b[48:], uint64(size))
	le.PutUint64(b[56:], 4096)
	le.PutUint64(b[64:], uint64((size+511)/512))
	for _, o := range []int{72, 88, 104} {
		le.PutUint64(b[o:], uint64(n.mtime/1e9))
		le.PutUint64(b[o+8:], uint64(n.mtime%1e9))
	}
	return b
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// crashed is what a machine that lost power comes up with. before is the disk
// at the start of the run, fs the cache at the moment of the crash: what was
// not written through is kept, lost or torn, path by path.
func (fs *simFS) crashed(before *simFS, r *RNG) *simFS {
	out := fs.clone()
	var rec func(a, b *inode)
	rec = func(a, b *inode) {
		for _, k := range sortedKeys(b.kids) {
			n := b.kids[k]
			var old *inode
			if a != nil {
				old = a.kids[k]
			}
			switch {
			case old == nil && !n.synced && r.N(3) == 0:
				delete(b.kids, k) // the directory entry never made it
			case n.kind == kDir:
				if old != nil && old.kind != kDir {
					old = nil
				}
				rec(old, n)
			case n.kind == kFile && !n.synced:
				if old != nil && old.kind == kFile && string(old.data) == string(n.data) && old.ino == n.ino {
					continue
				}
				switch r.N(5) {
				case 0:
				case 1:
					n.data = n.data[:0]
				case 2:
					n.data = n.data[:r.N(len(n.data)+1)]
				case 3: // the length is there, the blocks are not
					for i := r.N(len(n.data) + 1); i < len(n.data); i++ {
						n.data[i] = 0
					}
				case 4:
					if old != nil && old.kind == kFile {
						n.data = append([]byte(nil), old.data...)
					}
				}
			}
		}
	}
	rec(before.root, out.root)
	return out
}
