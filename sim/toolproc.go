package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// ---- one simulated process ------------------------------------------------------

// OpFault strikes the Op-th system call of a process (counted from 1).
type OpFault struct {
	Op     int
	Err    string // errno name, or "short": only N bytes are transferred
	N      int    `json:",omitempty"` // bytes that get through before the error
	Sticky bool   `json:",omitempty"` // every later call that changes the disk fails too
	hit    bool
}

// Proc is one invocation of the program.
type Proc struct {
	Args    []string
	Cwd     string
	Env     []string `json:",omitempty"`
	Seed    uint64   // map layout, iteration order, directory order
	Clock   int64
	Pid     int
	Chunk   uint64    `json:",omitempty"` // harmless disturbances: short transfers, EINTR
	Faults  []OpFault `json:",omitempty"`
	Crash   int       `json:",omitempty"` // stops at this call
	After   bool      `json:",omitempty"` // ... after it took effect
	Torn    int       `json:",omitempty"` // ... a write after this many bytes
	Machine bool      `json:",omitempty"` // the machine goes down, not only the process
	CSeed   uint64    `json:",omitempty"` // what survives then
}

type opRec struct {
	Name, Path string
	N          int64
	Err        syscall.Errno
	Fault      string
	Step       int
}

func (o *opRec) String() string {
	s := fmt.Sprintf("%d %s", o.Step, o.Name)
	if o.Path != "" {
		s += " " + o.Path
	}
	if o.Err != 0 {
		s += " = " + errnoName(o.Err)
	} else {
		s += fmt.Sprintf(" = %d", o.N)
	}
	if o.Fault != "" {
		s += " [" + o.Fault + "]"
	}
	return s
}

// Result is what one process did.
type Result struct {
	Exit     int
	Signal   string
	Out, Err []byte // what it wrote to descriptors 1 and 2
	Rt       []byte // what the language runtime wrote past them: a crash report
	Ops      []*opRec
	Muts     []string // real paths it changed, in order
	Kinds    []string // what kind of change
	Crashed  bool
	Hung     bool
	Harmful  int // injected faults the program has to report
	LateErr  int // ... of those, faults of diagnostics output (descriptor 2)
	Soft     int // harmless ones
	Reads    map[string][]string
	Refused  []string // calls that leave the simulated world
}

type ofile struct {
	n     *inode
	path  string
	pos   int64
	flags int
	ents  []string
	read  []byte
	rd    bool
}

type simProc struct {
	w    *simWorld
	p    *Proc
	cmd  *exec.Cmd
	req  *os.File
	rsp  *os.File
	rt   bytes.Buffer
	r    *RNG
	dirR *RNG
	fds  map[int]*ofile
	next int
	res  *Result
	done bool
	ops  int

	trap    uint32
	args    [6]uint64
	payload []byte
	stick   string
	again   int // the error of the next write to againFd
	againFd int
}

// simWorld is the disk shared by the processes of a phase.
type simWorld struct {
	fs   *simFS
	step int
}

var errnoByName = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EROFS": syscall.EROFS,
	"EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "ENOENT": syscall.ENOENT, "EDQUOT": syscall.EDQUOT,
	"EINTR": syscall.EINTR, "ENOMEM": syscall.ENOMEM, "EPERM": syscall.EPERM, "EISDIR": syscall.EISDIR,
	"EEXIST": syscall.EEXIST, "ENOTDIR": syscall.ENOTDIR, "EPIPE": syscall.EPIPE, "ESTALE": syscall.ESTALE,
	"EFBIG": syscall.EFBIG, "EBADF": syscall.EBADF, "EINVAL": syscall.EINVAL, "ENOSYS": syscall.ENOSYS,
	"ELOOP": syscall.ELOOP, "ENAMETOOLONG": syscall.ENAMETOOLONG, "ENOTEMPTY": syscall.ENOTEMPTY, "ETXTBSY": syscall.ETXTBSY,
}

func errnoName(e syscall.Errno) string {
	for k, v := range errnoByName {
		if v == e {
			return k
		}
	}
	return fmt.Sprint(int(e))
}

func startSim(bin string, w *simWorld, p *Proc) (*simProc, error) {
	q := &simProc{w: w, p: p, fds: map[int]*ofile{}, next: 1000, res: &Result{Reads: map[string][]string{}}}
	q.r = NewRNG(p.Chunk)
	q.dirR = NewRNG(p.Seed ^ 0xd1)
	r1, w1, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	r2, w2, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	q.req, q.rsp = r1, w2
	q.cmd = exec.Command(bin, p.Args...)
	q.cmd.Dir = "/"
	q.cmd.Env = append([]string{"BUBBLER_SIM=1", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single", "GOGC=off", "GOMEMLIMIT=900MiB"}, p.Env...)
	q.cmd.ExtraFiles = []*os.File{w1, r2}
	q.cmd.Stderr = &q.rt
	q.cmd.Stdout = &q.rt
	err = q.cmd.Start()
	w1.Close()
	r2.Close()
	if err != nil {
		r1.Close()
		w2.Close()
		return nil, err
	}
	// what a damaged source makes the program ask for has an end
	lim := [2]uint64{simMem, simMem}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(q.cmd.Process.Pid), syscall.RLIMIT_AS, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
	return q, q.wait()
}

const simMem = 3 << 30

var simHang = 30 * time.Second

// wait takes the next request; at the end of the process, its exit status.
func (q *simProc) wait() error {
	var h [56]byte
	q.req.SetReadDeadline(time.Now().Add(simHang))
	if _, err := io.ReadFull(q.req, h[:]); err != nil {
		if os.IsTimeout(err) {
			q.res.Hung = true
			q.cmd.Process.Kill()
		}
		return q.end()
	}
	q.trap = binary.LittleEndian.Uint32(h[0:])
	n := binary.LittleEndian.Uint32(h[4:])
	for i := range q.args {
		q.args[i] = binary.LittleEndian.Uint64(h[8+8*i:])
	}
	q.payload = make([]byte, n)
	if _, err := io.ReadFull(q.req, q.payload); err != nil {
		return q.end()
	}
	return nil
}

func (q *simProc) end() error {
	q.done = true
	q.cmd.Wait()
	q.req.Close()
	q.rsp.Close()
	st := q.cmd.ProcessState
	q.res.Exit = st.ExitCode()
	if ws, ok := st.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		q.res.Signal = ws.Signal().String()
	}
	q.res.Rt = q.rt.Bytes()
	if q.res.Exit == 125 && !q.res.Crashed {
		return fmt.Errorf("simulated process lost its simulator")
	}
	return nil
}

func (q *simProc) kill() error {
	q.res.Crashed = true
	q.cmd.Process.Kill()
	return q.end()
}

func (q *simProc) reply(r1 int64, e syscall.Errno, out []byte) {
	b := make([]byte, 16, 16+len(out))
	if e != 0 {
		r1 = -1
		out = nil
	}
	binary.LittleEndian.PutUint64(b[0:], uint64(r1))
	binary.LittleEndian.PutUint32(b[8:], uint32(e))
	binary.LittleEndian.PutUint32(b[12:], uint32(len(out)))
	q.rsp.Write(append(b, out...))
}

func cstr(b []byte, i int) string {
	for ; i > 0; i-- {
		k := bytes.IndexByte(b, 0)
		if k < 0 {
			return ""
		}
		b = b[k+1:]
	}
	if k := bytes.IndexByte(b, 0); k >= 0 {
		b = b[:k]
	}
	return string(b)
}

func (q *simProc) at(dirfd uint64, p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	base := q.p.Cwd
	if int32(dirfd) != -100 {
		if f := q.fds[int(dirfd)]; f != nil {
			base = f.path
		}
	}
	return base + "/" + p
}

const (
	sysGetdents   = 217
	sysHello      = 1000
	sysGetrandom  = 318
	sysRenameat2  = 316
	sysFaccessat2 = 439
	sysFchmodat2  = 452
)

// call is one system call taken apart.
type call struct {
	name    string
	path    string
	path2   string
	fd      int
	flags   int
	mode    uint32
	mutates bool // may change the disk
}

func (q *simProc) parse() *call {
	a := q.args
	c := &call{fd: -1}
	cwd := uint64(0xffffff9c)
	one := func(name string, mut bool) { c.name, c.path, c.mutates = name, q.at(cwd, cstr(q.payload, 0)), mut }
	oneAt := func(name string, mut bool) { c.name, c.path, c.mutates = name, q.at(a[0], cstr(q.payload, 0)), mut }
	fd := func(name string, mut bool) { c.name, c.fd, c.mutates = name, int(a[0]), mut }
	switch q.trap {
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		fd("read", false)
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		fd("write", true)
	case syscall.SYS_OPEN:
		one("open", false)
		c.flags, c.mode = int(a[1]), uint32(a[2])
	case syscall.SYS_CREAT:
		one("open", false)
		c.flags, c.mode = syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, uint32(a[1])
	case syscall.SYS_OPENAT:
		oneAt("open", false)
		c.flags, c.mode = int(a[2]), uint32(a[3])
	case syscall.SYS_CLOSE:
		fd("close", false)
	case syscall.SYS_LSEEK:
		fd("lseek", false)
	case syscall.SYS_STAT:
		one("stat", false)
	case syscall.SYS_LSTAT:
		one("lstat", false)
	case syscall.SYS_NEWFSTATAT:
		oneAt("stat", false)
		if a[3]&0x100 != 0 {
			c.name = "lstat"
		}
		if a[3]&0x1000 != 0 && cstr(q.payload, 0) == "" {
			c.name, c.fd = "fstat", int(a[0])
		}
	case syscall.SYS_FSTAT:
		fd("fstat", false)
	case syscall.SYS_ACCESS:
		one("access", false)
	case syscall.SYS_FACCESSAT, sysFaccessat2:
		oneAt("access", false)
	case syscall.SYS_MKDIR:
		one("mkdir", true)
		c.mode = uint32(a[1])
	case syscall.SYS_MKDIRAT:
		oneAt("mkdir", true)
		c.mode = uint32(a[2])
	case syscall.SYS_RMDIR:
		one("rmdir", true)
	case syscall.SYS_UNLINK:
		one("unlink", true)
	case syscall.SYS_UNLINKAT:
		oneAt("unlink", true)
		if a[2]&0x200 != 0 {
			c.name = "rmdir"
		}
	case syscall.SYS_CHMOD:
		one("chmod", true)
		c.mode = uint32(a[1])
	case syscall.SYS_FCHMODAT, sysFchmodat2:
		oneAt("chmod", true)
		c.mode = uint32(a[2])
	case syscall.SYS_FCHMOD:
		fd("fchmod", true)
		c.mode = uint32(a[1])
	case syscall.SYS_TRUNCATE:
		one("truncate", true)
	case syscall.SYS_FTRUNCATE:
		fd("ftruncate", true)
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		fd("fsync", true)
	case syscall.SYS_CHDIR:
		one("chdir", false)
	case syscall.SYS_GETCWD:
		c.name = "getcwd"
	case syscall.SYS_READLINK:
		one("readlink", false)
	case syscall.SYS_READLINKAT:
		oneAt("readlink", false)
	case syscall.SYS_RENAME:
		one("rename", true)
		c.path2 = q.at(cwd, cstr(q.payload, 1))
	case syscall.SYS_RENAMEAT, sysRenameat2:
		oneAt("rename", true)
		c.path2 = q.at(a[2], cstr(q.payload, 1))
	case syscall.SYS_LINK:
		one("link", true)
		c.path2 = q.at(cwd, cstr(q.payload, 1))
	case syscall.SYS_LINKAT:
		oneAt("link", true)
		c.path2 = q.at(a[2], cstr(q.payload, 1))
	case syscall.SYS_SYMLINK:
		c.name, c.mutates = "symlink", true
		c.path, c.path2 = cstr(q.payload, 0), q.at(cwd, cstr(q.payload, 1))
	case syscall.SYS_SYMLINKAT:
		c.name, c.mutates = "symlink", true
		c.path, c.path2 = cstr(q.payload, 0), q.at(a[1], cstr(q.payload, 1))
	case syscall.SYS_UTIMENSAT:
		oneAt("utimes", true)
	case syscall.SYS_FLOCK:
		fd("flock", false)
	case syscall.SYS_FCNTL:
		fd("fcntl", false)
	case sysGetdents:
		fd("getdents", false)
	case syscall.SYS_GETPID:
		c.name = "getpid"
	case syscall.SYS_UNAME:
		c.name = "uname"
	case syscall.SYS_SYNC:
		c.name = "sync"
	}
	if c.fd >= 0 {
		if f := q.fds[c.fd]; f != nil {
			c.path = f.path
		} else if c.fd < 3 {
			c.path = fmt.Sprintf("<%d>", c.fd)
			c.mutates = false
		}
	}
	if c.name == "open" && c.flags&(syscall.O_CREAT|syscall.O_TRUNC|syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		c.mutates = true
	}
	return c
}

// doStep serves the pending request and runs the process up to its next one.
func (q *simProc) doStep() error {
	w := q.w
	switch q.trap {
	case sysHello:
		b := make([]byte, 16)
		binary.LittleEndian.PutUint64(b, q.p.Seed)
		binary.LittleEndian.PutUint64(b[8:], uint64(q.p.Clock))
		q.reply(0, 0, b)
		return q.wait()
	case sysGetrandom:
		b := make([]byte, q.args[1])
		for i := range b {
			b[i] = byte(q.dirR.N(256))
		}
		q.reply(int64(len(b)), 0, b)
		return q.wait()
	}
	c := q.parse()
	if c.name == "fcntl" {
		// descriptor flags: nothing the program can see
		q.reply(0, 0, nil)
		return q.wait()
	}
	q.ops++
	w.step++
	w.fs.now += 1000000
	rec := &opRec{Name: c.name, Path: c.path, Step: w.step}
	if c.path2 != "" {
		rec.Path += " -> " + c.path2
	}
	if c.name == "" {
		rec.Name = fmt.Sprintf("syscall-%d", q.trap)
		rec.Err = syscall.ENOSYS
		q.res.Refused = append(q.res.Refused, rec.Name)
		q.res.Ops = append(q.res.Ops, rec)
		q.reply(0, syscall.ENOSYS, nil)
		return q.wait()
	}
	if len(q.res.Ops) > 200000 {
		q.res.Hung = true
		q.cmd.Process.Kill()
		return q.end()
	}
	q.res.Ops = append(q.res.Ops, rec)
	crash := q.p.Crash == q.ops
	if crash && !q.p.After && q.p.Torn == 0 {
		rec.Fault = "crash before"
		return q.kill()
	}
	limit := -1
	var fail syscall.Errno
	if q.again != 0 && c.name == "write" && c.fd == q.againFd {
		fail, q.again = syscall.Errno(q.again), 0
		rec.Fault = "disk error"
	}
	for i := range q.p.Faults {
		f := &q.p.Faults[i]
		if f.Op != q.ops {
			continue
		}
		f.hit = true
		rec.Fault = f.Err
		if f.Err == "short" {
			limit = f.N
			q.res.Soft++
			continue
		}
		fail = errnoByName[f.Err]
		if f.Err == "EINTR" {
			q.res.Soft++
			continue
		}
		if c.fd == 2 {
			q.res.LateErr++
		} else {
			q.res.Harmful++
		}
		if f.Sticky {
			q.stick = f.Err
		}
		if c.name == "write" && f.N > 0 && f.N < len(q.payload) {
			limit, fail = f.N, 0
			q.again, q.againFd = int(errnoByName[f.Err]), c.fd
		}
	}
	if fail == 0 && limit < 0 && q.stick != "" && c.mutates {
		fail = errnoByName[q.stick]
		rec.Fault = "still " + q.stick
	}
	if fail == 0 && q.p.Chunk != 0 && rec.Fault == "" {
		switch c.name {
		case "open", "read", "write":
			switch q.r.N(8) {
			case 0:
				fail = syscall.EINTR
				rec.Fault = "EINTR"
				q.res.Soft++
			case 1, 2:
				if c.name != "open" {
					m := len(q.payload)
					if c.name == "read" {
						m = int(q.args[2])
						if m > 2048 {
							m = 2048
						}
					}
					if m > 1 {
						limit = 1 + q.r.N(m)
						rec.Fault = fmt.Sprintf("short %d", limit)
						q.res.Soft++
					}
				}
			}
		}
	}
	if crash && q.p.Torn > 0 && c.name == "write" {
		limit = q.p.Torn
	}
	var r1 int64
	var out []byte
	if fail == 0 {
		r1, fail, out = q.exec(c, limit)
	}
	rec.N, rec.Err = r1, fail
	if crash {
		rec.Fault = strings.TrimSpace(rec.Fault + " crash after")
		return q.kill()
	}
	q.reply(r1, fail, out)
	return q.wait()
}

func (q *simProc) changed(kind, path string) {
	q.res.Muts = append(q.res.Muts, path)
	q.res.Kinds = append(q.res.Kinds, kind)
}

func (q *simProc) exec(c *call, limit int) (r int64, e syscall.Errno, out []byte) {
	fs := q.w.fs
	switch c.name {
	case "getpid":
		return int64(q.p.Pid), 0, nil
	case "uname":
		b := make([]byte, 390)
		copy(b, "Linux")
		copy(b[65:], "sim")
		copy(b[130:], "6.1.0")
		copy(b[260:], "x86_64")
		return 0, 0, b
	case "getcwd":
		b := append([]byte(q.p.Cwd), 0)
		if uint64(len(b)) > q.args[1] {
			return 0, syscall.ERANGE, nil
		}
		return int64(len(b)), 0, b
	case "chdir":
		f, e := fs.walk(c.path, true)
		if e != 0 {
			return 0, e, nil
		}
		if f.n == nil {
			return 0, syscall.ENOENT, nil
		}
		if f.n.kind != kDir {
			return 0, syscall.ENOTDIR, nil
		}
		q.p.Cwd = f.real
		return 0, 0, nil
	case "sync", "flock", "fcntl", "utimes":
		return 0, 0, nil
	case "open":
		return q.open(c)
	case "stat", "lstat", "access":
		f, e := fs.walk(c.path, c.name != "lstat")
		if e != 0 {
			return 0, e, nil
		}
		if f.n == nil {
			return 0, syscall.ENOENT, nil
		}
		return 0, 0, f.n.stat()
	case "readlink":
		f, e := fs.walk(c.path, false)
		if e != 0 {
			return 0, e, nil
		}
		if f.n == nil {
			return 0, syscall.ENOENT, nil
		}
		if f.n.kind != kLink {
			return 0, syscall.EINVAL, nil
		}
		return int64(len(f.n.target)), 0, []byte(f.n.target)
	case "mkdir":
		f, e := fs.walk(strings.TrimRight(c.path, "/"), false)
		if e != 0 {
			return 0, e, nil
		}
		if f.n != nil {
			return 0, syscall.EEXIST, nil
		}
		f.dir.kids[f.name] = fs.node(kDir, c.mode&0o777)
		q.changed("mkdir", f.real)
		return 0, 0, nil
	case "rmdir", "unlink":
		f, e := fs.walk(c.path, false)
		if e != 0 {
			return 0, e, nil
		}
		if f.n == nil || f.dir == nil {
			return 0, syscall.ENOENT, nil
		}
		if c.name == "rmdir" {
			if f.n.kind != kDir {
				return 0, syscall.ENOTDIR, nil
			}
			if len(f.n.kids) > 0 {
				return 0, syscall.ENOTEMPTY, nil
			}
		} else if f.n.kind == kDir {
			return 0, syscall.EISDIR, nil
		}
		delete(f.dir.kids, f.name)
		q.changed(c.name, f.real)
		return 0, 0, nil
	case "rename", "link":
		a, e := fs.walk(c.path, false)
		if e != 0 {
			return 0, e, nil
		}
		if a.n == nil || a.dir == nil {
			return 0, syscall.ENOENT, nil
		}
		b, e := fs.walk(c.path2, false)
		if e != 0 {
			return 0, e, nil
		}
		if b.dir == nil {
			return 0, syscall.EBUSY, nil
		}
		if c.name == "link" {
			if b.n != nil {
				return 0, syscall.EEXIST, nil
			}
			b.dir.kids[b.name] = a.n
			q.changed("link", b.real)
			return 0, 0, nil
		}
		if b.n == a.n {
			return 0, 0, nil
		}
		if b.n != nil && b.n.kind == kDir {
			if a.n.kind != kDir {
				return 0, syscall.EISDIR, nil
			}
			if len(b.n.kids) > 0 {
				return 0, syscall.ENOTEMPTY, nil
			}
		} else if b.n != nil && a.n.kind == kDir {
			return 0, syscall.ENOTDIR, nil
		}
		delete(a.dir.kids, a.name)
		b.dir.kids[b.name] = a.n
		q.changed("rename", a.real)
		q.changed("rename", b.real)
		return 0, 0, nil
	case "symlink":
		b, e := fs.walk(c.path2, false)
		if e != 0 {
			return 0, e, nil
		}
		if b.n != nil || b.dir == nil {
			return 0, syscall.EEXIST, nil
		}
		n := fs.node(kLink, 0o777)
		n.target = c.path
		b.dir.kids[b.name] = n
		q.changed("symlink", b.real)
		return 0, 0, nil
	case "chmod":
		f, e := fs.walk(c.path, true)
		if e != 0 {
			return 0, e, nil
		}
		if f.n == nil {
			return 0, syscall.ENOENT, nil
		}
		f.n.mode = c.mode & 0o7777
		q.changed("chmod", f.real)
		return 0, 0, nil
	case "truncate":
		f, e := fs.walk(c.path, true)
		if e != 0 {
			return 0, e, nil
		}
		if f.n == nil {
			return 0, syscall.ENOENT, nil
		}
		if f.n.kind == kDir {
			return 0, syscall.EISDIR, nil
		}
		resize(f.n, int64(q.args[1]))
		q.changed("truncate", f.real)
		return 0, 0, nil
	}
	// calls on descriptors
	if c.fd == 0 && c.name == "read" {
		return 0, 0, nil
	}
	if (c.fd == 1 || c.fd == 2) && c.name == "write" {
		b := q.payload
		if limit >= 0 && limit < len(b) {
			b = b[:limit]
		}
		if c.fd == 1 {
			q.res.Out = append(q.res.Out, b...)
		} else {
			q.res.Err = append(q.res.Err, b...)
		}
		return int64(len(b)), 0, nil
	}
	if c.fd >= 0 && c.fd < 3 {
		switch c.name {
		case "fstat":
			n := &inode{kind: kFile}
			b := n.stat()
			binary.LittleEndian.PutUint32(b[24:], syscall.S_IFIFO|0o600)
			return 0, 0, b
		case "lseek":
			return 0, syscall.ESPIPE, nil
		}
		return 0, 0, nil
	}
	f := q.fds[c.fd]
	if f == nil {
		return 0, syscall.EBADF, nil
	}
	switch c.name {
	case "close":
		q.closed(f)
		delete(q.fds, c.fd)
		return 0, 0, nil
	case "fstat":
		return 0, 0, f.n.stat()
	case "fsync":
		f.n.synced = true
		return 0, 0, nil
	case "fchmod":
		f.n.mode = c.mode & 0o7777
		q.changed("chmod", f.path)
		return 0, 0, nil
	case "ftruncate":
		resize(f.n, int64(q.args[1]))
		q.changed("truncate", f.path)
		return 0, 0, nil
	case "lseek":
		off := int64(q.args[1])
		switch q.args[2] {
		case 1:
			off += f.pos
		case 2:
			off += int64(len(f.n.data))
		}
		if off < 0 {
			return 0, syscall.EINVAL, nil
		}
		f.pos = off
		return off, 0, nil
	case "read":
		if f.n.kind == kDir {
			return 0, syscall.EISDIR, nil
		}
		if f.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
			return 0, syscall.EBADF, nil
		}
		pos := f.pos
		if q.trap == syscall.SYS_PREAD64 {
			pos = int64(q.args[3])
		}
		var b []byte
		if pos < int64(len(f.n.data)) {
			b = f.n.data[pos:]
		}
		if m := int(q.args[2]); len(b) > m {
			b = b[:m]
		}
		if limit > 0 && len(b) > limit {
			b = b[:limit]
		}
		if q.trap != syscall.SYS_PREAD64 {
			f.pos += int64(len(b))
		}
		f.rd = true
		f.read = append(f.read, b...)
		return int64(len(b)), 0, append([]byte(nil), b...)
	case "write":
		if f.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
			return 0, syscall.EBADF, nil
		}
		b := q.payload
		if limit >= 0 && limit < len(b) {
			b = b[:limit]
		}
		pos := f.pos
		if q.trap == syscall.SYS_PWRITE64 {
			pos = int64(q.args[3])
		} else if f.flags&syscall.O_APPEND != 0 {
			pos = int64(len(f.n.data))
		}
		if end := pos + int64(len(b)); end > int64(len(f.n.data)) {
			resize(f.n, end)
		}
		copy(f.n.data[pos:], b)
		f.n.synced = false
		f.n.mtime = fs.now
		if q.trap != syscall.SYS_PWRITE64 {
			f.pos = pos + int64(len(b))
		}
		q.changed("write", f.path)
		return int64(len(b)), 0, nil
	case "getdents":
		if f.n.kind != kDir {
			return 0, syscall.ENOTDIR, nil
		}
		if f.pos == 0 {
			f.ents = sortedKeys(f.n.kids)
			for i := len(f.ents) - 1; i > 0; i-- {
				j := q.dirR.N(i + 1)
				f.ents[i], f.ents[j] = f.ents[j], f.ents[i]
			}
		}
		f.pos++
		for len(f.ents) > 0 {
			k := f.ents[0]
			n := f.n.kids[k]
			l := (19 + len(k) + 1 + 7) &^ 7
			if len(out)+l > int(q.args[2]) {
				break
			}
			f.ents = f.ents[1:]
			if n == nil {
				continue
			}
			e := make([]byte, l)
			binary.LittleEndian.PutUint64(e, n.ino)
			binary.LittleEndian.PutUint64(e[8:], 1)
			binary.LittleEndian.PutUint16(e[16:], uint16(l))
			e[18] = map[byte]byte{kDir: 4, kFile: 8, kLink: 10}[n.kind]
			copy(e[19:], k)
			out = append(out, e...)
		}
		return int64(len(out)), 0, out
	}
	return 0, syscall.ENOSYS, nil
}

func resize(n *inode, l int64) {
	if l < 0 || l > 1<<28 {
		return
	}
	for int64(len(n.data)) < l {
		n.data = append(n.data, make([]byte, l-int64(len(n.data)))...)
	}
	n.data = n.data[:l]
	n.synced = false
}

func (q *simProc) closed(f *ofile) {
	if f.rd {
		q.res.Reads[f.path] = append(q.res.Reads[f.path], string(f.read))
	}
}

func (q *simProc) open(c *call) (int64, syscall.Errno, []byte) {
	fs := q.w.fs
	f, e := fs.walk(c.path, c.flags&syscall.O_NOFOLLOW == 0 && c.flags&(syscall.O_CREAT|syscall.O_EXCL) != syscall.O_CREAT|syscall.O_EXCL)
	if e != 0 {
		return 0, e, nil
	}
	acc := c.flags & syscall.O_ACCMODE
	if f.n == nil {
		if c.flags&syscall.O_CREAT == 0 {
			return 0, syscall.ENOENT, nil
		}
		if strings.HasSuffix(c.path, "/") {
			return 0, syscall.EISDIR, nil
		}
		f.n = fs.node(kFile, c.mode&0o777)
		f.dir.kids[f.name] = f.n
		q.changed("create", f.real)
	} else {
		if c.flags&syscall.O_CREAT != 0 && c.flags&syscall.O_EXCL != 0 {
			return 0, syscall.EEXIST, nil
		}
		if f.n.kind == kLink {
			return 0, syscall.ELOOP, nil
		}
		if f.n.kind == kDir && (acc != syscall.O_RDONLY || c.flags&syscall.O_CREAT != 0) {
			return 0, syscall.EISDIR, nil
		}
		if c.flags&syscall.O_DIRECTORY != 0 && f.n.kind != kDir {
			return 0, syscall.ENOTDIR, nil
		}
		if c.flags&syscall.O_TRUNC != 0 && f.n.kind == kFile {
			resize(f.n, 0)
			q.changed("truncate", f.real)
		}
	}
	q.next++
	q.fds[q.next] = &ofile{n: f.n, path: f.real, flags: c.flags}
	return int64(q.next), 0, nil
}
