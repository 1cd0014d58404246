// Package simkernel is a simulated kernel: an in-memory file system behind the
// system calls of package syscall, with the faults real kernels deliver. It is
// only used by one goroutine at a time.
package simkernel

import (
	"encoding/binary"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"verif.local/sim/core"
)

// Fault is something that goes wrong with a path. Op is open, create, read,
// write, close, stat, fstat, list, sync, rename, unlink, truncate, mkdir.
type Fault struct {
	Path  string `json:"path"`
	Op    string `json:"op"`
	Err   string `json:"err"`
	Skip  int    `json:"skip,omitempty"`  // calls that go well before; read, write: bytes
	Times int    `json:"times,omitempty"` // 0: for ever
}

// Delivery is how the kernel does what it does right.
type Delivery struct {
	Seed      uint64 `json:"seed,omitempty"`
	Max       int    `json:"max,omitempty"`        // longest read
	WMax      int    `json:"wmax,omitempty"`       // longest write
	EINTR     int    `json:"eintr,omitempty"`      // one call in so many is interrupted
	DTUnknown bool   `json:"dt_unknown,omitempty"` // directory entries without type
	Shuffle   bool   `json:"shuffle,omitempty"`
	OneEntry  bool   `json:"one_entry,omitempty"` // one directory entry per call
	Size      int    `json:"size,omitempty"`      // reported file sizes are off by this much
	Lat       int64  `json:"lat,omitempty"`       // longest duration of a call, ns
	Meta      uint64 `json:"meta,omitempty"`      // times, owners and permissions of files; 0: none
	Links     int    `json:"links,omitempty"`     // one file in so many is behind a symbolic link
	DirLinks  bool   `json:"dir_links,omitempty"` // and one directory
}

func GenDelivery(r *core.Rand) (d Delivery) {
	d.Seed = r.U64() >> 1
	switch r.N(4) {
	case 0:
	case 1:
		d.Max = r.Range(1, 16)
	default:
		d.Max = r.Range(16, 700)
	}
	switch r.N(4) {
	case 0, 1:
	case 2:
		d.WMax = r.Range(1, 32)
	default:
		d.WMax = r.Range(32, 900)
	}
	if r.P(1, 2) {
		d.EINTR = r.Range(2, 12)
	}
	d.DTUnknown = r.P(1, 3)
	d.Shuffle = r.P(2, 3)
	d.OneEntry = r.P(1, 3)
	if r.P(1, 4) {
		d.Size = r.Range(-600, 600)
	}
	if r.P(1, 3) {
		d.Lat = int64(r.N(1e9))
	}
	if r.P(1, 2) {
		d.Meta = r.U64() >> 1
	}
	if r.P(1, 3) {
		d.Links = r.Range(1, 4)
	}
	return
}

type Inode struct {
	Dir     bool
	Data    []byte
	names   []string
	kids    []*Inode
	old     bool // there from the start
	ino     uint64
	durable []byte // as of the last sync
	synced  bool
}

func (n *Inode) kid(name string) *Inode {
	for i, k := range n.names {
		if k == name {
			return n.kids[i]
		}
	}
	return nil
}

func (n *Inode) unlink(name string) {
	for i, k := range n.names {
		if k == name {
			n.names = append(append([]string(nil), n.names[:i]...), n.names[i+1:]...)
			n.kids = append(append([]*Inode(nil), n.kids[:i]...), n.kids[i+1:]...)
			return
		}
	}
}

type file struct {
	n      *Inode
	path   string
	pos    int
	flags  int
	reads  int // bytes read from and written through this path so far
	list   []int
	next   int
	std    bool
	append bool
}

// Descriptors are never used twice in a process: a file that is leaked and
// closed by its finalizer later does not hit another one.
const firstFD = 1 << 20

var nextFD = firstFD

type Kernel struct {
	Root    *Inode
	Cwd     string // simulated working directory
	Rel     bool   // relative paths are simulated
	Prefix  string // absolute paths below are simulated
	D       Delivery
	Faults  []Fault
	Free    int64 // bytes left on the disk; negative: no limit
	Fired   map[string]int64
	Calls   int
	KillAt  int    // the call at which the process is killed; 0: never
	OnKill  func() // does not return
	Trace   bool
	Log     []string
	Advance func(ns int64)
	Hook    func(op, path string)
	Std     [3]*Inode // what is written to the standard streams
	OnStdW  func(fd int, p []byte)

	base    int
	fds     []*file // fd - base
	ino     uint64
	rng     uint64
	eintr   int
	count   []int
	Opened  int
	Writes  int            // bytes written to files
	Hits    []int          // how often each fault struck
	ReadTo  map[string]int // how far each file was read
	Mutated []string
}

func New() *Kernel {
	k := &Kernel{base: nextFD, Root: &Inode{Dir: true, ino: 1}, ino: 1, Prefix: "/vsim", Cwd: "/vsim/work", Rel: true, Free: -1, Fired: map[string]int64{}}
	return k
}

// Start makes the kernel the one in force.
func (k *Kernel) Start() {
	k.rng = core.Mix(k.D.Seed, 99)
	k.count = make([]int, len(k.Faults))
	k.Hits = make([]int, len(k.Faults))
	k.ReadTo = map[string]int{}
	k.Calls = 0
	syscall.Verif = k
}

func (k *Kernel) Stop() { syscall.Verif = nil }

func (k *Kernel) abs(p string) (string, bool) {
	if p == "" {
		return "", false
	}
	if p[0] != '/' {
		if !k.Rel {
			return "", false
		}
		p = path.Join(k.Cwd, p)
	}
	c := path.Clean(p)
	if c != k.Prefix && !strings.HasPrefix(c, k.Prefix+"/") {
		return "", false
	}
	c, _ = k.real(c)
	return c, true
}

func (k *Kernel) target(p string) bool {
	_, t := k.real(path.Clean(p))
	return t
}

func (k *Kernel) node() *Inode {
	k.ino++
	return &Inode{ino: k.ino}
}

// link says whether the name of n is a symbolic link to it. What the link
// points at is linkDir + the inode number.
func (k *Kernel) link(n *Inode) bool {
	return k.D.Links > 0 && n.old && n.ino > 3 && (!n.Dir || k.D.DirLinks) && core.Mix(k.D.Seed, n.ino, 5)%uint64(k.D.Links) == 0
}

const linkDir = "/vsim/.links/"

// Lookup finds a path, following everything.
func (k *Kernel) Lookup(p string) (*Inode, syscall.Errno) {
	n := k.Root
	if p == linkDir[:len(linkDir)-1] {
		return &Inode{Dir: true, ino: 3}, 0
	}
	for _, c := range strings.Split(strings.Trim(p, "/"), "/") {
		if c == "" {
			continue
		}
		if !n.Dir {
			return nil, syscall.ENOTDIR
		}
		if n = n.kid(c); n == nil {
			return nil, syscall.ENOENT
		}
	}
	return n, 0
}

// find is the path of an inode.
func find(n *Inode, at string, ino uint64) string {
	if n.ino == ino {
		return at
	}
	for i, c := range n.kids {
		if x := find(c, at+"/"+n.names[i], ino); x != "" {
			return x
		}
	}
	return ""
}

// real is the path behind a link, and whether the path names just that.
func (k *Kernel) real(p string) (string, bool) {
	l, ok := strings.CutPrefix(p, linkDir)
	if !ok {
		return p, false
	}
	l, rest, sub := strings.Cut(l, "/")
	ino, _ := strconv.ParseUint(l, 10, 64)
	x := find(k.Root, "", ino)
	if x == "" {
		return p, false
	}
	if sub {
		x += "/" + rest
	}
	return x, !sub
}

// Put makes a file or (data nil) directory with its parents.
func (k *Kernel) Put(p string, data []byte) *Inode {
	n := k.Root
	l := strings.Split(strings.Trim(p, "/"), "/")
	for i, c := range l {
		if c == "" {
			continue
		}
		x := n.kid(c)
		if x == nil {
			x = k.node()
			x.old = true
			x.Dir = i < len(l)-1 || data == nil
			n.names = append(n.names, c)
			n.kids = append(n.kids, x)
		}
		n = x
	}
	if data != nil {
		n.Data = append([]byte{}, data...)
		n.durable = n.Data
		n.synced = true
	}
	return n
}

// Content is the content of a file and whether it exists.
func (k *Kernel) Content(p string) ([]byte, bool) {
	n, e := k.Lookup(p)
	if e != 0 || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// Files lists every file with its content.
func (k *Kernel) Files() map[string]string {
	m := map[string]string{}
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		if !n.Dir {
			m[p] = string(n.Data)
			return
		}
		for i, c := range n.names {
			rec(p+"/"+c, n.kids[i])
		}
	}
	rec("", k.Root)
	return m
}

// OpenFDs is the number of files still open.
func (k *Kernel) OpenFDs() (l []string) {
	for _, f := range k.fds {
		if f != nil {
			l = append(l, f.path)
		}
	}
	return
}

// Crash loses what was not synced: of every file some, all or none of what
// was written since the last sync survives, possibly as zeros.
func (k *Kernel) Crash(seed uint64) {
	r := core.NewRand(seed)
	var rec func(n *Inode)
	rec = func(n *Inode) {
		for _, c := range n.kids {
			rec(c)
		}
		if n.Dir || n.synced && len(n.Data) == len(n.durable) && string(n.Data) == string(n.durable) {
			return
		}
		k.Fired["unsynced data lost"]++
		switch r.N(4) {
		case 0:
			n.Data = append([]byte{}, n.durable...)
		case 1: // a leading part
			n.Data = append([]byte{}, n.Data[:r.N(len(n.Data)+1)]...)
		case 2: // a leading part, the rest zeros
			c := r.N(len(n.Data) + 1)
			d := append([]byte{}, n.Data...)
			for i := c; i < len(d); i++ {
				d[i] = 0
			}
			n.Data = d
		case 3:
		}
		n.durable = n.Data
		n.synced = true
	}
	rec(k.Root)
	k.fds = nil
	k.base = nextFD
}

func (k *Kernel) rand() uint64 {
	k.rng = core.Mix(k.rng)
	return k.rng
}

var errnos = map[string]syscall.Errno{
	"eio": syscall.EIO, "eacces": syscall.EACCES, "enoent": syscall.ENOENT, "emfile": syscall.EMFILE, "enfile": syscall.ENFILE,
	"enomem": syscall.ENOMEM, "estale": syscall.ESTALE, "eloop": syscall.ELOOP, "enospc": syscall.ENOSPC, "edquot": syscall.EDQUOT,
	"erofs": syscall.EROFS, "eisdir": syscall.EISDIR, "enotdir": syscall.ENOTDIR, "epipe": syscall.EPIPE, "eperm": syscall.EPERM,
	"enxio": syscall.ENXIO, "efbig": syscall.EFBIG, "etxtbsy": syscall.ETXTBSY,
}

// enter counts a call and decides whether it is interrupted or fails.
// amount is the position in bytes for read and write.
func (k *Kernel) enter(op, p string, interruptible bool, pos int) syscall.Errno {
	k.Calls++
	if k.Hook != nil {
		k.Hook(op, p)
	}
	if k.KillAt > 0 && k.Calls >= k.KillAt && k.OnKill != nil {
		k.log("killed before %s %s", op, p)
		k.Fired["killed"]++
		f := k.OnKill
		k.OnKill = nil
		f()
	}
	if k.D.Lat > 0 && k.Advance != nil {
		k.Advance(int64(k.rand() % uint64(k.D.Lat)))
	}
	if interruptible && k.D.EINTR > 0 && k.eintr < 3 && k.rand()%uint64(k.D.EINTR) == 0 {
		k.eintr++
		k.Fired["interrupted "+op]++
		return syscall.EINTR
	}
	k.eintr = 0
	for i := range k.Faults {
		f := &k.Faults[i]
		if f.Op != op || f.Path != p {
			continue
		}
		if op == "read" || op == "write" {
			if pos < f.Skip {
				continue
			}
		} else if k.count[i] < f.Skip {
			k.count[i]++
			continue
		}
		if f.Times > 0 && k.count[i] >= f.Times+f.skipCalls() {
			continue
		}
		k.count[i]++
		k.Hits[i]++
		k.Fired[op+" error"]++
		e := errnos[f.Err]
		if e == 0 {
			e = syscall.EIO
		}
		k.log("%s %s: %v", op, p, e)
		return e
	}
	return 0
}

func (f *Fault) skipCalls() int {
	if f.Op == "read" || f.Op == "write" {
		return 0
	}
	return f.Skip
}

// room is how many bytes may still go before the fault of the path strikes.
func (k *Kernel) room(op, p string, pos, n int) int {
	for i := range k.Faults {
		f := &k.Faults[i]
		if f.Op == op && f.Path == p && pos < f.Skip && pos+n > f.Skip {
			n = f.Skip - pos
		}
	}
	return n
}

func (k *Kernel) log(f string, a ...any) {
	if k.Trace {
		k.Log = append(k.Log, fmt.Sprintf(f, a...))
	}
}

func (k *Kernel) fd(fd int) (*file, bool) {
	if fd < firstFD {
		return nil, false
	}
	if fd < k.base || fd-k.base >= len(k.fds) {
		return nil, true
	}
	return k.fds[fd-k.base], true
}

func (k *Kernel) Open(p string, flags int, mode uint32) (int, syscall.Errno, bool) {
	a, ok := k.abs(p)
	if !ok {
		return 0, 0, false
	}
	op := "open"
	if flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0 {
		op = "create"
	}
	if e := k.enter(op, a, true, 0); e != 0 {
		return -1, e, true
	}
	n, e := k.Lookup(a)
	if e == syscall.ENOENT && flags&syscall.O_CREAT != 0 {
		dir, base := path.Split(a)
		d, e := k.Lookup(dir)
		if e != 0 {
			return -1, e, true
		}
		if !d.Dir {
			return -1, syscall.ENOTDIR, true
		}
		n = k.node()
		d.names = append(d.names, base)
		d.kids = append(d.kids, n)
		k.Mutated = append(k.Mutated, a)
	} else if e != 0 {
		return -1, e, true
	} else if flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
		return -1, syscall.EEXIST, true
	}
	if strings.HasSuffix(p, "/") && !n.Dir {
		return -1, syscall.ENOTDIR, true
	}
	if flags&syscall.O_NOFOLLOW != 0 && k.link(n) && !k.target(p) {
		return -1, syscall.ELOOP, true
	}
	if n.Dir && flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		return -1, syscall.EISDIR, true
	}
	if flags&syscall.O_TRUNC != 0 && !n.Dir {
		n.Data = nil
		n.synced = false
		k.Mutated = append(k.Mutated, a)
	}
	k.Opened++
	k.fds = append(k.fds, &file{n: n, path: a, flags: flags, append: flags&syscall.O_APPEND != 0})
	k.log("%s %s: fd %d", op, a, len(k.fds)-1)
	nextFD = k.base + len(k.fds)
	return nextFD - 1, 0, true
}

func (k *Kernel) At(fd int, p string) (string, bool) {
	f, ok := k.fd(fd)
	if !ok || strings.HasPrefix(p, "/") {
		return "", false
	}
	if f == nil {
		return "/vsim/\x00closed", true
	}
	return f.path + "/" + p, true
}

func (k *Kernel) Close(fd int) (syscall.Errno, bool) {
	f, ok := k.fd(fd)
	if !ok {
		return 0, false
	}
	if f == nil {
		return syscall.EBADF, true
	}
	e := k.enter("close", f.path, false, 0)
	k.fds[fd-k.base] = nil // closed either way
	k.log("close fd %d", fd-k.base)
	return e, true
}

func (k *Kernel) readAt(f *file, p []byte, pos int) (int, syscall.Errno) {
	if e := k.enter("read", f.path, true, pos); e != 0 {
		return -1, e
	}
	if f.n.Dir {
		return -1, syscall.EISDIR
	}
	if f.flags&3 == syscall.O_WRONLY {
		return -1, syscall.EBADF
	}
	if pos >= len(f.n.Data) {
		return 0, 0
	}
	max := len(f.n.Data) - pos
	if len(p) < max {
		max = len(p)
	}
	if k.D.Max > 0 && max > 1 {
		if m := 1 + int(k.rand()%uint64(k.D.Max)); m < max {
			max = m
			k.Fired["short read"]++
		}
	}
	max = k.room("read", f.path, pos, max)
	if pos+max > k.ReadTo[f.path] {
		k.ReadTo[f.path] = pos + max
	}
	return copy(p, f.n.Data[pos:pos+max]), 0
}

func (k *Kernel) Read(fd int, p []byte) (int, syscall.Errno, bool) {
	f, ok := k.fd(fd)
	if !ok {
		return 0, 0, false
	}
	if f == nil {
		return -1, syscall.EBADF, true
	}
	n, e := k.readAt(f, p, f.pos)
	if n > 0 {
		f.pos += n
	}
	return n, e, true
}

func (k *Kernel) Pread(fd int, p []byte, off int64) (int, syscall.Errno, bool) {
	f, ok := k.fd(fd)
	if !ok {
		return 0, 0, false
	}
	if f == nil {
		return -1, syscall.EBADF, true
	}
	n, e := k.readAt(f, p, int(off))
	return n, e, true
}

func (k *Kernel) writeAt(f *file, p []byte, pos int) (int, syscall.Errno) {
	if e := k.enter("write", f.path, true, pos); e != 0 {
		return -1, e
	}
	if f.n.Dir || f.flags&3 == syscall.O_RDONLY {
		return -1, syscall.EBADF
	}
	n := len(p)
	if k.D.WMax > 0 && n > 1 {
		if m := 1 + int(k.rand()%uint64(k.D.WMax)); m < n {
			n = m
			k.Fired["short write"]++
		}
	}
	n = k.room("write", f.path, pos, n)
	if k.Free >= 0 {
		if int64(n) > k.Free {
			n = int(k.Free)
		}
		if n == 0 && len(p) > 0 {
			k.Fired["disk full"]++
			k.log("write %s: disk full", f.path)
			return -1, syscall.ENOSPC
		}
		k.Free -= int64(n)
	}
	if end := pos + n; pos == len(f.n.Data) {
		f.n.Data = append(f.n.Data, p[:n]...) // nobody sees what is behind the end of an earlier version
	} else if end > len(f.n.Data) {
		d := make([]byte, end)
		copy(d, f.n.Data)
		f.n.Data = d
	} else {
		f.n.Data = append([]byte{}, f.n.Data...)
	}
	copy(f.n.Data[pos:], p[:n])
	f.n.synced = false
	k.Writes += n
	k.Mutated = append(k.Mutated, f.path)
	k.log("write %s: %d of %d bytes at %d", f.path, n, len(p), pos)
	return n, 0
}

func (k *Kernel) Write(fd int, p []byte) (int, syscall.Errno, bool) {
	if (fd == 1 || fd == 2) && k.Std[fd] != nil {
		name := [3]string{"", "stdout", "stderr"}[fd]
		f := &file{n: k.Std[fd], path: name, flags: syscall.O_WRONLY}
		free := k.Free
		k.Free = -1
		n, e := k.writeAt(f, p, len(k.Std[fd].Data))
		k.Free = free
		return n, e, true
	}
	f, ok := k.fd(fd)
	if !ok {
		return 0, 0, false
	}
	if f == nil {
		return -1, syscall.EBADF, true
	}
	if f.append {
		f.pos = len(f.n.Data)
	}
	n, e := k.writeAt(f, p, f.pos)
	if n > 0 {
		f.pos += n
	}
	return n, e, true
}

func (k *Kernel) Pwrite(fd int, p []byte, off int64) (int, syscall.Errno, bool) {
	f, ok := k.fd(fd)
	if !ok {
		return 0, 0, false
	}
	if f == nil {
		return -1, syscall.EBADF, true
	}
	n, e := k.writeAt(f, p, int(off))
	return n, e, true
}

func (k *Kernel) Seek(fd int, off int64, whence int) (int64, syscall.Errno, bool) {
	f, ok := k.fd(fd)
	if !ok {
		return 0, 0, false
	}
	if f == nil {
		return -1, syscall.EBADF, true
	}
	k.enter("seek", f.path, false, 0)
	switch whence {
	case 1:
		off += int64(f.pos)
	case 2:
		off += int64(len(f.n.Data))
	}
	if off < 0 {
		return -1, syscall.EINVAL, true
	}
	f.pos = int(off)
	f.list, f.next = nil, 0
	return off, 0, true
}

func (k *Kernel) Getdents(fd int, p []byte) (int, syscall.Errno, bool) {
	f, ok := k.fd(fd)
	if !ok {
		return 0, 0, false
	}
	if f == nil {
		return -1, syscall.EBADF, true
	}
	if !f.n.Dir {
		return -1, syscall.ENOTDIR, true
	}
	if e := k.enter("list", f.path, true, 0); e != 0 {
		return -1, e, true
	}
	if f.list == nil {
		f.list = make([]int, len(f.n.names)+2)
		for i := range f.list {
			f.list[i] = i - 2
		}
		if k.D.Shuffle {
			for i := range f.list {
				j := int(k.rand() % uint64(i+1))
				f.list[i], f.list[j] = f.list[j], f.list[i]
			}
			k.Fired["directory order"]++
		}
	}
	n := 0
	for f.next < len(f.list) {
		i := f.list[f.next]
		name, ino, typ := ".", f.n.ino, byte(syscall.DT_DIR)
		switch {
		case i == -1:
			name = ".."
		case i >= 0 && i < len(f.n.names):
			name, ino = f.n.names[i], f.n.kids[i].ino
			if !f.n.kids[i].Dir {
				typ = syscall.DT_REG
			}
			if k.link(f.n.kids[i]) {
				typ = syscall.DT_LNK
				k.Fired["symbolic link"]++
			}
		case i >= 0:
			f.next++
			continue
		}
		if k.D.DTUnknown {
			typ = syscall.DT_UNKNOWN
			k.Fired["entry without type"]++
		}
		l := (19 + len(name) + 1 + 7) &^ 7
		if n+l > len(p) {
			if n == 0 {
				return -1, syscall.EINVAL, true
			}
			break
		}
		b := p[n : n+l]
		clear(b)
		binary.LittleEndian.PutUint64(b, ino)
		binary.LittleEndian.PutUint64(b[8:], uint64(f.next+1))
		binary.LittleEndian.PutUint16(b[16:], uint16(l))
		b[18] = typ
		copy(b[19:], name)
		n += l
		f.next++
		if k.D.OneEntry {
			break
		}
	}
	return n, 0, true
}

func (k *Kernel) fill(n *Inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Ino, st.Nlink, st.Dev, st.Blksize = n.ino, 1, 77, 4096
	perm := uint32(0o644)
	if k.D.Meta != 0 {
		x := core.Mix(k.D.Meta, n.ino)
		st.Ino = x >> 24
		st.Mtim.Sec, st.Mtim.Nsec = int64(x>>32), int64(x%1e9)
		st.Ctim, st.Atim = st.Mtim, st.Mtim
		perm = 0o400 | uint32(x>>8)&0o377
		st.Uid, st.Gid = uint32(x>>20)&0xfff, uint32(x>>12)&0xfff
		st.Blksize = 512 << (x % 8)
	}
	if n.Dir {
		st.Mode = syscall.S_IFDIR | 0o111 | perm
		st.Nlink = 2
		return
	}
	st.Mode = syscall.S_IFREG | perm
	st.Size = int64(len(n.Data))
	if k.D.Size != 0 {
		k.Fired["wrong size"]++
		if st.Size += int64(k.D.Size); st.Size < 0 {
			st.Size = 0
		}
	}
	st.Blocks = (st.Size + 511) / 512
}

func (k *Kernel) Fstat(fd int, st *syscall.Stat_t) (syscall.Errno, bool) {
	if (fd == 1 || fd == 2) && k.Std[fd] != nil {
		k.fill(k.Std[fd], st)
		return 0, true
	}
	f, ok := k.fd(fd)
	if !ok {
		return 0, false
	}
	if f == nil {
		return syscall.EBADF, true
	}
	if e := k.enter("fstat", f.path, true, 0); e != 0 {
		return e, true
	}
	k.fill(f.n, st)
	return 0, true
}

func (k *Kernel) Stat(p string, st *syscall.Stat_t, flags int) (syscall.Errno, bool) {
	a, ok := k.abs(p)
	if !ok {
		return 0, false
	}
	if e := k.enter("stat", a, true, 0); e != 0 {
		return e, true
	}
	n, e := k.Lookup(a)
	if e != 0 {
		return e, true
	}
	if strings.HasSuffix(p, "/") && !n.Dir {
		return syscall.ENOTDIR, true
	}
	k.fill(n, st)
	const noFollow = 0x100
	if flags&noFollow != 0 && !strings.HasSuffix(p, "/") && k.link(n) && !k.target(p) {
		st.Mode = syscall.S_IFLNK | 0o777
		st.Nlink = 1
		st.Ino ^= 1 << 40
		st.Size = int64(len(linkDir) + len(strconv.FormatUint(n.ino, 10)))
		k.Fired["symbolic link"]++
	}
	return 0, true
}

func (k *Kernel) truncate(n *Inode, p string, size int64) syscall.Errno {
	if n.Dir {
		return syscall.EISDIR
	}
	if size < 0 {
		return syscall.EINVAL
	}
	d := make([]byte, size)
	copy(d, n.Data)
	n.Data = d
	n.synced = false
	k.Mutated = append(k.Mutated, p)
	return 0
}

func (k *Kernel) Ftruncate(fd int, size int64) (syscall.Errno, bool) {
	f, ok := k.fd(fd)
	if !ok {
		return 0, false
	}
	if f == nil {
		return syscall.EBADF, true
	}
	if e := k.enter("truncate", f.path, true, 0); e != 0 {
		return e, true
	}
	return k.truncate(f.n, f.path, size), true
}

func (k *Kernel) Truncate(p string, size int64) (syscall.Errno, bool) {
	a, ok := k.abs(p)
	if !ok {
		return 0, false
	}
	if e := k.enter("truncate", a, true, 0); e != 0 {
		return e, true
	}
	n, e := k.Lookup(a)
	if e != 0 {
		return e, true
	}
	return k.truncate(n, a, size), true
}

func (k *Kernel) Fsync(fd int) (syscall.Errno, bool) {
	f, ok := k.fd(fd)
	if !ok {
		return 0, false
	}
	if f == nil {
		return syscall.EBADF, true
	}
	if e := k.enter("sync", f.path, true, 0); e != 0 {
		return e, true
	}
	f.n.durable = append([]byte{}, f.n.Data...)
	f.n.synced = true
	return 0, true
}

func (k *Kernel) Rename(from, to string) (syscall.Errno, bool) {
	a, ok1 := k.abs(from)
	b, ok2 := k.abs(to)
	if !ok1 && !ok2 {
		return 0, false
	}
	if !ok1 || !ok2 {
		return syscall.EXDEV, true
	}
	if e := k.enter("rename", b, true, 0); e != 0 {
		return e, true
	}
	n, e := k.Lookup(a)
	if e != 0 {
		return e, true
	}
	dir, base := path.Split(b)
	d, e := k.Lookup(dir)
	if e != 0 {
		return e, true
	}
	if x := d.kid(base); x != nil && x.Dir != n.Dir {
		if x.Dir {
			return syscall.EISDIR, true
		}
		return syscall.ENOTDIR, true
	}
	sdir, sbase := path.Split(a)
	s, _ := k.Lookup(sdir)
	s.unlink(sbase)
	d.unlink(base)
	d.names = append(d.names, base)
	d.kids = append(d.kids, n)
	k.Mutated = append(k.Mutated, a, b)
	k.log("rename %s %s", a, b)
	return 0, true
}

func (k *Kernel) Unlink(p string, flags int) (syscall.Errno, bool) {
	a, ok := k.abs(p)
	if !ok {
		return 0, false
	}
	if e := k.enter("unlink", a, true, 0); e != 0 {
		return e, true
	}
	n, e := k.Lookup(a)
	if e != 0 {
		return e, true
	}
	const removeDir = 0x200
	if flags&removeDir != 0 && !n.Dir {
		return syscall.ENOTDIR, true
	}
	if flags&removeDir == 0 && n.Dir {
		return syscall.EISDIR, true
	}
	if len(n.names) > 0 {
		return syscall.ENOTEMPTY, true
	}
	dir, base := path.Split(a)
	d, _ := k.Lookup(dir)
	d.unlink(base)
	k.Mutated = append(k.Mutated, a)
	k.log("unlink %s", a)
	return 0, true
}

func (k *Kernel) Mkdir(p string, mode uint32) (syscall.Errno, bool) {
	a, ok := k.abs(p)
	if !ok {
		return 0, false
	}
	if e := k.enter("mkdir", a, true, 0); e != 0 {
		return e, true
	}
	if _, e := k.Lookup(a); e == 0 {
		return syscall.EEXIST, true
	}
	dir, base := path.Split(a)
	d, e := k.Lookup(dir)
	if e != 0 {
		return e, true
	}
	n := k.node()
	n.Dir = true
	d.names = append(d.names, base)
	d.kids = append(d.kids, n)
	return 0, true
}

func (k *Kernel) Fchmod(fd int, mode uint32) (syscall.Errno, bool) {
	f, ok := k.fd(fd)
	if !ok {
		return 0, false
	}
	if f == nil {
		return syscall.EBADF, true
	}
	return 0, true
}

func (k *Kernel) Chmod(p string, mode uint32) (syscall.Errno, bool) {
	a, ok := k.abs(p)
	if !ok {
		return 0, false
	}
	_, e := k.Lookup(a)
	return e, true
}

func (k *Kernel) Getcwd(buf []byte) (int, syscall.Errno, bool) {
	if !k.Rel {
		return 0, 0, false
	}
	if len(buf) < len(k.Cwd)+1 {
		return 0, syscall.ERANGE, true
	}
	n := copy(buf, k.Cwd)
	buf[n] = 0
	return n + 1, 0, true
}

func (k *Kernel) Readlink(p string, buf []byte) (int, syscall.Errno, bool) {
	a, ok := k.abs(p)
	if !ok {
		return 0, 0, false
	}
	n, e := k.Lookup(a)
	if e != 0 {
		return -1, e, true
	}
	if k.link(n) && !k.target(p) {
		return copy(buf, linkDir+strconv.FormatUint(n.ino, 10)), 0, true
	}
	return -1, syscall.EINVAL, true
}

// FiredNames lists what fired, sorted.
func (k *Kernel) FiredNames() (l []string) {
	for f := range k.Fired {
		l = append(l, f)
	}
	sort.Strings(l)
	return
}
