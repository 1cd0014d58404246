package main

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/core"
)

// faults says what goes wrong with one file or directory.
type faults struct {
	Open  string `json:"open,omitempty"`
	Stat  string `json:"stat,omitempty"`
	List  string `json:"list,omitempty"`
	Read  string `json:"read,omitempty"`
	At    int    `json:"at,omitempty"` // Read: after that many bytes
	Close string `json:"close,omitempty"`
	Times int    `json:"times,omitempty"` // open, list: only the first so many times; 0 always
}

func (f faults) any() bool {
	return f.Open != "" || f.Stat != "" || f.List != "" || f.Read != "" || f.Close != ""
}

var errKinds = []string{"eio", "perm", "noent", "emfile", "custom", "unexpected", "estale", "closed"}

type customErr struct{}

func (customErr) Error() string { return "simulated failure" }

func errOf(kind, op, name string) error {
	var err error
	switch kind {
	case "eio":
		err = syscall.EIO
	case "perm":
		err = fs.ErrPermission
	case "noent":
		err = fs.ErrNotExist
	case "emfile":
		err = syscall.EMFILE
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "estale":
		err = syscall.ESTALE
	case "closed":
		err = fs.ErrClosed
	default:
		return customErr{}
	}
	return &fs.PathError{Op: op, Path: name, Err: err}
}

// delivery says how the file system hands out data.
type delivery struct {
	Seed    uint64 `json:"seed,omitempty"`
	Max     int    `json:"max,omitempty"`      // longest read; 0: whatever is asked for
	Zero    bool   `json:"zero,omitempty"`     // some reads deliver nothing
	EOFData bool   `json:"eof_data,omitempty"` // end of file comes with the last data
	Size    int    `json:"size,omitempty"`     // reported size off by this much
	Rich    int    `json:"rich,omitempty"`     // optional interfaces: 1 ReadDirFS, 2 ReadFileFS, 4 StatFS, 8 seekable files
	Lat     int64  `json:"lat,omitempty"`      // longest delay of an operation, ns
}

func genDelivery(r *core.Rand) delivery {
	d := delivery{Seed: r.U64() >> 1}
	switch r.N(5) {
	case 0:
	case 1:
		d.Max = 1
	case 2:
		d.Max = r.Range(2, 16)
	default:
		d.Max = r.Range(2, 700)
	}
	d.Zero = r.P(1, 3)
	d.EOFData = r.P(1, 3)
	if r.P(1, 3) {
		d.Size = r.Range(-600, 600)
	}
	if r.P(1, 2) {
		d.Rich = r.N(16)
	}
	if r.P(1, 3) {
		d.Lat = int64(r.N(1e9))
	}
	return d
}

type simNode struct {
	name string
	dir  bool
	data []byte
	kids []*simNode
	f    faults
	// counters; read only after a run
	opens, lists int
	fired        [nFault]int
}

const (
	fOpen = iota
	fStat
	fList
	fRead
	fClose
	fShort
	fZero
	fEOFData
	fSize
	fDelay
	nFault
)

var faultName = [nFault]string{"open error", "stat error", "list error", "read error", "close error", "short read", "empty read",
	"data with end of file", "wrong size", "delay"}

//go:norace
func (n *simNode) fire(k int) { n.fired[k]++ }

//go:norace
func (n *simNode) nth(list bool) int {
	if list {
		n.lists++
		return n.lists
	}
	n.opens++
	return n.opens
}

type simFS struct {
	root    *simNode
	d       delivery
	open    int
	opened  int
	ops     int
	hook    func(op, name string) // called first by every operation
	yieldID uint32
}

//go:norace
func (f *simFS) count(n int) {
	f.open += n
	if n > 0 {
		f.opened++
	}
	f.ops++
}

func newFS(root *simNode, d delivery) *simFS { return &simFS{root: root, d: d} }

// fold adds what fired to the measures of the run.
func (f *simFS) fold(e *Env) {
	var sum [nFault]int
	var rec func(n *simNode)
	rec = func(n *simNode) {
		for i, c := range n.fired {
			sum[i] += c
		}
		for _, k := range n.kids {
			rec(k)
		}
	}
	rec(f.root)
	for i, c := range sum {
		e.FaultN(faultName[i], c)
	}
}

func (f *simFS) find(name string) *simNode {
	if name == "." {
		return f.root
	}
	n := f.root
	for _, p := range strings.Split(name, "/") {
		var next *simNode
		for _, k := range n.kids {
			if k.name == p {
				next = k
				break
			}
		}
		if next == nil {
			return nil
		}
		n = next
	}
	return n
}

func (f *simFS) pause(n *simNode, salt uint64) {
	if f.d.Lat > 0 {
		time.Sleep(time.Duration(core.Mix(f.d.Seed, core.MixStr(salt, n.name)) % uint64(f.d.Lat)))
		n.fire(fDelay)
	}
}

// fsys is the file system with the optional interfaces the scenario wants.
func (f *simFS) fsys() fs.FS {
	switch f.d.Rich & 7 {
	case 1:
		return readDirFS{f}
	case 2:
		return readFileFS{f}
	case 3:
		return struct {
			readDirFS
			r
		}{readDirFS{f}, r{f}}
	case 4:
		return statFS{f}
	case 5:
		return struct {
			readDirFS
			s
		}{readDirFS{f}, s{f}}
	case 6:
		return struct {
			readFileFS
			s
		}{readFileFS{f}, s{f}}
	case 7:
		return struct {
			readDirFS
			r
			s
		}{readDirFS{f}, r{f}, s{f}}
	}
	return f
}

type readDirFS struct{ f *simFS }

func (x readDirFS) Open(name string) (fs.File, error)          { return x.f.Open(name) }
func (x readDirFS) ReadDir(name string) ([]fs.DirEntry, error) { return x.f.readDir(name) }

type readFileFS struct{ f *simFS }

func (x readFileFS) Open(name string) (fs.File, error)    { return x.f.Open(name) }
func (x readFileFS) ReadFile(name string) ([]byte, error) { return x.f.readFile(name) }

type statFS struct{ f *simFS }

func (x statFS) Open(name string) (fs.File, error)     { return x.f.Open(name) }
func (x statFS) Stat(name string) (fs.FileInfo, error) { return x.f.stat(name) }

type r struct{ f *simFS }

func (x r) ReadFile(name string) ([]byte, error) { return x.f.readFile(name) }

type s struct{ f *simFS }

func (x s) Stat(name string) (fs.FileInfo, error) { return x.f.stat(name) }

func (f *simFS) Open(name string) (fs.File, error) {
	if f.hook != nil {
		f.hook("open", name)
	}
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	n := f.find(name)
	if n == nil {
		f.count(0)
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	f.pause(n, 1)
	k := n.nth(false)
	if n.f.Open != "" && (n.f.Times == 0 || k <= n.f.Times) {
		n.fire(fOpen)
		f.count(0)
		return nil, errOf(n.f.Open, "open", name)
	}
	f.count(1)
	h := &simHandle{f: f, n: n, name: name, rng: core.Mix(f.d.Seed, core.MixStr(7, name))}
	if n.dir {
		return &simDir{h, 0}, nil
	}
	if f.d.Rich&8 != 0 {
		return &richHandle{h}, nil
	}
	return h, nil
}

// richHandle has the optional methods of an open file.
type richHandle struct{ *simHandle }

func (h *richHandle) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(h.pos)
	case io.SeekEnd:
		off += int64(len(h.n.data))
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "seek", Path: h.name, Err: fs.ErrInvalid}
	}
	h.pos = int(off)
	return off, nil
}

func (h *richHandle) ReadAt(p []byte, off int64) (n int, err error) {
	x := *h.simHandle
	x.pos = int(off)
	for n < len(p) && err == nil {
		var k int
		k, err = x.Read(p[n:])
		n += k
	}
	return
}

func (h *richHandle) WriteTo(w io.Writer) (n int64, err error) {
	buf := make([]byte, 512)
	for {
		k, err := h.Read(buf)
		m, werr := w.Write(buf[:k])
		n += int64(m)
		if werr != nil {
			return n, werr
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func (f *simFS) stat(name string) (fs.FileInfo, error) {
	n := f.find(name)
	if n == nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	if n.f.Stat != "" || n.f.Open != "" && n.f.Times == 0 {
		n.fire(fStat)
		return nil, errOf(n.f.Stat, "stat", name)
	}
	return f.info(n), nil
}

func (f *simFS) readDir(name string) ([]fs.DirEntry, error) {
	file, err := f.Open(name)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	d, ok := file.(fs.ReadDirFile)
	if !ok {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: errors.New("not a directory")}
	}
	l, err := d.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}

func (f *simFS) readFile(name string) ([]byte, error) {
	file, err := f.Open(name)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	return io.ReadAll(file)
}

type simInfo struct {
	n    *simNode
	size int64
	meta uint64
}

func (i simInfo) Name() string { return i.n.name }
func (i simInfo) Size() int64  { return i.size }
func (i simInfo) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0o755
	}
	if i.meta&2 != 0 {
		return 0o444 | fs.FileMode(core.MixStr(i.meta, i.n.name))&0o333
	}
	return 0o644
}

// ModTime differs from file to file and run to run; a part has none.
func (i simInfo) ModTime() time.Time {
	if i.meta&1 == 0 {
		return time.Time{}
	}
	return time.Unix(int64(core.MixStr(i.meta, i.n.name)>>32), 0)
}
func (i simInfo) IsDir() bool                { return i.n.dir }
func (i simInfo) Sys() any                   { return nil }
func (i simInfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i simInfo) Info() (fs.FileInfo, error) { return i, nil }

func (f *simFS) info(n *simNode) simInfo {
	sz := int64(len(n.data))
	if f.d.Size != 0 {
		sz += int64(f.d.Size)
		if sz < 0 {
			sz = 0
		}
		n.fire(fSize)
	}
	return simInfo{n, sz, f.d.Seed}
}

type simHandle struct {
	f      *simFS
	n      *simNode
	name   string
	pos    int
	rng    uint64
	zeros  int
	closed bool
}

func (h *simHandle) Stat() (fs.FileInfo, error) {
	if h.f.hook != nil {
		h.f.hook("stat", h.name)
	}
	if h.n.f.Stat != "" {
		h.n.fire(fStat)
		return nil, errOf(h.n.f.Stat, "stat", h.name)
	}
	return h.f.info(h.n), nil
}

func (h *simHandle) rand() uint64 {
	h.rng = core.Mix(h.rng)
	return h.rng
}

func (h *simHandle) Read(p []byte) (int, error) {
	if h.f.hook != nil {
		h.f.hook("read", h.name)
	}
	if h.closed {
		return 0, &fs.PathError{Op: "read", Path: h.name, Err: fs.ErrClosed}
	}
	if h.n.dir {
		return 0, &fs.PathError{Op: "read", Path: h.name, Err: syscall.EISDIR}
	}
	h.f.pause(h.n, uint64(h.pos)+2)
	end := len(h.n.data)
	bad := h.n.f.Read != ""
	if bad && h.n.f.At < end {
		end = h.n.f.At
	}
	if h.pos >= end && bad {
		h.n.fire(fRead)
		return 0, errOf(h.n.f.Read, "read", h.name)
	}
	if h.pos >= end {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	d := h.f.d
	if d.Zero && h.zeros < 3 && h.rand()%3 == 0 {
		h.zeros++
		h.n.fire(fZero)
		return 0, nil
	}
	h.zeros = 0
	max := len(p)
	if d.Max > 0 {
		m := 1 + int(h.rand()%uint64(d.Max))
		if m < max {
			max = m
			if max < end-h.pos {
				h.n.fire(fShort)
			}
		}
	}
	n := copy(p[:max], h.n.data[h.pos:end])
	h.pos += n
	if h.pos == len(h.n.data) && !bad && d.EOFData {
		h.n.fire(fEOFData)
		return n, io.EOF
	}
	return n, nil
}

func (h *simHandle) Close() error {
	if h.f.hook != nil {
		h.f.hook("close", h.name)
	}
	if h.closed {
		return &fs.PathError{Op: "close", Path: h.name, Err: fs.ErrClosed}
	}
	h.closed = true
	h.f.count(-1)
	if h.n.f.Close != "" {
		h.n.fire(fClose)
		return errOf(h.n.f.Close, "close", h.name)
	}
	return nil
}

type simDir struct {
	*simHandle
	next int
}

func (d *simDir) ReadDir(n int) ([]fs.DirEntry, error) {
	if d.f.hook != nil {
		d.f.hook("list", d.name)
	}
	d.f.pause(d.n, 3)
	k := d.n.nth(true)
	if d.n.f.List != "" && (d.n.f.Times == 0 || k <= d.n.f.Times) {
		d.n.fire(fList)
		return nil, errOf(d.n.f.List, "readdir", d.name)
	}
	if n > 1 && d.f.d.Seed%3 != 0 { // as many as asked for is not promised
		n = 1 + int(core.Mix(d.f.d.Seed+uint64(d.next))%uint64(min(n, 5)))
	}
	var l []fs.DirEntry
	for d.next < len(d.n.kids) && (n <= 0 || len(l) < n) {
		kid := d.n.kids[d.next]
		d.next++
		l = append(l, simInfo{kid, int64(len(kid.data)), d.f.d.Seed})
	}
	if n > 0 && len(l) == 0 {
		return nil, io.EOF
	}
	return l, nil
}

// file adds a file below root, making directories.
func (n *simNode) file(name string, data []byte, f faults) *simNode {
	dir, base := path.Split(name)
	cur := n
	for _, p := range strings.Split(strings.Trim(dir, "/"), "/") {
		if p == "" {
			continue
		}
		var next *simNode
		for _, k := range cur.kids {
			if k.name == p && k.dir {
				next = k
			}
		}
		if next == nil {
			next = &simNode{name: p, dir: true}
			cur.kids = append(cur.kids, next)
		}
		cur = next
	}
	x := &simNode{name: base, data: data, f: f}
	cur.kids = append(cur.kids, x)
	return x
}
