package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// A patch inserts text into a copy of a standard library file. Anchors that
// are not found stop the build: a simulator with a missing seam is worthless.
type patch struct {
	file   string
	anchor string
	insert string // put directly behind the anchor
	repl   string // or put in the anchor's place
}

var stdPatches = []patch{
	// scheduling
	{"runtime/proc.go", "\t\t\texecute(gp, true) // Schedule it back, never returns.\n\t\t}\n\t}\n\n\tif bubble != nil {\n\t\tbubble.decActive()\n\t}\n", "\tif verif.sched {\n\t\tverifParked(gp)\n\t}\n", ""},
	{"runtime/proc.go", "func ready(gp *g, traceskip int, next bool) {\n", "\tif verif.sched && verifWake(gp) {\n\t\treturn\n\t}\n", ""},
	{"runtime/proc.go", "\t\tnewg := newproc1(fn, gp, pc, false, waitReasonZero)\n", "", "\t\ttask := verifIsTask(gp)\n\t\tnewg := newproc1(fn, gp, pc, task, waitReasonZero)\n\t\tif task {\n\t\t\tverifNewTask(newg)\n\t\t\treturn\n\t\t}\n"},
	{"runtime/proc.go", "func goexit1() {\n", "\tif verif.sched {\n\t\tverifExit(getg())\n\t}\n", ""},
	{"runtime/proc.go", "if randomizeScheduler && next && randn(2) == 0 {", "", "if randomizeScheduler && !verif.rand && next && randn(2) == 0 {"},
	{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n", "\tif verif.sched {\n\t\treturn 0\n\t}\n", ""},
	{"runtime/time.go", "func timeSleep(ns int64) {\n\tif ns <= 0 {\n\t\treturn\n\t}\n", "\tif verifSleep(ns) {\n\t\treturn\n\t}\n", ""},
	{"runtime/time.go", "f func(arg any, seq uintptr, delay int64), arg any, c *hchan) *timeTimer {\n", "\tverifTimer()\n", ""},
	// clock
	{"runtime/time.go", "func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n", "\tif verif.clock {\n\t\treturn verifTime()\n\t}\n", ""},
	{"runtime/timestub.go", "func time_now() (sec int64, nsec int32, mono int64) {\n", "\tif verif.clock {\n\t\treturn verifTime()\n\t}\n", ""},
	{"runtime/time.go", "func time_runtimeNano() int64 {\n", "\tif verif.clock {\n\t\treturn verif.now + 1\n\t}\n", ""},
	// randomness
	{"runtime/rand.go", "func rand() uint64 {\n", "\tif verif.rand {\n\t\treturn verifSplitmix(&verif.rng)\n\t}\n\treturn rand0()\n}\n\n//go:nosplit\nfunc rand0() uint64 {\n", ""},
	{"runtime/rand.go", "\tglobalRand.state.Init(*seed)\n", "", "\t*seed = [32]byte{'v', 'e', 'r', 'i', 'f'} // same hash keys in every process\n\tglobalRand.state.Init(*seed)\n"},
	{"runtime/rand.go", "\tmp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()\n", "", "\tmp.cheaprand = uint32(rand0())\n\tmp.cheaprand64 = rand0()\n"},
	{"runtime/select.go", "\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tif verif.rand {\n\t\t\tj = uint32(verifSplitmix(&verif.rng) % uint64(norder+1))\n\t\t}\n", ""},
	// allocation
	{"runtime/slice.go", "func makeslice(et *_type, len, cap int) unsafe.Pointer {\n\tmem, overflow := math.MulUintptr(et.Size_, uintptr(cap))\n", "\tif verif.maxAlloc != 0 && mem > verif.maxAlloc && !overflow {\n\t\tif mem > verif.bigAlloc {\n\t\t\tverif.bigAlloc = mem\n\t\t}\n\t\tpanicmakeslicelen()\n\t}\n", ""},
	{"runtime/slice.go", "\tif overflow || capmem > maxAlloc {\n", "", "\tif verif.maxAlloc != 0 && capmem > verif.maxAlloc && capmem > verif.bigAlloc {\n\t\tverif.bigAlloc = capmem\n\t}\n\tif overflow || capmem > maxAlloc || verif.maxAlloc != 0 && capmem > verif.maxAlloc {\n"},
	// the machine
	{"runtime/debug.go", "func NumCPU() int {\n", "\tif verif.cpus != 0 {\n\t\treturn verif.cpus\n\t}\n", ""},
	{"runtime/debug.go", "func GOMAXPROCS(n int) int {\n", "\tif verif.cpus != 0 && n <= 0 {\n\t\treturn verif.cpus\n\t}\n", ""},
	// decision points in synchronisation
	{"internal/sync/mutex.go", "func (m *Mutex) Lock() {\n", "\tverifYield(1)\n", ""},
	{"internal/sync/mutex.go", "func (m *Mutex) TryLock() bool {\n", "\tverifYield(2)\n", ""},
	{"internal/sync/mutex.go", "func (m *Mutex) Unlock() {\n", "\tverifYield(3)\n", ""},
	{"sync/rwmutex.go", "func (rw *RWMutex) RLock() {\n", "\tverifYield(4)\n", ""},
	{"sync/rwmutex.go", "func (rw *RWMutex) RUnlock() {\n", "\tverifYield(5)\n", ""},
	{"sync/rwmutex.go", "func (rw *RWMutex) Lock() {\n", "\tverifYield(6)\n", ""},
	{"sync/rwmutex.go", "func (rw *RWMutex) Unlock() {\n", "\tverifYield(7)\n", ""},
	{"sync/once.go", "func (o *Once) Do(f func()) {\n", "\tverifYield(8)\n", ""},
	{"sync/map.go", "func (m *Map) Load(key any) (value any, ok bool) {\n", "\tverifYield(9)\n", ""},
	{"sync/map.go", "func (m *Map) Store(key, value any) {\n", "\tverifYield(10)\n", ""},
	{"sync/map.go", "func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {\n", "\tverifYield(11)\n", ""},
	{"sync/map.go", "func (m *Map) Delete(key any) {\n", "\tverifYield(12)\n", ""},
	{"sync/map.go", "func (m *Map) Range(f func(key, value any) bool) {\n", "\tverifYield(13)\n", ""},
	// system calls
	{"syscall/zsyscall_linux_amd64.go", "func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n", "\tif Verif != nil && dirfd == _AT_FDCWD {\n\t\tif fd, e, ok := Verif.Open(path, flags, mode); ok {\n\t\t\treturn fd, verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func Close(fd int) (err error) {\n", "\tif Verif != nil {\n\t\tif e, ok := Verif.Close(fd); ok {\n\t\t\treturn verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func read(fd int, p []byte) (n int, err error) {\n", "\tif Verif != nil {\n\t\tif n, e, ok := Verif.Read(fd, p); ok {\n\t\t\treturn n, verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func write(fd int, p []byte) (n int, err error) {\n", "\tif Verif != nil {\n\t\tif n, e, ok := Verif.Write(fd, p); ok {\n\t\t\treturn n, verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func pread(fd int, p []byte, offset int64) (n int, err error) {\n", "\tif Verif != nil {\n\t\tif n, e, ok := Verif.Pread(fd, p, offset); ok {\n\t\t\treturn n, verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func pwrite(fd int, p []byte, offset int64) (n int, err error) {\n", "\tif Verif != nil {\n\t\tif n, e, ok := Verif.Pwrite(fd, p, offset); ok {\n\t\t\treturn n, verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func Seek(fd int, offset int64, whence int) (off int64, err error) {\n", "\tif Verif != nil {\n\t\tif n, e, ok := Verif.Seek(fd, offset, whence); ok {\n\t\t\treturn n, verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func Getdents(fd int, buf []byte) (n int, err error) {\n", "\tif Verif != nil {\n\t\tif n, e, ok := Verif.Getdents(fd, buf); ok {\n\t\t\treturn n, verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func Fstat(fd int, stat *Stat_t) (err error) {\n", "\tif Verif != nil {\n\t\tif e, ok := Verif.Fstat(fd, stat); ok {\n\t\t\treturn verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n", "\tif Verif != nil && fd == _AT_FDCWD {\n\t\tif e, ok := Verif.Stat(path, stat, flags); ok {\n\t\t\treturn verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func Ftruncate(fd int, length int64) (err error) {\n", "\tif Verif != nil {\n\t\tif e, ok := Verif.Ftruncate(fd, length); ok {\n\t\t\treturn verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func Truncate(path string, length int64) (err error) {\n", "\tif Verif != nil {\n\t\tif e, ok := Verif.Truncate(path, length); ok {\n\t\t\treturn verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func Fsync(fd int) (err error) {\n", "\tif Verif != nil {\n\t\tif e, ok := Verif.Fsync(fd); ok {\n\t\t\treturn verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n", "\tif Verif != nil {\n\t\tif e, ok := Verif.Rename(oldpath, newpath); ok {\n\t\t\treturn verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func unlinkat(dirfd int, path string, flags int) (err error) {\n", "\tif Verif != nil && dirfd == _AT_FDCWD {\n\t\tif e, ok := Verif.Unlink(path, flags); ok {\n\t\t\treturn verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func Mkdirat(dirfd int, path string, mode uint32) (err error) {\n", "\tif Verif != nil && dirfd == _AT_FDCWD {\n\t\tif e, ok := Verif.Mkdir(path, mode); ok {\n\t\t\treturn verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func Fchmod(fd int, mode uint32) (err error) {\n", "\tif Verif != nil {\n\t\tif e, ok := Verif.Fchmod(fd, mode); ok {\n\t\t\treturn verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func fchmodat(dirfd int, path string, mode uint32) (err error) {\n", "\tif Verif != nil && dirfd == _AT_FDCWD {\n\t\tif e, ok := Verif.Chmod(path, mode); ok {\n\t\t\treturn verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func Getcwd(buf []byte) (n int, err error) {\n", "\tif Verif != nil {\n\t\tif n, e, ok := Verif.Getcwd(buf); ok {\n\t\t\treturn n, verifErr(e)\n\t\t}\n\t}\n", ""},
	{"syscall/zsyscall_linux_amd64.go", "func readlinkat(dirfd int, path string, buf []byte) (n int, err error) {\n", "\tif Verif != nil && dirfd == _AT_FDCWD {\n\t\tif n, e, ok := Verif.Readlink(path, buf); ok {\n\t\t\treturn n, verifErr(e)\n\t\t}\n\t}\n", ""},
	{"internal/syscall/unix/at.go", "func Unlinkat(dirfd int, path string, flags int) error {\n", "\tif syscall.Verif != nil {\n\t\tif p, ok := syscall.Verif.At(dirfd, path); ok {\n\t\t\tif flags&AT_REMOVEDIR != 0 {\n\t\t\t\treturn syscall.Rmdir(p)\n\t\t\t}\n\t\t\treturn syscall.Unlink(p)\n\t\t}\n\t}\n", ""},
	{"internal/syscall/unix/at.go", "func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n", "\tif syscall.Verif != nil {\n\t\tif p, ok := syscall.Verif.At(dirfd, path); ok {\n\t\t\treturn syscall.Open(p, flags, perm)\n\t\t}\n\t}\n", ""},
	{"internal/syscall/unix/at_fstatat.go", "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n", "\tif syscall.Verif != nil {\n\t\tif p, ok := syscall.Verif.At(dirfd, path); ok {\n\t\t\treturn syscall.Lstat(p, stat)\n\t\t}\n\t}\n", ""},
	// process exit
	{"runtime/panic.go", "\t// and String methods to prepare the panic strings before startpanic.\n", "\tif verifOnPanic != nil {\n\t\tverifOnPanic(p.arg)\n\t}\n", ""},
	{"os/proc.go", "func Exit(code int) {\n", "\tif VerifExit != nil {\n\t\tVerifExit(code)\n\t}\n", ""},
	{"os/proc.go", "// Exit causes the current program", "", "// VerifExit, if set, takes over Exit.\nvar VerifExit func(code int)\n\n// Exit causes the current program"},
}

var stdNew = map[string]string{
	"runtime/zz_verif.go": "stdpatch/runtime_verif.go.txt",
	"syscall/zz_verif.go": "stdpatch/syscall_verif.go.txt",
}

type builder struct {
	simDir  string // /verif/sim
	repo    string
	out     string
	goroot  string
	ov      map[string]string
	sites   []string
	reduced map[string]bool
}

func (b *builder) write(name, text string) string {
	p := filepath.Join(b.out, "ov", name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		fatalf("%v", err)
	}
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		fatalf("%v", err)
	}
	return p
}

func (b *builder) patchStd() error {
	texts := map[string]string{}
	for _, p := range stdPatches {
		t, ok := texts[p.file]
		if !ok {
			c, err := os.ReadFile(filepath.Join(b.goroot, "src", p.file))
			if err != nil {
				return err
			}
			t = string(c)
		}
		if strings.Count(t, p.anchor) != 1 {
			return fmt.Errorf("anchor found %d times in %s: %q", strings.Count(t, p.anchor), p.file, p.anchor)
		}
		if p.repl != "" {
			t = strings.Replace(t, p.anchor, p.repl, 1)
		} else {
			t = strings.Replace(t, p.anchor, p.anchor+p.insert, 1)
		}
		texts[p.file] = t
	}
	for f, t := range texts {
		b.ov[filepath.Join(b.goroot, "src", f)] = b.write("std/"+f, t)
	}
	for f, src := range stdNew {
		c, err := os.ReadFile(filepath.Join(b.simDir, src))
		if err != nil {
			return err
		}
		b.ov[filepath.Join(b.goroot, "src", f)] = b.write("std/"+f, string(c))
	}
	link := "import _ \"unsafe\"\n\n// implemented in package runtime\n//\n//go:linkname verifYield\nfunc verifYield(site uint32)\n"
	b.ov[filepath.Join(b.goroot, "src/internal/sync/zz_verif.go")] = b.write("std/internal/sync/zz_verif.go", "package sync\n\n"+link)
	b.ov[filepath.Join(b.goroot, "src/sync/zz_verif.go")] = b.write("std/sync/zz_verif.go", "package sync\n\n"+link)
	return nil
}

const firstSite = 100

// instrument puts a decision point before every statement of a Go file.
func (b *builder) instrument(path string) (string, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return "", err
	}
	type ins struct {
		off  int
		text string
	}
	var list []ins
	rel := strings.TrimPrefix(path, b.repo+"/")
	site := func(p token.Pos) string {
		pos := fset.Position(p)
		b.sites = append(b.sites, fmt.Sprintf("%s:%d", rel, pos.Line))
		return fmt.Sprintf("verifrt.VerifYield(%d); ", firstSite+len(b.sites)-1)
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			list = append(list, ins{fset.Position(s.Pos()).Offset, site(s.Pos())})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			for _, c := range n.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
			markSkip[n.Body] = true
		case *ast.TypeSwitchStmt:
			for _, c := range n.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
			markSkip[n.Body] = true
		case *ast.SelectStmt:
			for _, c := range n.Body.List {
				stmts(c.(*ast.CommClause).Body)
			}
			markSkip[n.Body] = true
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				list = append(list, ins{fset.Position(n.Body.Lbrace).Offset + 1, " " + site(n.Body.Lbrace)})
			}
		case *ast.BlockStmt:
			if !markSkip[n] {
				stmts(n.List)
			}
		}
		return true
	})
	if len(list) == 0 {
		return "", nil
	}
	list = append(list, ins{fset.Position(f.Name.End()).Offset, "; import verifrt \"runtime\""})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var sb strings.Builder
	last := 0
	for _, i := range list {
		sb.Write(src[last:i.off])
		sb.WriteString(i.text)
		last = i.off
	}
	sb.Write(src[last:])
	return sb.String(), nil
}

var markSkip = map[*ast.BlockStmt]bool{}

func (b *builder) instrumentRepo() {
	var files []string
	filepath.WalkDir(b.repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			n := d.Name()
			if n == ".git" || n == "testdata" || n == "vendor" || (n == "parser" && strings.HasSuffix(filepath.Dir(p), "plurals")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	for _, p := range files {
		t, err := b.instrument(p)
		if err != nil || t == "" {
			continue // the compiler will say what is wrong
		}
		rel, _ := filepath.Rel(b.repo, p)
		b.ov[p] = b.write("repo/"+rel, t)
	}
}

func (b *builder) run(dir string, env []string, args ...string) error {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%s: %v\n%s", strings.Join(args, " "), err, out)
	}
	return nil
}

type target struct {
	name string
	race bool
}

// build makes the worker binaries. It builds from the working tree of repo.
func (b *builder) build(targets []target) {
	b.ov = map[string]string{}
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatalf("go env: %v", err)
	}
	b.goroot = strings.TrimSpace(string(out))
	if err := b.patchStd(); err != nil {
		fatalf("cannot patch the standard library: %v", err)
	}
	std := map[string]string{}
	for k, v := range b.ov {
		std[k] = v
	}
	b.instrumentRepo()
	work := fmt.Sprintf("go 1.25.0\n\nuse (\n\t%s\n\t%s\n\t%s\n)\n", b.repo, filepath.Join(b.repo, "cmd/xtemplate"), b.simDir)
	b.write("../go.work", work)
	if c, err := os.ReadFile("/opt/vp/go.work.sum"); err == nil {
		b.write("../go.work.sum", string(c))
	}
	for _, t := range targets {
		err := b.link(t)
		if err != nil {
			// perhaps an instrumented file does not compile: try without
			fmt.Fprintf(os.Stderr, "vsim: %v\nvsim: building without statement level decision points\n", err)
			full := b.ov
			b.ov = map[string]string{}
			for k, v := range std {
				b.ov[k] = v
			}
			if err2 := b.link(t); err2 != nil {
				fatalf("build failed: %v", err2)
			}
			b.ov = full
			if b.reduced == nil {
				b.reduced = map[string]bool{}
			}
			b.reduced[t.name] = true
		}
	}
}

func (b *builder) link(t target) error {
	ov := map[string]string{}
	for k, v := range b.ov {
		ov[k] = v
	}
	env := []string{"GOWORK=" + filepath.Join(b.out, "go.work"), "GOFLAGS="}
	bin := filepath.Join(b.out, t.name)
	args := []string{"go"}
	dir := b.simDir
	if t.name == "xt" {
		ov[filepath.Join(b.repo, "cmd/xtemplate/zz_verif_sim_test.go")] = filepath.Join(b.simDir, "xt/xt_test.go.txt")
		dir = filepath.Join(b.repo, "cmd/xtemplate")
		args = append(args, "test", "-c", "-vet=off")
	} else {
		args = append(args, "build")
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": ov}, "", " ")
	ovf := b.write("../"+t.name+".json", string(js))
	args = append(args, "-overlay", ovf, "-trimpath", "-o", bin)
	if t.race {
		args = append(args, "-race")
	}
	if t.name == "xt" {
		args = append(args, ".")
	} else {
		args = append(args, "./worker")
	}
	return b.run(dir, env, args...)
}
