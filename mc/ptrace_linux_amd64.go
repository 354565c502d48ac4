package main

// A system call fault injector: runs operations of the library in a child
// process under ptrace and lets the explorer decide, at each system call on the
// scenario's files, whether it fails, is cut short, or is the process's last.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"unsafe"
)

const (
	markMagic   = 0x7eadbe00
	markCommand = 1 // wants a command: buffer, size
	markBegin   = 2
	markEnd     = 3
	markResult  = 4 // has a result: buffer, length
)

// childCmd is what the child has to do.
type childCmd struct {
	Op       string // sign, rewrite, extract, expand
	In, Out  string
	Pgp, Rsa []byte
	Umask    int // kept if negative
	Pair     []childCmd
}

type childResult struct {
	Err      string
	Ok       bool
	Fds      []string // left open
	InClosed bool     // the caller's file was closed
	Text     string
	Pair     []childResult
}

//go:noinline
func marker(k int, b []byte) int {
	r, _, e := syscall.RawSyscall(syscall.SYS_GETPGID, uintptr(markMagic+k), uintptr(unsafe.Pointer(unsafe.SliceData(b))), uintptr(len(b)))
	if e != 0 {
		return -1
	}
	return int(r)
}

var childBuf [1 << 16]byte

func childMain(args []string) {
	runtime.LockOSThread()
	debug.SetGCPercent(-1)
	buf := childBuf[:]
	for {
		n := marker(markCommand, buf)
		if n <= 0 {
			os.Exit(0)
		}
		var c childCmd
		if err := json.Unmarshal(buf[:n], &c); err != nil {
			os.Exit(3)
		}
		var r childResult
		if c.Op == "pair" {
			r = childPair(c)
		} else {
			r = childRun(c)
		}
		b, _ := json.Marshal(r)
		marker(markResult, buf[:copy(buf, b)])
	}
}

// sysc is a system call about to be made.
type sysc struct {
	nr    uint64
	args  [6]uint64
	name  string
	class string // open, read, write, close, stat, meta
	path  string // of the file it is about
	path2 string
	flush bool // closes a file with writes that were not synchronised
}

func (s sysc) String() string {
	p := s.path
	if s.path2 != "" {
		p += " " + s.path2
	}
	return s.name + " " + p
}

// fault is what happens to a system call.
type fault struct {
	errno syscall.Errno // fails
	short int           // only this much of it: 1 one byte, 2 half
	kill  bool          // the process dies before it, or after it if short
	lose  func()        // takes back what was written
}

func (f fault) String() string {
	var s []string
	if f.errno != 0 {
		s = append(s, "fails: "+f.errno.Error())
	}
	if f.short > 0 {
		s = append(s, "is cut short")
	}
	if f.lose != nil {
		s = append(s, "what was written is lost")
	}
	if f.kill {
		s = append(s, "kill")
	}
	return strings.Join(s, ", ")
}

type sysInfo struct {
	name, class string
	fd, path    int // argument numbers + 1
	path2       int
	dirfd       int
	count       int // argument that holds a length
}

var sysTable = map[uint64]sysInfo{
	0: {"read", "read", 1, 0, 0, 0, 3}, 1: {"write", "write", 1, 0, 0, 0, 3}, 2: {"open", "open", 0, 1, 0, 0, 0}, 3: {"close", "close", 1, 0, 0, 0, 0},
	4: {"stat", "stat", 0, 1, 0, 0, 0}, 5: {"fstat", "stat", 1, 0, 0, 0, 0}, 6: {"lstat", "stat", 0, 1, 0, 0, 0}, 8: {"lseek", "stat", 1, 0, 0, 0, 0},
	17: {"pread64", "read", 1, 0, 0, 0, 3}, 18: {"pwrite64", "write", 1, 0, 0, 0, 3}, 19: {"readv", "read", 1, 0, 0, 0, 0}, 20: {"writev", "write", 1, 0, 0, 0, 0},
	40: {"sendfile", "write", 1, 0, 0, 0, 4}, 73: {"flock", "meta", 1, 0, 0, 0, 0}, 74: {"fsync", "write", 1, 0, 0, 0, 0}, 75: {"fdatasync", "write", 1, 0, 0, 0, 0},
	76: {"truncate", "meta", 0, 1, 0, 0, 0}, 77: {"ftruncate", "meta", 1, 0, 0, 0, 0}, 78: {"getdents", "read", 1, 0, 0, 0, 0},
	82: {"rename", "meta", 0, 1, 2, 0, 0}, 83: {"mkdir", "meta", 0, 1, 0, 0, 0}, 84: {"rmdir", "unlink", 0, 1, 0, 0, 0}, 85: {"creat", "open", 0, 1, 0, 0, 0},
	86: {"link", "meta", 0, 2, 1, 0, 0}, 87: {"unlink", "unlink", 0, 1, 0, 0, 0}, 88: {"symlink", "meta", 0, 2, 0, 0, 0}, 89: {"readlink", "stat", 0, 1, 0, 0, 0},
	90: {"chmod", "meta", 0, 1, 0, 0, 0}, 91: {"fchmod", "meta", 1, 0, 0, 0, 0}, 92: {"chown", "meta", 0, 1, 0, 0, 0}, 93: {"fchown", "meta", 1, 0, 0, 0, 0}, 94: {"lchown", "meta", 0, 1, 0, 0, 0},
	133: {"mknod", "meta", 0, 1, 0, 0, 0}, 217: {"getdents64", "read", 1, 0, 0, 0, 0},
	257: {"openat", "open", 0, 2, 0, 1, 0}, 258: {"mkdirat", "meta", 0, 2, 0, 1, 0}, 259: {"mknodat", "meta", 0, 2, 0, 1, 0}, 260: {"fchownat", "meta", 0, 2, 0, 1, 0},
	262: {"newfstatat", "stat", 0, 2, 0, 1, 0}, 263: {"unlinkat", "unlink", 0, 2, 0, 1, 0}, 264: {"renameat", "meta", 0, 2, 4, 1, 0}, 265: {"linkat", "meta", 0, 4, 2, 3, 0},
	266: {"symlinkat", "meta", 0, 3, 0, 2, 0}, 267: {"readlinkat", "stat", 0, 2, 0, 1, 0}, 268: {"fchmodat", "meta", 0, 2, 0, 1, 0}, 269: {"faccessat", "stat", 0, 2, 0, 1, 0},
	275: {"splice", "write", 3, 0, 0, 0, 5}, 280: {"utimensat", "meta", 0, 2, 0, 1, 0}, 285: {"fallocate", "write", 1, 0, 0, 0, 0}, 295: {"preadv", "read", 1, 0, 0, 0, 0}, 296: {"pwritev", "write", 1, 0, 0, 0, 0},
	316: {"renameat2", "meta", 0, 2, 4, 1, 0}, 326: {"copy_file_range", "write", 3, 0, 0, 0, 5}, 332: {"statx", "stat", 0, 2, 0, 1, 0}, 437: {"openat2", "open", 0, 2, 0, 1, 0}, 452: {"fchmodat2", "meta", 0, 2, 0, 1, 0},
}

// tracee is a child process under control.
type tracee struct {
	pid     int
	mem     *os.File
	runs    int
	dead    bool
	main    int // thread that waits for a command
	bufAddr uint64
	bufLen  int
	inj     map[int]*int64 // value to be returned by the call a thread is in
	mark    map[int]int
	known   map[int]bool
}

const (
	ptraceGetSyscallInfo = 0x420e
	wNoThread            = 0x20000000
	wAll                 = 0x40000000
	optSysGood           = 1
	optClone             = 8
	optExitKill          = 0x100000
)

type syscallInfo struct {
	op   uint8
	_    [3]byte
	arch uint32
	ip   uint64
	sp   uint64
	nr   uint64 // or rval
	args [6]uint64
	_    [2]uint64
}

func getSyscallInfo(tid int) (s syscallInfo, err error) {
	_, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, ptraceGetSyscallInfo, uintptr(tid), unsafe.Sizeof(s), uintptr(unsafe.Pointer(&s)), 0, 0)
	if e != 0 {
		return s, e
	}
	return s, nil
}

func spawnTracee(dir string) *tracee {
	self, err := os.Executable()
	must(err)
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	must(err)
	defer null.Close()
	pid, err := syscall.ForkExec(self, []string{self, "child"}, &syscall.ProcAttr{
		Dir:   dir,
		Env:   []string{"GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "HOME=" + dir, "TMPDIR=" + dir + "/nonexistent", "PATH=/usr/bin:/bin", "VMC_CHILD=1"},
		Files: []uintptr{null.Fd(), null.Fd(), 2},
		Sys:   &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL},
	})
	must(err)
	t := &tracee{pid: pid, inj: map[int]*int64{}, mark: map[int]int{}, known: map[int]bool{pid: true}}
	var ws syscall.WaitStatus
	_, err = syscall.Wait4(pid, &ws, wAll, nil)
	must(err)
	if !ws.Stopped() {
		panic(fmt.Sprintf("harness: child did not start: %v", ws))
	}
	must(syscall.PtraceSetOptions(pid, optSysGood|optClone|optExitKill))
	t.mem, err = os.OpenFile(fmt.Sprintf("/proc/%d/mem", pid), os.O_RDWR, 0)
	must(err)
	must(syscall.PtraceSyscall(pid, 0))
	if t.pump(nil, markCommand) != markCommand {
		panic("harness: child does not ask for a command")
	}
	return t
}

func (t *tracee) kill() {
	if t.dead {
		return
	}
	syscall.Kill(t.pid, syscall.SIGKILL)
	for {
		var ws syscall.WaitStatus
		tid, err := syscall.Wait4(-1, &ws, wAll|wNoThread, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil || tid == t.pid && (ws.Exited() || ws.Signaled()) {
			break
		}
	}
	t.dead = true
	t.mem.Close()
}

func (t *tracee) str(addr uint64) string {
	var out []byte
	b := make([]byte, 256)
	for len(out) < 8192 {
		n, err := t.mem.ReadAt(b, int64(addr)+int64(len(out)))
		if n == 0 && err != nil {
			return string(out)
		}
		if i := bytes.IndexByte(b[:n], 0); i >= 0 {
			return string(append(out, b[:i]...))
		}
		out = append(out, b[:n]...)
	}
	return string(out)
}

func (t *tracee) fdPath(fd uint64) string {
	s, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", t.pid, int32(fd)))
	if err != nil {
		return ""
	}
	return s
}

// writable tells whether a descriptor is open for writing.
func (t *tracee) writable(fd uint64) bool {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/fdinfo/%d", t.pid, int32(fd)))
	_, f, _ := strings.Cut(string(b), "flags:")
	f, _, _ = strings.Cut(f, "\n")
	n, err := strconv.ParseUint(strings.TrimSpace(f), 8, 64)
	return err == nil && n&3 != 0
}

// describe tells what a call is about, or false if it is not about the scenario's files.
func (t *tracee) describe(s syscallInfo, root string) (sysc, bool) {
	i, ok := sysTable[s.nr]
	if !ok {
		return sysc{}, false
	}
	c := sysc{nr: s.nr, args: s.args, name: i.name, class: i.class}
	if i.fd > 0 {
		c.path = t.fdPath(s.args[i.fd-1])
		if !strings.HasPrefix(c.path, root) {
			if s.nr == 326 || s.nr == 40 || s.nr == 275 { // from a file of the scenario
				in := 0
				if s.nr == 40 {
					in = 1
				}
				if p := t.fdPath(s.args[in]); strings.HasPrefix(p, root) {
					return c, true
				}
			}
			return c, false
		}
		return c, true
	}
	get := func(arg, dirfd int) string {
		p := t.str(s.args[arg-1])
		if !strings.HasPrefix(p, "/") && dirfd > 0 {
			if int32(s.args[dirfd-1]) == -100 {
				d, _ := os.Readlink(fmt.Sprintf("/proc/%d/cwd", t.pid))
				p = d + "/" + p
			} else {
				p = t.fdPath(s.args[dirfd-1]) + "/" + p
			}
		}
		return p
	}
	c.path = get(i.path, i.dirfd)
	if i.path2 > 0 {
		c.path2 = t.str(s.args[i.path2-1])
	}
	return c, strings.HasPrefix(c.path, root) || i.path2 > 0 && strings.HasPrefix(c.path2, root)
}

// pump lets the child run until a marker or its end (-1).
func (t *tracee) pump(onCall func(s syscallInfo) fault, until int) int {
	for {
		var ws syscall.WaitStatus
		tid, err := syscall.Wait4(-1, &ws, wAll|wNoThread, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			panic("harness: wait: " + err.Error())
		}
		if ws.Exited() || ws.Signaled() {
			if tid == t.pid {
				t.dead = true
				t.mem.Close()
				return -1
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		deliver := 0
		switch {
		case sig == syscall.SIGTRAP|0x80:
			s, err := getSyscallInfo(tid)
			if err != nil {
				break
			}
			if s.op == 1 { // entry
				if s.nr == syscall.SYS_GETPGID && s.args[0]&^0xff == markMagic {
					k := int(s.args[0] & 0xff)
					if k == markCommand || k == markResult {
						t.main, t.bufAddr, t.bufLen = tid, s.args[1], int(s.args[2])
						if k == until {
							return k // stays stopped
						}
					}
					var zero int64
					t.inj[tid] = &zero
					break
				}
				if onCall == nil {
					break
				}
				f := onCall(s)
				i := sysTable[s.nr]
				if f.kill && f.short == 0 {
					t.skip(tid)
					t.kill()
					return -1
				}
				if f.lose != nil {
					f.lose()
				}
				if f.errno != 0 {
					v := -int64(f.errno)
					t.inj[tid] = &v
					if i.class != "close" { // a failing close still closes
						t.skip(tid)
					}
				} else if f.short > 0 && i.count > 0 {
					n := s.args[i.count-1]
					if f.short == 1 {
						n = 1
					} else {
						n = (n + 1) / 2
					}
					t.setArg(tid, i.count, n)
					if f.kill {
						t.mark[tid] = 1
					}
				}
			} else if s.op == 2 {
				if v := t.inj[tid]; v != nil {
					delete(t.inj, tid)
					var r syscall.PtraceRegs
					if syscall.PtraceGetRegs(tid, &r) == nil {
						r.Rax = uint64(*v)
						syscall.PtraceSetRegs(tid, &r)
					}
				}
				if t.mark[tid] == 1 {
					delete(t.mark, tid)
					t.kill()
					return -1
				}
			}
		case sig == syscall.SIGTRAP && ws>>16 != 0:
		case sig == syscall.SIGSTOP && !t.known[tid]:
			t.known[tid] = true
		case sig == syscall.SIGTRAP:
		default:
			deliver = int(sig)
		}
		if err := syscall.PtraceSyscall(tid, deliver); err != nil && err != syscall.ESRCH {
			panic("harness: ptrace: " + err.Error())
		}
	}
}

func (t *tracee) skip(tid int) {
	var r syscall.PtraceRegs
	must(syscall.PtraceGetRegs(tid, &r))
	r.Orig_rax = ^uint64(0)
	must(syscall.PtraceSetRegs(tid, &r))
}

func (t *tracee) setArg(tid, arg int, v uint64) {
	var r syscall.PtraceRegs
	must(syscall.PtraceGetRegs(tid, &r))
	switch arg {
	case 1:
		r.Rdi = v
	case 2:
		r.Rsi = v
	case 3:
		r.Rdx = v
	case 4:
		r.R10 = v
	case 5:
		r.R8 = v
	}
	must(syscall.PtraceSetRegs(tid, &r))
}

// run executes a command; decide is asked at each system call on files below root.
func (t *tracee) run(c childCmd, root string, decide func(s sysc) fault) (r childResult, killed bool) {
	t.runs++
	t.command(c)
	k := t.pump(func(s syscallInfo) fault {
		d, ok := t.describe(s, root)
		if !ok {
			return fault{}
		}
		return decide(d)
	}, markResult)
	if k < 0 {
		return r, true
	}
	r = t.result()
	return r, t.dead
}

// command gives the child what it waits for.
func (t *tracee) command(c childCmd) {
	b, err := json.Marshal(c)
	must(err)
	if len(b) > t.bufLen {
		panic("harness: command too long")
	}
	_, err = t.mem.WriteAt(b, int64(t.bufAddr))
	must(err)
	n := int64(len(b))
	t.inj[t.main] = &n
	must(syscall.PtraceSyscall(t.main, 0))
}

// result takes the child's result and has it wait for a command.
func (t *tracee) result() (r childResult) {
	out := make([]byte, t.bufLen)
	_, err := t.mem.ReadAt(out, int64(t.bufAddr))
	must(err)
	must(json.Unmarshal(out, &r))
	var zero int64
	t.inj[t.main] = &zero
	must(syscall.PtraceSyscall(t.main, 0))
	t.pump(nil, markCommand)
	return
}

// tracee gives the worker's child process.
func (x *X) tracee() *tracee {
	t, _ := x.w.mem["tracee"].(*tracee)
	if t == nil {
		runtime.LockOSThread() // for good: ptrace belongs to the thread
	}
	if t != nil && (t.dead || t.runs > 400) {
		t.kill()
		t = nil
	}
	if t == nil {
		t = spawnTracee(x.w.dir)
		x.w.mem["tracee"] = t
	}
	return t
}

// inject runs a command, with every system call on the files below root open to
// the given faults. It returns what was done.
func (x *X) inject(c childCmd, root string, alternatives func(s sysc, done []string) []fault) (r childResult, killed bool, done []string, calls int) {
	t := x.tracee()
	dirty := map[string]bool{}
	ok := false
	defer func() {
		if !ok {
			t.kill()
		}
	}()
	r, killed = t.run(c, root, func(s sysc) fault {
		calls++
		x.Step()
		switch {
		case s.class == "close":
			s.flush = t.writable(s.args[0]) && dirty[s.path]
		case s.name == "fsync" || s.name == "fdatasync":
			delete(dirty, s.path)
		case s.class == "write":
			dirty[s.path] = true
		}
		alts := alternatives(s, done)
		k := x.Dev(len(alts) + 1)
		if x.verbose {
			x.Logf("%s", strings.ReplaceAll(s.String(), root, "$"))
		}
		if k == 0 {
			return fault{}
		}
		f := alts[k-1]
		done = append(done, fmt.Sprintf("call %d %s %s", calls, strings.ReplaceAll(s.String(), root, "$"), f))
		if x.verbose {
			x.Logf("  ^ %s", f)
		}
		return f
	})
	ok = true
	return
}
