package main

// Schedules of two operations at the grain of system calls: both run in a child
// process under ptrace, which decides at each of their calls on the scenario's
// files, or about what all threads of the process share, who goes on.

import (
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

const (
	markReady = 5 // operation number: about to start
	markDone  = 6
)

func markerN(k, n int) {
	syscall.RawSyscall(syscall.SYS_GETPGID, uintptr(markMagic+k), 0, uintptr(n))
}

// calls that change what all threads share
var sharedCalls = map[uint64]string{95: "umask", 80: "chdir", 81: "fchdir", 161: "chroot", 160: "setrlimit", 302: "prlimit64",
	105: "setuid", 106: "setgid", 113: "setreuid", 114: "setregid", 117: "setresuid", 119: "setresgid", 122: "setfsuid", 123: "setfsgid"}

// childPair runs operations at the same time.
func childPair(c childCmd) (r childResult) {
	if runtime.GOMAXPROCS(0) < 4 {
		runtime.GOMAXPROCS(4)
	}
	syscall.Umask(c.Umask)
	state := processState()
	r.Pair = make([]childResult, len(c.Pair))
	var wg sync.WaitGroup
	for i, op := range c.Pair {
		wg.Add(1)
		go func() {
			runtime.LockOSThread()
			markerN(markReady, i)
			r.Pair[i] = childRun(op)
			r.Pair[i].Fds = nil
			markerN(markDone, i)
			runtime.UnlockOSThread()
			wg.Done()
		}()
	}
	wg.Wait()
	if s := processState(); s != state {
		r.Err = fmt.Sprintf("the operations changed the process: %s, before %s", s, state)
	}
	return
}

// childRead reads a package file in every way.
func childRead(name string) (string, error) {
	var b strings.Builder
	f, err := os.Open(name)
	if err != nil {
		return "", err
	}
	defer f.Close()
	_, sigs, err := rpmutils.Verify(f, ring(keyNames...))
	fmt.Fprintln(&b, len(sigs), err)
	if _, err := f.Seek(0, io.SeekStart); err != nil {
		return "", err
	}
	rpm, err := rpmutils.ReadRpm(f)
	if err != nil {
		return b.String(), err
	}
	n, err := rpm.Header.GetNEVRA()
	fmt.Fprintln(&b, n, err)
	pr, err := rpm.PayloadReaderExtended()
	if err != nil {
		return b.String(), err
	}
	for {
		fi, err := pr.Next()
		if err != nil {
			fmt.Fprintln(&b, err)
			return b.String(), nil
		}
		data, err := io.ReadAll(pr)
		fmt.Fprintf(&b, "%s %q %v\n", infoText(fi), data, err)
	}
}

// runPair has the child run c.Pair under a schedule. Operations that the
// schedule does not mention (any more) run to their ends one after another.
func (t *tracee) runPair(x *X, c childCmd, root string, steps []sched) (r childResult, counts []int, stuck bool) {
	t.runs++
	t.command(c)
	n := len(c.Pair)
	tids, held, done := make([]int, n), make([]bool, n), make([]bool, n)
	counts = make([]int, n)
	ready, cur, step, left := 0, -1, 0, 0
	free := false
	resume := func(tid, sig int) {
		if err := syscall.PtraceSyscall(tid, sig); err != nil && err != syscall.ESRCH {
			panic("harness: ptrace: " + err.Error())
		}
	}
	next := func() {
		cur = -1
		for step < len(steps) && (done[steps[step].op] || steps[step].budget == 0) {
			step++
		}
		if step < len(steps) {
			cur, left = steps[step].op, steps[step].budget
			step++
		} else {
			for i := range done {
				if !done[i] {
					cur, left = i, toEnd
					break
				}
			}
		}
		if cur >= 0 && held[cur] {
			held[cur] = false
			resume(tids[cur], 0)
		}
	}
	const tick = syscall.SIGUSR2
	main := t.main
	timer := time.AfterFunc(2*time.Second, func() { syscall.Tgkill(t.pid, main, tick) })
	defer timer.Stop()
	ticks := 0
	for {
		var ws syscall.WaitStatus
		tid, err := syscall.Wait4(-1, &ws, wAll|wNoThread, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			panic("harness: wait: " + err.Error())
		}
		if ws.Exited() || ws.Signaled() {
			if tid == t.pid {
				t.dead = true
				t.mem.Close()
				x.Fail("the process does not survive: %v", ws)
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		deliver := 0
		switch {
		case sig == syscall.SIGTRAP|0x80:
			s, err := getSyscallInfo(tid)
			if err != nil || s.op != 1 && s.op != 2 {
				break
			}
			if s.op == 2 {
				if v := t.inj[tid]; v != nil {
					delete(t.inj, tid)
					var regs syscall.PtraceRegs
					if syscall.PtraceGetRegs(tid, &regs) == nil {
						regs.Rax = uint64(*v)
						syscall.PtraceSetRegs(tid, &regs)
					}
				}
				break
			}
			if s.nr == syscall.SYS_GETPGID && s.args[0]&^0xff == markMagic {
				switch i := int(s.args[2]); int(s.args[0] & 0xff) {
				case markResult:
					t.main, t.bufAddr, t.bufLen = tid, s.args[1], int(s.args[2])
					return t.result(), counts, stuck
				case markReady:
					tids[i], held[i] = tid, true
					if ready++; ready == n {
						next()
					}
					continue // is held
				case markDone:
					done[i], tids[i] = true, 0
					if i == cur {
						resume(tid, 0)
						next()
						continue
					}
				}
				break
			}
			op := -1
			for i := range tids {
				if tids[i] == tid {
					op = i
				}
			}
			if op < 0 {
				break
			}
			if _, shared := sharedCalls[s.nr]; !shared {
				d, ok := t.describe(s, root)
				if !ok {
					break
				}
				if x.verbose {
					x.Logf("%d: %s", op, strings.ReplaceAll(d.String(), root, "$"))
				}
			} else if x.verbose {
				x.Logf("%d: %s", op, sharedCalls[s.nr])
			}
			if op == cur && left == 0 && !free {
				held[op] = true
				next()
				continue
			}
			if left > 0 {
				left--
			}
			counts[op]++
			x.Step()
		case sig == tick:
			// nothing moves: one waits for the other
			if ticks++; ticks > 20 {
				x.Fail("the operations do not end")
			}
			timer.Reset(time.Second)
			if ready == n && !free {
				free, stuck = true, true
				for i := range held {
					if held[i] {
						held[i] = false
						resume(tids[i], 0)
					}
				}
			}
		case sig == syscall.SIGTRAP && ws>>16 != 0:
		case sig == syscall.SIGSTOP && !t.known[tid]:
			t.known[tid] = true
		case sig == syscall.SIGTRAP:
		default:
			deliver = int(sig)
		}
		resume(tid, deliver)
	}
}

// sysKinds are the operations; their files are told apart by the number i.
var sysKinds = []struct {
	name  string
	setup func(root string, i int, p *concPkg) childCmd
}{
	{"extract an archive", func(root string, i int, p *concPkg) childCmd {
		in := fmt.Sprintf("%s/%d.cpio", root, i)
		l := fmt.Sprint(i)
		must(os.WriteFile(in, archive(
			cent{name: "d" + l, mode: mDIR | 0777, nlink: 2, ino: 1},
			cent{name: "p" + l, mode: mFIF | 0666, nlink: 1, ino: 2},
			cent{name: "f" + l, mode: mREG | 0644, nlink: 1, ino: 3, data: []byte("content" + l)},
			cent{name: "l" + l, mode: mLNK | 0777, nlink: 1, ino: 4, data: []byte("to" + l)},
			cent{name: "a" + l, mode: mREG | 0644, nlink: 2, ino: 5},
			cent{name: "b" + l, mode: mREG | 0644, nlink: 2, ino: 5, data: []byte("shared" + l)},
			cent{name: "e" + l + "/1", mode: mREG | 0644, nlink: 2, ino: 6},
			cent{name: "e" + l + "/2", mode: mREG | 0644, nlink: 2, ino: 6},
		), 0644))
		return childCmd{Op: "extract", In: in, Out: fmt.Sprintf("%s/x%d", root, i)}
	}},
	{"expand a payload below directories both need", func(root string, i int, p *concPkg) childCmd {
		in := fmt.Sprintf("%s/%d.rpm", root, i)
		must(os.WriteFile(in, p.b.raw, 0644))
		return childCmd{Op: "expand", In: in, Out: fmt.Sprintf("%s/p/q/%d", root, i)}
	}},
	{"sign to a new name next to others", func(root string, i int, p *concPkg) childCmd {
		in := fmt.Sprintf("%s/%d-in.rpm", root, i)
		must(os.WriteFile(in, p.b.raw, 0644))
		return childCmd{Op: "sign", In: in, Out: fmt.Sprintf("%s/%d-out.rpm", root, i)}
	}},
	{"sign over a file of the same name in another directory", func(root string, i int, p *concPkg) childCmd {
		d := fmt.Sprintf("%s/s%d", root, i)
		must(os.Mkdir(d, 0755))
		must(os.WriteFile(d+"/in", p.b.raw, 0644))
		must(os.WriteFile(d+"/out", []byte("old"), 0600))
		return childCmd{Op: "sign", In: d + "/in", Out: d + "/out"}
	}},
	{"rewrite the input", func(root string, i int, p *concPkg) childCmd {
		in := fmt.Sprintf("%s/%d-same.rpm", root, i)
		must(os.WriteFile(in, p.b.raw, 0644))
		return childCmd{Op: "rewrite", In: in, Out: in, Pgp: []byte(fmt.Sprint("pgp", i)), Rsa: make([]byte, 9+300*i)}
	}},
	{"rewrite the input in place", func(root string, i int, p *concPkg) childCmd {
		in := fmt.Sprintf("%s/%d-room.rpm", root, i)
		must(os.WriteFile(in, p.roomy(), 0644))
		return childCmd{Op: "rewrite", In: in, Out: in, Pgp: []byte(fmt.Sprint("pgp", i)), Rsa: []byte{byte(i)}}
	}},
	{"verify and read a file", func(root string, i int, p *concPkg) childCmd {
		in := fmt.Sprintf("%s/%d-read.rpm", root, i)
		must(os.WriteFile(in, p.b.raw, 0644))
		return childCmd{Op: "read", In: in}
	}},
}

// roomy is the package with space reserved for signatures.
func (p *concPkg) roomy() []byte {
	tags := []tagv{tBytes(1008, make([]byte, 2000))}
	return assemble(p.b.raw[:96], tags, hdrOpt{region: sigRegion, sig: true}, &built{gen: p.b.gen, genTags: p.b.genTags, payload: p.b.payload}).raw
}

func (x *X) tracee4() *tracee {
	t, _ := x.w.mem["tracee4"].(*tracee)
	if t == nil {
		runtime.LockOSThread() // for good: ptrace belongs to the thread
	}
	if t != nil && (t.dead || t.runs > 200) {
		t.kill()
		t = nil
	}
	if t == nil {
		t = spawnTracee(x.w.dir)
		x.w.mem["tracee4"] = t
	}
	return t
}

// sysPair runs operations under a schedule in a new directory.
func (x *X) sysPair(kinds, seeds []int, only int, steps []sched) (r childResult, counts []int, before, after map[string]node) {
	t := x.tracee4()
	ok := false
	defer func() {
		if !ok {
			t.kill()
		}
	}()
	root := x.fresh("sys")
	c := childCmd{Op: "pair", Umask: 027}
	for i, k := range kinds {
		op := sysKinds[k].setup(root, i, makeConcPkg(seeds[i], []string{"", "gzip", "xz"}[(k+i)%3], false))
		op.Umask = -1
		if only < 0 || only == i {
			c.Pair = append(c.Pair, op)
		}
	}
	before = snapshot(root)
	var stuck bool
	r, counts, stuck = t.runPair(x, c, root, steps)
	x.Outcome("blocked", stuck)
	after = snapshot(root)
	for i := range r.Pair {
		r.Pair[i].Err = strings.ReplaceAll(r.Pair[i].Err, root, "$")
	}
	ok = true
	if r.Err != "" {
		x.Fail("%s", r.Err)
	}
	return
}

type sysSolo struct {
	r             childResult
	count         int
	before, after map[string]node
}

func c20sysParts(thorough bool) []*Part {
	nk := len(sysKinds)
	part := func(name string, preempt int, run func(x *X, points []int) []sched) *Part {
		return &Part{
			Name: name, Scratch: true,
			Desc: fmt.Sprintf("all pairs of %d operations on files, next to each other, in one process; all schedules with up to %d preemptions at the system calls on their files or about what the process shares; every result and the tree compared with those of the operations alone", nk, preempt),
			Run: func(x *X) {
				a := x.Choose(nk)
				b := a + x.Choose(nk-a)
				kinds, seeds := []int{a, b}, []int{0, 1 + x.Choose(2)}
				m, _ := x.w.mem["syssolo"].(map[string]sysSolo)
				if m == nil {
					m = map[string]sysSolo{}
					x.w.mem["syssolo"] = m
				}
				var solo []sysSolo
				var points []int
				for i := range kinds {
					key := fmt.Sprint(kinds, seeds, i)
					s, ok := m[key]
					if !ok {
						r, counts, before, after := x.sysPair(kinds, seeds, i, nil)
						s = sysSolo{r.Pair[0], counts[0], before, after}
						m[key] = s
					}
					if !s.r.Ok {
						x.Fail("%s alone: %s", sysKinds[kinds[i]].name, s.r.Err)
					}
					solo = append(solo, s)
					points = append(points, s.count)
				}
				steps := run(x, points)
				x.State(fmt.Sprint(kinds, seeds, steps))
				for i, k := range kinds {
					x.Logf("operation %d: %s", i, sysKinds[k].name)
				}
				for _, s := range steps {
					x.Logf("operation %d runs %s", s.op, map[bool]string{true: "to its end", false: fmt.Sprintf("for %d calls", s.budget)}[s.budget == toEnd])
				}
				r, _, _, after := x.sysPair(kinds, seeds, -1, steps)
				for i, s := range solo {
					if got := r.Pair[i]; got.Ok != s.r.Ok || got.Err != s.r.Err || got.Text != s.r.Text {
						x.Fail("operation %d (%s): %v %s %s, alone %v %s %s", i, sysKinds[kinds[i]].name, got.Ok, got.Err, got.Text, s.r.Ok, s.r.Err, s.r.Text)
					}
				}
				// what either of them changes
				want := map[string]node{}
				for _, s := range solo {
					for p, n := range s.after {
						if o, ok := s.before[p]; !ok || o.String() != n.String() || o.data != n.data {
							want[p] = n
						}
					}
				}
				for p, n := range solo[0].before {
					if _, ok := want[p]; !ok && solo[0].after[p].kind != "" && solo[1].after[p].kind != "" {
						want[p] = n
					}
				}
				if d := diffSnap(want, after, false); d != "" {
					x.Fail("%s and %s: %s", sysKinds[a].name, sysKinds[b].name, d)
				}
				x.Validated()
			},
		}
	}
	parts := []*Part{part("system-calls", 1, func(x *X, points []int) []sched {
		first := x.Choose(2)
		return []sched{{first, x.Choose(points[first] + 1)}, {1 - first, toEnd}}
	})}
	if thorough {
		parts = append(parts, part("system-calls-2", 2, func(x *X, points []int) []sched {
			first := x.Choose(2)
			return []sched{{first, x.Choose(points[first] + 1)}, {1 - first, 1 + x.Choose(points[1-first])}, {first, toEnd}}
		}))
	}
	return parts
}
