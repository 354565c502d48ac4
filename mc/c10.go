package main

import (
	"bytes"
	"fmt"
	"os"
	"regexp"
	"slices"
	"strings"
	"syscall"

	"github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

func childRun(c childCmd) (r childResult) {
	var err error
	before := openFds()
	defer func() {
		for _, f := range openFds() {
			if !slices.Contains(before, f) {
				r.Fds = append(r.Fds, f)
			}
		}
	}()
	isClosed := func(f *os.File) bool {
		_, _, e := syscall.RawSyscall(syscall.SYS_FCNTL, f.Fd(), syscall.F_GETFD, 0)
		return e != 0
	}
	switch c.Op {
	case "sign", "rewrite":
		marker(markBegin, nil)
		var in *os.File
		in, err = os.Open(c.In)
		if err == nil {
			op := signOp{sign: c.Op == "sign", pgp: c.Pgp, rsa: c.Rsa}
			if op.sign {
				op.signer = signerNamed("eddsa")
			}
			err = op.run(in, c.Out)
			r.InClosed = isClosed(in)
			in.Close()
		}
	case "extract":
		var b []byte
		b, err = os.ReadFile(c.In)
		if err != nil {
			r.Err = "harness: " + err.Error()
			return
		}
		if c.Umask >= 0 {
			syscall.Umask(c.Umask)
		}
		err = cpio.Extract(bytes.NewReader(b), c.Out)
	case "read":
		r.Text, err = childRead(c.In)
	case "expand":
		if c.Umask >= 0 {
			syscall.Umask(c.Umask)
		}
		var in *os.File
		in, err = os.Open(c.In)
		if err == nil {
			var rpm *rpmutils.Rpm
			rpm, err = rpmutils.ReadRpm(in)
			if err == nil {
				err = rpm.ExpandPayload(c.Out)
			}
			r.InClosed = isClosed(in)
			in.Close()
		}
	}
	if err != nil {
		r.Err = err.Error()
		if r.Err == "" {
			r.Err = "(empty)"
		}
	} else {
		r.Ok = true
	}
	return
}

var faultErrnos = map[string][]syscall.Errno{
	"open":   {syscall.EACCES, syscall.EMFILE, syscall.ENOSPC, syscall.EIO, syscall.EINTR},
	"read":   {syscall.EIO, syscall.EINTR, syscall.ENOMEM},
	"write":  {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EINTR, syscall.EFBIG},
	"close":  {syscall.EIO, syscall.ENOSPC, syscall.EINTR},
	"stat":   {syscall.EIO, syscall.EACCES, syscall.ENOMEM, syscall.EINTR},
	"meta":   {syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EROFS, syscall.EINTR},
	"unlink": {syscall.EIO, syscall.EACCES, syscall.EROFS},
}

// c10faults lists what may happen to a call.
func c10faults(s sysc, nerr int, kill, torn bool, before map[string]node, root string) (out []fault) {
	if s.flush {
		// an error of an earlier write is reported only now, as on network file systems
		lose := func() {
			if n, ok := before[strings.TrimPrefix(s.path, root+"/")]; ok {
				must(os.WriteFile(s.path, []byte(n.data), 0644))
			} else if fi, err := os.Stat(s.path); err == nil {
				must(os.Truncate(s.path, fi.Size()/2))
			}
		}
		out = append(out, fault{errno: syscall.EIO, lose: lose})
	}
	es := faultErrnos[s.class]
	for i, e := range es {
		if i < nerr {
			out = append(out, fault{errno: e})
		}
	}
	if sysTable[s.nr].count > 0 && s.args[sysTable[s.nr].count-1] > 1 {
		out = append(out, fault{short: 2}, fault{short: 1})
		if kill && torn {
			out = append(out, fault{short: 2, kill: true}, fault{short: 1, kill: true})
		}
	}
	if kill {
		out = append(out, fault{kill: true})
	}
	return
}

type c10scenario struct {
	name    string
	room    int
	links   bool
	out     string
	payload int
	op      string
	big     bool // signatures of 600 and 300 bytes
}

func c10scenarios() (out []c10scenario) {
	for _, op := range []string{"rewrite", "sign"} {
		for _, o := range []string{"new", "other", "in", "inlink", "otherlinked", "sub/new", "samename/in"} {
			for _, room := range []int{0, 1, 2} {
				for _, links := range []bool{false, true} {
					if links && o != "in" {
						continue
					}
					if o == "inlink" {
						links = true
					}
					for _, payload := range []int{20, 200000} {
						if room == 2 && (payload > 20 || op == "sign" || o != "in" && o != "other") {
							continue
						}
						if payload > 20 && (room == 1 || op == "sign") && o != "in" {
							continue
						}
						out = append(out, c10scenario{name: o, room: room, links: links, out: o, payload: payload, op: op})
					}
				}
			}
		}
	}
	return
}

var tempName = regexp.MustCompile("[0-9]{6,}")

func init() {
	register(&Prop{
		ID: "C10",
		Assumptions: []string{"a crash is the death of the process: what the kernel was given is kept (power loss and fsync are not considered)",
			"injected failures are ones that do not contradict the state of the file system; a failing close still closes",
			"a temporary file may stay behind if removing it is what fails",
			"the write that updates a package in place is not torn (stated in the property)"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			scen := c10scenarios()
			part := func(name string, budget, nerr int, kill bool, scen []c10scenario) *Part {
				return &Part{
					Name: name, Scratch: true, Budget: budget,
					Desc: fmt.Sprintf("%d scenarios (SignRpmFile and RewriteWithSignatures to a new, existing, the same, hard-linked file; room in the signature header or not; short and long payload), each run in a child process under ptrace with up to %d faults: any system call on the scenario's files fails with %d errors, is cut short (half, one byte), reports at close that what was written is lost, or (kill: %v) the process dies before it or in the middle of it", len(scen), budget, nerr, kill),
					Run: func(x *X) {
						sc := scen[x.Choose(len(scen))]
						root := x.fresh("cr")
						p := newPkg()
						p.payload = fileData(3, sc.payload)
						if sc.room == 1 {
							p.sig = []tagv{tBytes(sigReserved, make([]byte, 4000))}
						} else if sc.room == 2 {
							// the new signature header is 8 bytes shorter
							p.sig = []tagv{tBytes(sigRSA, make([]byte, 48)), tBytes(sigPGP, make([]byte, 52))}
						}
						b := p.build()
						must(os.WriteFile(root+"/in", b.raw, 0644))
						must(os.Mkdir(root+"/sub", 0755))
						must(os.Mkdir(root+"/samename", 0755))
						old := ""
						if sc.links {
							must(os.Link(root+"/in", root+"/inlink"))
							must(os.Link(root+"/in", root+"/sub/z"))
						}
						must(os.WriteFile(root+"/other", []byte("other content that was here"), 0644))
						if sc.out == "otherlinked" {
							must(os.WriteFile(root+"/otherlinked", []byte("linked other"), 0644))
							must(os.Link(root+"/otherlinked", root+"/sub/y"))
						}
						if sc.out == "samename/in" {
							// of the same size and time, too
							must(os.WriteFile(root+"/samename/in", bytes.Repeat([]byte("s"), len(b.raw)), 0644))
							st, err := os.Stat(root + "/in")
							must(err)
							must(os.Chtimes(root+"/samename/in", st.ModTime(), st.ModTime()))
						}
						before := snapshot(root)
						if n, ok := before[sc.out]; ok {
							old = n.data
						}
						op := signOp{sign: sc.op == "sign", signer: signerNamed("eddsa"), rsa: bytes.Repeat([]byte{0x88}, 40), pgp: bytes.Repeat([]byte{0x99}, 52)}
						cmd := childCmd{Op: sc.op, In: root + "/in", Out: root + "/" + sc.out, Pgp: op.pgp, Rsa: op.rsa}
						unlinkFailed := false
						if x.verbose {
							x.Logf("%s to %s, room %d, links %v, payload %d", sc.op, sc.out, sc.room, sc.links, sc.payload)
						}
						cut := false
						r, killed, done, calls := x.inject(cmd, root, func(s sysc, done []string) []fault {
							for _, d := range done {
								cut = cut || strings.Contains(d, "cut short") && strings.Contains(d, "write $/"+sc.out+" ")
							}
							torn := true
							if s.class == "write" && s.path == root+"/"+sc.out {
								if cut {
									return nil // the rest of a write in place that was cut short
								}
								torn = false
							}
							return c10faults(s, nerr, kill, torn, before, root)
						})
						for _, d := range done {
							if strings.Contains(d, "unlink") {
								unlinkFailed = true
							}
						}
						x.State(x.prefix())
						what := fmt.Sprintf("%s to %s (room %d, links %v, payload %d), [%s], result ok=%v err=%q killed=%v", sc.op, sc.out, sc.room, sc.links, sc.payload, strings.Join(done, "; "), r.Ok, r.Err, killed)
						x.Outcome(sc.op, sc.out, sc.room, r.Ok, r.Err != "", killed, tempName.ReplaceAllString(strings.Join(done, ";"), "*"))
						if strings.HasPrefix(r.Err, "harness:") {
							panic(r.Err)
						}
						if killed && !strings.Contains(what, "kill,") && !strings.HasSuffix(strings.Join(done, ";"), "kill") {
							x.Fail("%s: the process died by itself", what)
						}
						if calls == 0 {
							panic("harness: no system call was seen")
						}
						if len(done) == 0 && !r.Ok {
							x.Fail("%s: fails without any fault", what)
						}
						after := snapshot(root)
						g, there := after[sc.out]
						_, was := before[sc.out]
						isOld := there == was && (!there || g.kind == "file" && g.data == old)
						signErr := fmt.Errorf("missing")
						if there && g.kind == "file" {
							signErr = op.check(b, []byte(g.data))
						}
						if r.Ok && signErr != nil {
							x.Fail("%s: success is reported but the output is not the signed package: %v", what, signErr)
						}
						if !isOld && signErr != nil {
							x.Fail("%s: the output is neither what it was nor the signed package: %v", what, signErr)
						}
						for k, n := range before {
							if k == sc.out || n.kind == "dir" {
								continue
							}
							if h, ok := after[k]; !ok || h.data != n.data || h.kind != n.kind {
								x.Fail("%s: %s is %s, was %s", what, k, h, n)
							}
						}
						for k, n := range after {
							if _, ok := before[k]; !ok && k != sc.out && !killed && !unlinkFailed {
								x.Fail("%s: %s is left behind: %s", what, k, n)
							}
						}
						x.Validated()
					},
				}
			}
			if !thorough {
				return []*Part{part("one-fault", 1, 2, true, scen)}
			}
			return []*Part{
				part("one-fault", 1, 5, true, scen),
				part("two-faults", 2, 2, true, scen),
			}
		},
	})
}
