package main

import (
	"bytes"
	"compress/bzip2"
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/klauspost/compress/zstd"
	"github.com/ulikunitz/xz"
	"github.com/ulikunitz/xz/lzma"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// cHeap is the memory in use by C code, in the cgo build.
var cHeap = func() uint64 { return 0 }

// watchStream is a caller's stream that notices what is done to it.
type watchStream struct {
	r      io.Reader
	mu     sync.Mutex
	over   bool
	late   int
	closed int
}

func (w *watchStream) Read(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.over {
		w.late++
	}
	return w.r.Read(p)
}

func (w *watchStream) Close() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.closed++
	return nil
}

func openFds() []string {
	d, err := os.Open("/proc/self/fd")
	must(err)
	names, err := d.Readdirnames(-1)
	must(err)
	own := fmt.Sprint(d.Fd())
	d.Close()
	var out []string
	for _, n := range names {
		if n == own {
			continue
		}
		t, _ := os.Readlink("/proc/self/fd/" + n)
		out = append(out, n+" "+t)
	}
	return out
}

// held is what the process holds.
type held struct {
	goroutines, fds int
	c               uint64
}

func holding() held {
	fds := 0
	for fd := uintptr(0); fd < 256; fd++ {
		if _, _, e := syscall.RawSyscall(syscall.SYS_FCNTL, fd, syscall.F_GETFD, 0); e == 0 {
			fds++
		}
	}
	return held{runtime.NumGoroutine(), fds, cHeap()}
}

// released requires that the process holds no more than before.
func (x *X) released(before held, what string) {
	var h held
	for i := 0; ; i++ {
		h = holding()
		if h.goroutines <= before.goroutines && h.fds <= before.fds && h.c <= before.c+32768 {
			return
		}
		if h.fds > before.fds || i > 60 {
			break
		}
		time.Sleep(time.Duration(i*i) * 20 * time.Microsecond)
	}
	switch {
	case h.fds > before.fds:
		x.Fail("%s: %d descriptors are open, %d before: %s", what, h.fds, before.fds, strings.Join(openFds(), ", "))
	case h.goroutines > before.goroutines:
		b := make([]byte, 1<<16)
		b = b[:runtime.Stack(b, true)]
		var gs []string
		for _, g := range strings.Split(string(b), "\n\n") {
			if strings.Contains(g, "/zstd") || strings.Contains(g, "go-rpmutils") || strings.Contains(g, "xz") {
				gs = append(gs, g)
			}
		}
		x.Fail("%s: %d goroutines are running, %d before: %.1500s", what, h.goroutines, before.goroutines, strings.Join(gs, "\n"))
	default:
		x.Fail("%s: C code holds %d bytes, %d before", what, h.c, before.c)
	}
}

// quiet prepares for an execution in which nothing is collected behind its back.
func quiet(x *X) {
	n, _ := x.w.mem["n"].(int)
	if n == 0 {
		debug.SetGCPercent(-1)
		time.Sleep(10 * time.Millisecond)
		// what the libraries allocate once
		for i := 0; i < 3; i++ {
			a := c18make(1)
			for cm := range comps {
				rpm, err := rpmutils.ReadRpm(bytes.NewReader(append(a.head(tStr(1125, comps[cm].name)), c18packed(1, cm)...)))
				must(err)
				pr, err := rpm.PayloadReaderExtended()
				must(err)
				for err == nil {
					_, err = pr.Next()
				}
			}
		}
	}
	if n%200 == 0 {
		runtime.GC()
	}
	x.w.mem["n"] = n + 1
}

// c19stream checks what an operation did to its caller's stream.
func (x *X) c19stream(w *watchStream, what string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.closed > 0 {
		x.Fail("%s: the caller's stream was closed", what)
	}
	if w.late > 0 {
		x.Fail("%s: the caller's stream was read %d times after the end", what, w.late)
	}
}

func (w *watchStream) end() {
	w.mu.Lock()
	w.over = true
	w.mu.Unlock()
}

// c19bad are archives that cannot be extracted.
func c19bad(k int) (raw []byte, what string, setup func(dest string)) {
	file := cent{name: "./a/f", mode: mREG | 0644, nlink: 1, data: fileData(1, 3000)}
	pre := func(es ...cent) []byte { return archive(append([]cent{file}, es...)...) }
	none := func(string) {}
	switch k {
	case 0:
		return pre(cent{name: "./a/f/g", mode: mREG | 0644, nlink: 1, data: []byte("x")}), "file below a file", none
	case 1:
		return pre(cent{name: "./d", mode: mREG | 0644, nlink: 1, data: []byte("x")}), "file where a directory is", func(d string) { must(os.Mkdir(d+"/d", 0755)) }
	case 2:
		return pre(cent{name: "./x", mode: 0170000, nlink: 1}), "unknown kind", none
	case 3:
		return pre(cent{name: "./h", mode: mREG | 0644, nlink: 2, ino: 9, data: []byte("x")}), "hard links missing", none
	case 4:
		return pre(cent{name: "./l", mode: mLNK | 0777, nlink: 1, data: []byte("a")}, cent{name: "./l", mode: mLNK | 0777, nlink: 1, data: []byte("b")}), "symlink twice", none
	case 5:
		return pre(cent{name: "./o", mode: mLNK | 0777, nlink: 1, data: []byte("/")}, cent{name: "./o/x/y", mode: mREG | 0644, nlink: 1, data: []byte("b")}), "through a symlink", none
	case 6:
		b := pre(file)
		copy(b[bytes.LastIndex(b, []byte("070701")):], "070799")
		return b, "bad magic at the end", none
	case 7:
		return pre(cent{name: ".", mode: mREG | 0644, nlink: 1}), "file at the destination", none
	case 8:
		return pre(cent{name: "./h1", mode: mREG | 0644, nlink: 2, ino: 9}, cent{name: "./d", mode: mREG | 0644, nlink: 2, ino: 9, data: []byte("x")}), "hard link target is a directory", func(d string) { must(os.Mkdir(d+"/d", 0755)) }
	case 9:
		return pre(cent{name: "./h1", mode: mREG | 0644, nlink: 2, ino: 9}, cent{name: "./h2", mode: mREG | 0644, nlink: 2, ino: 9, data: []byte("x")}), "hard link exists", func(d string) { must(os.WriteFile(d+"/h1", nil, 0644)) }
	case 10:
		return pre(cent{name: "./p", mode: mFIF | 0644, nlink: 1}, cent{name: "./p", mode: mFIF | 0644, nlink: 1}), "FIFO twice", none
	case 11:
		return pre(cent{name: "./e1", mode: mREG | 0644, nlink: 2, ino: 9}, cent{name: "./e2", mode: mREG | 0644, nlink: 2, ino: 9}), "empty hard link exists", func(d string) { must(os.WriteFile(d+"/e2", nil, 0644)) }
	case 12:
		return pre(), "read-only destination", func(d string) { must(os.Chmod(d, 0555)) }
	case 13:
		return pre(), "no destination", func(d string) { must(os.Remove(d)); must(os.WriteFile(d, nil, 0644)) }
	case 14:
		return pre(cent{stripped: true, index: 0}), "stripped entry", none
	}
	return nil, "", nil
}

const nC19bad = 15

func init() {
	register(&Prop{
		ID: "C19",
		Assumptions: []string{"in use means: a running goroutine, an open descriptor, or memory held by C code (cgo zstd); memory of the Go heap belongs to the garbage collector, which is switched off during an execution so that no finalizer hides a leak",
			"the deprecated PayloadReader offers no way to release anything and is not claimed",
			"an error of Next about a file that the header does not list does not end the payload, and is followed to the end"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			var parts []*Part
			for _, cgo := range []bool{false, true} {
				suffix := map[bool]string{true: "-cgo"}[cgo]
				run := func(name, desc string, scratch bool, f func(x *X)) {
					parts = append(parts, &Part{Name: name + suffix, Desc: desc + map[bool]string{true: " (zstd, C implementation)"}[cgo], CGO: cgo, Scratch: scratch, Workers: 1, Run: f})
				}
				run("reader", "PayloadReaderExtended over every format variant; payload complete, cut off, failing or damaged at places spread over it; each of 2 entries read not at all, by one byte, in full or beyond; then every sequence of 3 (thorough: 4) further calls", false, func(x *X) {
					quiet(x)
					cm := x.chooseComp(map[bool]int{false: nMainComps, true: len(comps)}[thorough || cgo], cgo)
					data := c19packed(cm)
					near, far, calls := 12, 10, 4
					if !thorough {
						near, far, calls = 3, 5, 3
					}
					cuts := []int{len(data)}
					for i := 0; i <= near; i++ {
						cuts = append(cuts, min(i, len(data)-1))
					}
					for i := 1; i < far; i++ {
						cuts = append(cuts, i*len(data)/far)
					}
					for i := 1; i <= near; i++ {
						cuts = append(cuts, len(data)-i)
					}
					cut := cuts[x.Choose(len(cuts))]
					mode := 0
					if cut < len(data) {
						mode = x.Choose(4)
					}
					uses := []int{x.Choose(4), x.Choose(4)}
					after := x.Choose(1 << calls)
					a := c19arch()
					head := a.head(tStr(1125, comps[cm].name))
					raw := append(head, data[:cut]...)
					c := &chunkReader{data: raw, failAt: -1}
					switch mode {
					case 1:
						c.err = errInjected
					case 2:
						c.err, c.withEOF = errInjected, true
					case 3: // damaged
						c.data = append(raw, data[cut]^0x55)
						c.data = append(c.data, data[cut+1:]...)
						if comps[cm].name == "lzma" && cut < 5 {
							return
						}
					}
					w := &watchStream{r: c}
					what := fmt.Sprintf("%v, %d of %d bytes, mode %d, reading %v, then %04b", comps[cm], cut, len(data), mode, uses, after)
					x.Logf("%s", what)
					before := holding()
					rpm, err := rpmutils.ReadRpm(w)
					must(err)
					x.Step()
					pr, err := rpm.PayloadReaderExtended()
					if err == nil {
						for k := 0; ; k++ {
							x.Step()
							_, err = pr.Next()
							if err == io.EOF || err != nil && !perFile(rpm, err, c.data[len(head):], k) {
								break
							}
							if k > 1000 {
								x.Fail("%s: does not end", what)
							}
							if k < 2 {
								switch uses[k] {
								case 1:
									pr.Read(make([]byte, 1))
								case 2:
									io.Copy(io.Discard, pr)
								case 3:
									io.Copy(io.Discard, pr)
									pr.Read(make([]byte, 1))
									pr.Read(nil)
								}
							}
						}
					}
					w.end()
					x.State(x.prefix())
					x.Outcome(err == io.EOF, fmt.Sprint(err))
					x.released(before, what)
					if pr != nil {
						for k := 0; k < calls; k++ {
							x.Step()
							if after>>k&1 == 0 {
								if fi, err := pr.Next(); err == nil {
									x.Fail("%s: Next gives %v after the end", what, fi)
								}
							} else if n, err := pr.Read(make([]byte, 10)); n > 0 || err == nil {
								x.Fail("%s: Read gives (%d, %v) after the end", what, n, err)
							}
							pr.IsLink()
						}
						w.mu.Lock()
						w.late = 0 // these calls may look at the stream
						w.mu.Unlock()
						x.released(before, what+", afterwards")
					}
					x.c19stream(w, what)
					x.Validated()
				})
				run("every-cut", "ExpandPayload and PayloadReaderExtended of payloads in every format variant, cut off or failing after every number of bytes", true, func(x *X) {
					quiet(x)
					cm := x.chooseComp(map[bool]int{false: 6, true: len(comps)}[thorough || cgo], cgo)
					data := c19packed(cm)
					cut := x.Choose(len(data) + 1)
					mode := x.Choose(2)
					iface := 2 * x.Choose(2)
					a := c19arch()
					c := &chunkReader{data: append(a.head(tStr(1125, comps[cm].name)), data[:cut]...), failAt: -1}
					if mode == 1 {
						c.err = errInjected
					}
					w := &watchStream{r: c}
					what := fmt.Sprintf("%v, %d of %d bytes, mode %d, %s", comps[cm], cut, len(data), mode, ifaceNames[iface])
					x.Logf("%s", what)
					dest := x.fresh("d")
					before := holding()
					rpm, err := rpmutils.ReadRpm(w)
					must(err)
					n, err := consumeSkipping(x, rpm, iface, dest, data[:cut])
					w.end()
					if iface == 0 && n == 2 && err == io.EOF {
						err = nil
					}
					if cut < len(data)/2 && err == nil {
						x.Fail("%s: no error", what)
					}
					x.State(x.prefix())
					x.released(before, what)
					x.c19stream(w, what)
					x.Validated()
				})
				run("bad-archives", fmt.Sprintf("ExpandPayload of %d archives that cannot be extracted to their destination, in every format variant", nC19bad), true, func(x *X) {
					quiet(x)
					cm := x.chooseComp(len(comps), cgo)
					raw, name, setup := c19bad(x.Choose(nC19bad))
					if f := frames[comps[cm].what]; f && cgo {
						return
					}
					dest := x.fresh("d")
					setup(dest)
					a := c18make(0)
					w := &watchStream{r: newChunk(append(a.head(tStr(1125, comps[cm].name)), comps[cm].pack(raw)...), x.Choose(2))}
					what := fmt.Sprintf("%s in %v", name, comps[cm])
					x.Logf("%s", what)
					before := holding()
					_, err := a.consume(x, w, 2, 0, dest)
					w.end()
					os.Chmod(dest, 0755)
					if err == nil && !(k18root() && name == "read-only destination") {
						x.Fail("%s: no error", what)
					}
					x.State(x.prefix())
					x.released(before, what)
					x.c19stream(w, what)
					if fi, err := os.Lstat(dest); err == nil && !fi.IsDir() {
						must(os.Remove(dest))
					}
					x.Validated()
				})
				run("bad-headers", "the 3 interfaces on packages whose file list is inconsistent (every file tag missing, of another type, or one short), or whose payload lists other files, in every format variant", true, func(x *X) {
					quiet(x)
					cm := x.chooseComp(len(comps), cgo)
					a := c19arch()
					tags := fileTags(a.files, a.opt)
					k := x.Choose(len(tags))
					switch t := tags[k]; x.Choose(4) {
					case 0:
						tags = append(append([]tagv{}, tags[:k]...), tags[k+1:]...)
					case 1:
						tags[k] = tU64(t.tag, 1, 2)
					case 2:
						tags[k] = tStr(t.tag, "x")
					case 3:
						tags[k].count = 1
					}
					iface := 2 * x.Choose(2)
					p := newPkg()
					p.noPayDigest, p.noMD5 = true, true
					p.gen = append(append(p.gen, tags...), tStr(1125, comps[cm].name))
					w := &watchStream{r: bytes.NewReader(append(p.build().raw, c19packed(cm)...))}
					what := fmt.Sprintf("file tag %d changed, %v, %s", tags[min(k, len(tags)-1)].tag, comps[cm], ifaceNames[iface])
					dest := x.fresh("d")
					before := holding()
					x.Step()
					rpm, err := rpmutils.ReadRpm(w)
					if err == nil {
						_, err = consumeSkipping(x, rpm, iface, dest, c19packed(cm))
					}
					w.end()
					x.State(x.prefix())
					x.Outcome(fmt.Sprint(err))
					x.released(before, what)
					x.c19stream(w, what)
					x.Validated()
				})
			}
			parts = append(parts, &Part{
				Name: "streams", Workers: 1,
				Desc: "ReadRpm, ReadHeader, Verify, SignRpmStream, cpio readers over streams complete, cut off or failing after every 7th byte: nothing is closed, nothing stays",
				Run: func(x *X) {
					quiet(x)
					b := c19signed()
					op := x.Choose(4)
					n := len(b.raw)
					cut := 7 * x.Choose(n/7+1)
					full := x.Bool()
					if full {
						cut = n
					}
					c := &chunkReader{data: b.raw[:cut], failAt: -1}
					if x.Bool() {
						c.err = errInjected
					}
					w := &watchStream{r: c}
					before := holding()
					x.Step()
					var err error
					switch op {
					case 0:
						_, err = rpmutils.ReadHeader(w)
					case 1:
						_, _, err = rpmutils.Verify(w, ring("eddsa"))
					case 2:
						_, err = rpmutils.SignRpmStream(w, signerNamed("eddsa").priv, &rpmutils.SignatureOptions{CreationTime: fixedTime})
					case 3:
						raw := c19arch().raw
						w = &watchStream{r: &chunkReader{data: raw[:cut%(len(raw)+1)], failAt: -1}}
						cr := cpio.NewReader(w)
						for err == nil {
							_, err = cr.Next()
						}
					}
					w.end()
					x.State(x.prefix())
					what := fmt.Sprintf("operation %d, %d of %d bytes", op, cut, n)
					x.Outcome(op, err != nil)
					x.released(before, what)
					x.c19stream(w, what)
					x.Validated()
				},
			})
			scen := c19scenarios()
			files := func(name string, budget, nerr int) *Part {
				return &Part{
					Name: name, Scratch: true, Budget: budget,
					Desc: fmt.Sprintf("%d scenarios (signing to new, existing, the same, linked, missing, unwritable files and from damaged input; extraction of packages and archives with every kind of object), with up to %d of their system calls failing (%d errors) or cut short: descriptors open afterwards, and whether the caller's file is still open", len(scen), budget, nerr),
					Run: func(x *X) {
						sc := scen[x.Choose(len(scen))]
						root := x.fresh("cr")
						cmd := sc.setup(root)
						r, killed, done, calls := x.inject(cmd, root, func(s sysc, done []string) []fault {
							if cmd.Op == "extract" && s.path == cmd.In {
								return nil // read by the harness
							}
							return c10faults(s, nerr, false, false, nil, root)
						})
						what := fmt.Sprintf("%s [%s], result ok=%v err=%q", sc.name, strings.Join(done, "; "), r.Ok, r.Err)
						x.Logf("%s", what)
						if strings.HasPrefix(r.Err, "harness:") {
							panic(r.Err)
						}
						if killed {
							x.Fail("%s: the process died", what)
						}
						if calls == 0 {
							panic("harness: no system call was seen")
						}
						if len(done) == 0 && r.Ok == sc.fails {
							x.Fail("%s: without faults", what)
						}
						if r.InClosed {
							x.Fail("%s: the caller's file was closed", what)
						}
						if len(r.Fds) > 0 {
							x.Fail("%s: left open: %s", what, strings.ReplaceAll(strings.Join(r.Fds, ", "), root, "$"))
						}
						x.State(x.prefix())
						x.Outcome(sc.name, r.Ok, tempName.ReplaceAllString(strings.Join(done, ";"), "*"))
						x.Validated()
					},
				}
			}
			parts = append(parts, files("files-one-fault", 1, map[bool]int{false: 2, true: 5}[thorough]))
			if thorough {
				parts = append(parts, files("files-two-faults", 2, 1))
			}
			return parts
		},
	})
}

func k18root() bool { return os.Geteuid() == 0 }

// perFile tells whether an error of the k-th call of Next is about an entry
// that the header does not list, after which the payload goes on.
func perFile(rpm *rpmutils.Rpm, err error, packed []byte, k int) bool {
	if strings.Contains(err.Error(), "invalid file") {
		return true
	}
	// worded otherwise: look for the entry
	name, _ := rpm.Header.GetString(1125)
	plain := unpackPrefix(name, packed)
	pos := int64(0)
	for i := 0; ; i++ {
		s := refNext(plain, pos, nil)
		if i == k {
			if s.name == "" || s.trailer {
				return false
			}
			files, _ := rpm.Header.GetFiles()
			for _, f := range files {
				if f.Name() == s.name || len(s.name) > 1 && s.name[:2] == "./" && f.Name() == s.name[1:] {
					return false
				}
			}
			return true
		}
		if s.bad || s.unknown || s.trailer {
			return false
		}
		pos = s.next
	}
}

// unpackPrefix decompresses as much as can be.
func unpackPrefix(name string, packed []byte) []byte {
	r, err := io.Reader(bytes.NewReader(packed)), error(nil)
	switch name {
	case "gzip":
		r, err = gzip.NewReader(r)
	case "bzip2":
		r = bzip2.NewReader(r)
	case "lzma":
		r, err = lzma.NewReader(r)
	case "xz":
		r, err = xz.NewReader(r)
	case "zstd":
		d, zerr := zstd.NewReader(r, zstd.WithDecoderConcurrency(1))
		if zerr != nil {
			return nil
		}
		defer d.Close()
		r = d
	}
	if err != nil {
		return nil
	}
	b, _ := io.ReadAll(io.LimitReader(r, 1<<20))
	return b
}

// consumeSkipping reads on after errors about single files.
func consumeSkipping(x *X, rpm *rpmutils.Rpm, iface int, dest string, packed []byte) (int, error) {
	if iface == 2 {
		return 0, rpm.ExpandPayload(dest)
	}
	pr, err := rpm.PayloadReaderExtended()
	if err != nil {
		return 0, err
	}
	for n := 0; ; n++ {
		x.Step()
		_, err := pr.Next()
		if err != nil && (err == io.EOF || !perFile(rpm, err, packed, n)) || n > 1000 {
			return n, err
		}
		io.Copy(io.Discard, pr)
	}
}

var c19mem sync.Map

func c19arch() *c18arch {
	if v, ok := c19mem.Load("arch"); ok {
		return v.(*c18arch)
	}
	c := &c17case{order: []int{0, 1}}
	c.files = []fileRec{
		{dir: "/", base: "noise", size: 200, mode: mREG | 0644, dev: 1, ino: 1},
		{dir: "/", base: "b", size: 50, mode: mREG | 0644, dev: 1, ino: 2},
	}
	c.work()
	a := &c18arch{c17case: c}
	for _, i := range c.order {
		a.ents = append(a.ents, c.entry(i))
	}
	a.raw = archive(a.ents...)
	a.tree, _ = buildTree(a.ents, 022)
	v, _ := c19mem.LoadOrStore("arch", a)
	return v.(*c18arch)
}

func c19packed(cm int) []byte {
	if v, ok := c19mem.Load(cm); ok {
		return v.([]byte)
	}
	v, _ := c19mem.LoadOrStore(cm, comps[cm].pack(c19arch().raw))
	return v.([]byte)
}

func c19signed() *built {
	if v, ok := c19mem.Load("signed"); ok {
		return v.(*built)
	}
	p := newPkg()
	p.payload = c19arch().raw
	b := p.build()
	h, err := rpmutils.SignRpmStream(bytes.NewReader(b.raw), signerNamed("eddsa").priv, &rpmutils.SignatureOptions{CreationTime: fixedTime})
	must(err)
	sig, err := h.DumpSignatureHeader(false)
	must(err)
	b.raw = append(append([]byte{}, sig...), b.raw[b.sigEnd:]...)
	v, _ := c19mem.LoadOrStore("signed", b)
	return v.(*built)
}

type c19scenario struct {
	name  string
	fails bool
	setup func(root string) childCmd
}

func c19scenarios() (out []c19scenario) {
	in := func(root string, n, room int) *built {
		p := newPkg()
		p.payload = fileData(3, n)
		if room > 0 {
			p.sig = []tagv{tBytes(sigReserved, make([]byte, room))}
		}
		b := p.build()
		must(os.WriteFile(root+"/in", b.raw, 0644))
		return b
	}
	for _, op := range []string{"rewrite", "sign"} {
		cmd := func(root, out string) childCmd {
			return childCmd{Op: op, In: root + "/in", Out: root + "/" + out, Rsa: bytes.Repeat([]byte{0x88}, 40), Pgp: bytes.Repeat([]byte{0x99}, 52)}
		}
		add := func(name string, fails bool, setup func(root string) string) {
			out = append(out, c19scenario{op + " " + name, fails, func(root string) childCmd {
				in(root, 20, 0)
				return cmd(root, setup(root))
			}})
		}
		add("new", false, func(string) string { return "new" })
		add("same", false, func(string) string { return "in" })
		add("same in place", false, func(root string) string {
			in(root, 20, 4000)
			return "in"
		})
		add("symlink to the input", false, func(root string) string {
			must(os.Symlink("in", root+"/l"))
			return "l"
		})
		add("symlink to another", false, func(root string) string {
			must(os.WriteFile(root+"/o", nil, 0644))
			must(os.Symlink("o", root+"/l"))
			return "l"
		})
		add("existing", false, func(root string) string {
			must(os.WriteFile(root+"/o", []byte("o"), 0644))
			return "o"
		})
		add("missing directory", true, func(string) string { return "no/such" })
		add("directory", true, func(root string) string {
			must(os.Mkdir(root+"/d", 0755))
			return "d"
		})
		add("dangling symlink", false, func(root string) string {
			must(os.Symlink("nowhere", root+"/l"))
			return "l"
		})
		add("truncated input", true, func(root string) string {
			b := in(root, 20, 0)
			must(os.WriteFile(root+"/in", b.raw[:b.genEnd-3], 0644))
			return "new"
		})
		add("long payload", false, func(root string) string {
			in(root, 100000, 0)
			return "new"
		})
		if op == "sign" {
			add("damaged payload", true, func(root string) string {
				b := in(root, 20, 0)
				b.raw[len(b.raw)-1] ^= 1
				must(os.WriteFile(root+"/in", b.raw, 0644))
				return "new"
			})
		}
	}
	ents := []cent{
		{name: "./d", mode: mDIR | 0755, nlink: 2},
		{name: "./d/f", mode: mREG | 0644, nlink: 1, data: fileData(1, 300)},
		{name: "./d/h1", mode: mREG | 0644, nlink: 2, ino: 9},
		{name: "./d/h2", mode: mREG | 0644, nlink: 2, ino: 9, data: fileData(2, 40)},
		{name: "./l", mode: mLNK | 0777, nlink: 1, data: []byte("d")},
		{name: "./l/via", mode: mREG | 0644, nlink: 1, data: []byte("x")},
		{name: "./p", mode: mFIF | 0644, nlink: 1},
		{name: "./e1", mode: mREG | 0644, nlink: 2, ino: 8},
		{name: "./e2", mode: mREG | 0644, nlink: 2, ino: 8},
	}
	extract := func(name string, op string, raw func() []byte, fails bool, setup func(dest string)) {
		out = append(out, c19scenario{op + " " + name, fails, func(root string) childCmd {
			must(os.WriteFile(root+"/in", raw(), 0644))
			must(os.Mkdir(root+"/out", 0755))
			setup(root + "/out")
			return childCmd{Op: op, In: root + "/in", Out: root + "/out", Umask: 022}
		}})
	}
	none := func(string) {}
	extract("all kinds", "extract", func() []byte { return archive(ents...) }, false, none)
	for _, cm := range []int{0, 3, 4, 5} {
		extract("all kinds in "+comps[cm].String(), "expand", func() []byte {
			return append(c18make(0).head(tStr(1125, comps[cm].name)), comps[cm].pack(archive(ents...))...)
		}, false, none)
	}
	for k := 0; k < nC19bad; k++ {
		raw, name, setup := c19bad(k)
		if name == "read-only destination" {
			continue
		}
		extract(name, "extract", func() []byte { return raw }, true, setup)
		if k%3 == 0 {
			extract(name, "expand", func() []byte {
				return append(c18make(0).head(tStr(1125, "zstd")), comps[4].pack(raw)...)
			}, true, setup)
		}
	}
	extract("truncated", "extract", func() []byte { b := archive(ents...); return b[:400] }, true, none)
	extract("truncated", "expand", func() []byte {
		return append(c18make(0).head(tStr(1125, "uncompressed")), archive(ents...)[:400]...)
	}, true, none)
	return
}
