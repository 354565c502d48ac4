package main

import (
	"bufio"
	"bytes"
	"crypto"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/ProtonMail/go-crypto/openpgp"
	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// ---------------------------------------------------------------- scheduling

// conc is one of the operations running under the scheduler. It is handed the
// processor through pipes that are read and written with bare system calls:
// the race detector sees no order between two operations that take turns.
type conc struct {
	id     int
	dir    string
	seed   int
	r, w   int // budget pipe
	ctl    int // notices to the controller
	budget int
	points int
	free   bool // no scheduler
	thin   int  // only every thin-th point counts
	passed int
	out    strings.Builder
	done   chan struct{}
}

func pipe() (r, w int) {
	var p [2]int
	must(syscall.Pipe2(p[:], syscall.O_CLOEXEC))
	return p[0], p[1]
}

func rawRead(fd int) byte {
	var b [1]byte
	for {
		n, _, e := syscall.Syscall(syscall.SYS_READ, uintptr(fd), uintptr(unsafe.Pointer(&b[0])), 1)
		if e == syscall.EINTR {
			continue
		}
		if n != 1 {
			panic(fmt.Sprintf("harness: pipe: %d %v", n, e))
		}
		return b[0]
	}
}

func rawWrite(fd int, v byte) {
	b := [1]byte{v}
	for {
		n, _, e := syscall.Syscall(syscall.SYS_WRITE, uintptr(fd), uintptr(unsafe.Pointer(&b[0])), 1)
		if e == syscall.EINTR {
			continue
		}
		if n != 1 {
			panic(fmt.Sprintf("harness: pipe: %d %v", n, e))
		}
		return
	}
}

const toEnd = 255

// point is a scheduling point.
func (c *conc) point() {
	if c.passed++; c.thin > 1 && c.passed%c.thin != 0 {
		return
	}
	c.points++
	if c.free {
		return
	}
	if c.budget == toEnd {
		return
	}
	for c.budget == 0 {
		rawWrite(c.ctl, byte(c.id))
		c.budget = int(rawRead(c.r))
	}
	if c.budget != toEnd {
		c.budget--
	}
}

func (c *conc) logf(format string, args ...any) {
	fmt.Fprintf(&c.out, format, args...)
	c.out.WriteByte('\n')
}

// run is the body of the goroutine.
func (c *conc) run(op func(c *conc)) {
	defer close(c.done)
	defer func() {
		if r := recover(); r != nil {
			c.logf("panic: %v %s", r, trimStack(string(debug.Stack())))
		}
		rawWrite(c.ctl, 128+byte(c.id))
	}()
	c.budget = int(rawRead(c.r))
	op(c)
}

type sched struct {
	op     int
	budget int
}

var pipes [5][2]int

// together runs the operations under a schedule: each step lets one operation
// pass a number of points; at the end all run to their end in order.
func together(ops []func(c *conc), cs []*conc, steps []sched) (trace []string) {
	if pipes[0][1] == 0 {
		for i := range pipes {
			pipes[i][0], pipes[i][1] = pipe()
		}
	}
	fin := make([]bool, len(ops))
	for i, c := range cs {
		c.id, c.done = i, make(chan struct{})
		c.r, c.w, c.ctl = pipes[i+1][0], pipes[i+1][1], pipes[0][1]
		go c.run(ops[i])
	}
	for i := range ops {
		steps = append(steps, sched{i, toEnd})
	}
	for _, s := range steps {
		if fin[s.op] {
			continue
		}
		rawWrite(cs[s.op].w, byte(s.budget))
		v := rawRead(pipes[0][0])
		trace = append(trace, fmt.Sprintf("operation %d runs %s", s.op, map[bool]string{true: "to its end", false: fmt.Sprintf("for %d points", s.budget)}[v >= 128]))
		if int(v&127) != s.op {
			panic("harness: turn taken out of order")
		}
		if v >= 128 {
			fin[s.op] = true
		}
	}
	for _, c := range cs {
		<-c.done
	}
	return
}

// pointStream is a stream with a scheduling point at every read.
type pointStream struct {
	c     *conc
	b     []byte
	chunk int
}

func (s *pointStream) Read(p []byte) (int, error) {
	s.c.point()
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), s.chunk)], s.b)
	s.b = s.b[n:]
	return n, nil
}

func (c *conc) stream(b []byte, reads int) *pointStream {
	return &pointStream{c, b, len(b)/reads + 1}
}

// ---------------------------------------------------------------- operations

type concKind struct {
	name string
	run  func(c *conc)
}

// concPkg is a package whose texts and contents depend on the seed: 1 has the
// same shape as 0 and other values, 2 has another shape.
type concPkg struct {
	b    *built
	arch []byte
}

var concMem sync.Map

func (c *conc) letter() string { return string(rune('a' + c.seed)) }

func makeConcPkg(seed int, compressor string, stripped bool) *concPkg {
	key := fmt.Sprint("conc", seed, compressor, stripped)
	if v, ok := concMem.Load(key); ok {
		return v.(*concPkg)
	}
	l := string(rune('a' + seed))
	big := seed == 2
	cs := &c17case{}
	add := func(name string, mode uint16, size int, link string, ino uint32) {
		i := strings.LastIndexByte(name, '/') + 1
		cs.files = append(cs.files, fileRec{dir: name[:i], base: name[i:], size: uint64(size), mode: mode, link: link, dev: 1, ino: ino,
			user: "u" + l, group: "g" + l, flags: uint32(seed), mtime: uint32(1000 + seed), digest: "d" + l})
		cs.order = append(cs.order, len(cs.files)-1)
	}
	add("/usr/"+l, mREG|0755, 20, "", 1)
	add("/usr/ln"+l, mLNK|0777, 0, "to"+l, 2)
	if big {
		add("/usr/dir"+l, mDIR|0700, 0, "", 3)
	}
	add("/usr/h1"+l, mREG|0600+uint16(seed), 30, "", 9)
	add("/usr/h2"+l, mREG|0600+uint16(seed), 30, "", 9)
	if stripped {
		cs.style = 2
	}
	cs.work()
	p := &concPkg{}
	var ents []cent
	for _, i := range cs.order {
		for j := range cs.content[i] {
			cs.content[i][j] = l[0] + byte(j%16)*2
		}
		e := cs.entry(i)
		if e.ino == 9 {
			e.nlink = 2
		}
		ents = append(ents, e)
	}
	p.arch = archive(ents...)
	pk := newPkg()
	pk.gen = []tagv{
		tStr(1000, "name"+l), tStr(1001, "1."+strconv.Itoa(seed)), tStr(1002, "r"+l), tU32(1003, uint32(seed+1)), tStr(1022, "arch"+l),
		tStr(1124, "cpio"), tU32(1009, uint32(5000+seed)), tStrs(1081, tStrArray, "x"+l, "y"+l), tU64(5009, uint64(7000+seed)), tBytes(1063, []byte{byte(seed), 1, 2}),
	}
	if compressor != "" {
		pk.gen = append(pk.gen, tStr(1125, compressor))
	}
	pk.gen = append(pk.gen, fileTags(cs.files, cs.opt)...)
	pk.lead = buildLead("name"+l, false)
	pk.payload = p.arch
	for _, cm := range comps[:nMainComps] {
		if cm.name == compressor {
			pk.payload = cm.pack(p.arch)
		}
	}
	gen, gt := pk.genHeader()
	tags := append(pk.digestTags(gen), tU32(1007, uint32(len(p.arch))))
	for i, key := range []string{"rsa", "eddsa"} {
		s := sigSpec{key: signerNamed(key).priv, hash: crypto.SHA256, created: 1700000000 + uint32(seed), issuer: issBoth}
		if i == 0 {
			tags = append(tags, tBytes(sigRSA, makeSig(s, gen)))
		} else {
			tags = append(tags, tBytes(sigGPG, makeSig(s, gen, pk.payload)))
		}
	}
	p.b = assemble(pk.lead, tags, pk.sigOpt, &built{gen: gen, genTags: gt, payload: pk.payload})
	v, _ := concMem.LoadOrStore(key, p)
	return v.(*concPkg)
}

// shortened leaves only the order of magnitude of what is bulky.
func (c *conc) dump(what string, v any, err error) {
	if err != nil {
		c.logf("%s: error %v", what, err)
		return
	}
	s := fmt.Sprintf("%v", v)
	if b, ok := v.([]byte); ok {
		h := fnv.New64a()
		h.Write(b)
		s = fmt.Sprintf("%d bytes %x", len(b), h.Sum64())
	}
	c.logf("%s: %s", what, s)
}

func infoText(fi rpmutils.FileInfo) string {
	return fmt.Sprint(fi.Name(), "|", fi.Size(), "|", fi.UserName(), "|", fi.GroupName(), "|", fi.Flags(), "|", fi.Mtime(), "|", fi.Digest(), "|", fi.Mode(), "|", fi.Linkname(), "|", fi.Device(), "|", fi.Inode())
}

// accessors of a header that only read.
type accessor struct {
	name string
	get  func(h *rpmutils.RpmHeader) string
}

func vals(v any, err error) string { return fmt.Sprint(v, " ", err) }

var accessors = func() (out []accessor) {
	add := func(name string, get func(h *rpmutils.RpmHeader) string) { out = append(out, accessor{name, get}) }
	add("HasTag", func(h *rpmutils.RpmHeader) string {
		return fmt.Sprint(h.HasTag(1000), h.HasTag(1), h.HasTag(1007+16777216))
	})
	add("Get string", func(h *rpmutils.RpmHeader) string { return vals(h.Get(1000)) })
	add("Get ints", func(h *rpmutils.RpmHeader) string { return vals(h.Get(1028)) })
	add("Get bin", func(h *rpmutils.RpmHeader) string { return vals(h.Get(1063)) })
	add("GetString", func(h *rpmutils.RpmHeader) string { return vals(h.GetString(1001)) })
	add("GetStrings", func(h *rpmutils.RpmHeader) string { return vals(h.GetStrings(1117)) })
	add("GetStrings one", func(h *rpmutils.RpmHeader) string { return vals(h.GetStrings(1002)) })
	add("GetInt", func(h *rpmutils.RpmHeader) string { return vals(h.GetInt(1003)) })
	add("GetInts", func(h *rpmutils.RpmHeader) string { return vals(h.GetInts(1096)) })
	add("GetInts short", func(h *rpmutils.RpmHeader) string { return vals(h.GetInts(1030)) })
	add("GetUint32", func(h *rpmutils.RpmHeader) string { return vals(h.GetUint32(1009)) })
	add("GetUint32s", func(h *rpmutils.RpmHeader) string { return vals(h.GetUint32s(1030)) })
	add("GetUint64", func(h *rpmutils.RpmHeader) string { return vals(h.GetUint64(5009)) })
	add("GetUint64s", func(h *rpmutils.RpmHeader) string { return vals(h.GetUint64s(1028)) })
	add("GetUint64Fallback", func(h *rpmutils.RpmHeader) string { return vals(h.GetUint64Fallback(1009, 5009)) })
	add("GetBytes", func(h *rpmutils.RpmHeader) string { return vals(h.GetBytes(1063)) })
	add("GetBytes signature", func(h *rpmutils.RpmHeader) string { return vals(h.GetBytes(rpmutils.SIG_RSA)) })
	add("GetNEVRA", func(h *rpmutils.RpmHeader) string {
		n, err := h.GetNEVRA()
		if err != nil {
			return err.Error()
		}
		return n.String()
	})
	add("GetFiles", func(h *rpmutils.RpmHeader) string {
		fs, err := h.GetFiles()
		s := fmt.Sprint(err)
		for _, f := range fs {
			s += "\n" + infoText(f)
		}
		return s
	})
	add("InstalledSize", func(h *rpmutils.RpmHeader) string { return vals(h.InstalledSize()) })
	add("PayloadSize", func(h *rpmutils.RpmHeader) string { return vals(h.PayloadSize()) })
	add("IsSource", func(h *rpmutils.RpmHeader) string { return fmt.Sprint(h.IsSource()) })
	add("GetRange", func(h *rpmutils.RpmHeader) string { return fmt.Sprint(h.GetRange()) })
	add("OriginalSignatureHeaderSize", func(h *rpmutils.RpmHeader) string { return fmt.Sprint(h.OriginalSignatureHeaderSize()) })
	add("missing tag", func(h *rpmutils.RpmHeader) string { return vals(h.GetStrings(4000)) })
	add("wrong type", func(h *rpmutils.RpmHeader) string { return vals(h.GetInts(1000)) })
	return
}()

var sharedOpts = &rpmutils.SignatureOptions{CreationTime: fixedTime}
var sharedRing = func() openpgp.EntityList { return ring(keyNames...) }()

func (c *conc) sigs(sigs []*rpmutils.Signature) {
	for _, s := range sigs {
		who := "nobody"
		if s.Signer != nil {
			for name := range s.Signer.Identities {
				who = name
			}
		}
		c.logf("signature by %s %x %v %v %v", who, s.KeyId, s.CreationTime.Unix(), s.Hash, s.HeaderOnly)
	}
}

func (c *conc) payload(compressor string, stripped, wrap bool, read int) {
	b := makeConcPkg(c.seed, compressor, stripped).b
	var r io.Reader = bytes.NewReader(b.raw)
	if wrap {
		r = io.MultiReader(bytes.NewReader(b.raw[:b.genEnd-8]), c.stream(b.raw[b.genEnd-8:], 5))
	}
	rpm, err := rpmutils.ReadRpm(r)
	c.dump("ReadRpm", "ok", err)
	if err != nil {
		return
	}
	c.point()
	pr, err := rpm.PayloadReaderExtended()
	c.dump("PayloadReaderExtended", "ok", err)
	if err != nil {
		return
	}
	var kept []rpmutils.FileInfo
	for {
		c.point()
		fi, err := pr.Next()
		if err != nil {
			c.logf("Next: %v", err)
			break
		}
		kept = append(kept, fi)
		c.logf("%s link %v", infoText(fi), pr.IsLink())
		buf := make([]byte, read)
		for {
			n, err := pr.Read(buf)
			c.logf("%q %v", buf[:n], err)
			if err != nil || n == 0 {
				break
			}
			c.point()
		}
	}
	for _, fi := range kept {
		c.logf("%s", infoText(fi))
	}
	n, err := rpm.Header.GetNEVRA()
	c.dump("NEVRA", n, err)
}

func (c *conc) tree(dest string) {
	c.out.WriteString(snapText(snapshot(dest)))
}

var concKinds = []concKind{
	{"read a header", func(c *conc) {
		b := makeConcPkg(c.seed, "", false).b
		h, err := rpmutils.ReadHeader(c.stream(b.raw, 6))
		c.dump("ReadHeader", "ok", err)
		if err != nil {
			return
		}
		for i, a := range accessors {
			if i%7 == 0 {
				c.point()
			}
			c.logf("%s: %s", a.name, a.get(h))
		}
		for _, same := range []bool{false, true} {
			c.point()
			d, err := h.DumpSignatureHeader(same)
			c.dump("DumpSignatureHeader", d, err)
		}
	}},
	{"read a gzip payload", func(c *conc) { c.payload("gzip", false, true, 16) }},
	{"read a stripped payload", func(c *conc) { c.payload("", true, true, 16) }},
	{"read an xz payload", func(c *conc) { c.payload("xz", false, true, 64) }},
	{"read a zstd payload", func(c *conc) { c.payload("zstd", false, false, 16) }},
	{"read an archive", func(c *conc) {
		p := makeConcPkg(c.seed, "", false)
		r := cpio.NewReader(c.stream(p.arch, 8))
		var kept []*cpio.Cpio_newc_header
		for {
			h, err := r.Next()
			if err != nil {
				c.logf("Next: %v", err)
				break
			}
			kept = append(kept, h)
			c.point()
			b, err := io.ReadAll(r)
			c.logf("%s %q %v", h.Filename(), b, err)
		}
		for _, h := range kept {
			c.logf("%+v", *h)
		}
	}},
	{"read a stream of entries", func(c *conc) {
		p := makeConcPkg(c.seed, "", false)
		s := cpio.NewCpioStream(c.stream(p.arch, 8))
		for {
			e, err := s.ReadNextEntry()
			if err != nil {
				c.logf("ReadNextEntry: %v", err)
				return
			}
			c.point()
			c.logf("%+v", *e.Header)
			if e.Header.Filename() == cpio.TRAILER {
				return
			}
		}
	}},
	{"extract an archive", func(c *conc) {
		p := makeConcPkg(c.seed, "", false)
		c.dump("Extract", "ok", cpio.Extract(c.stream(p.arch, 10), c.dir))
		c.point()
		c.tree(c.dir)
	}},
	{"expand a bzip2 payload", func(c *conc) {
		b := makeConcPkg(c.seed, "bzip2", false).b
		rpm, err := rpmutils.ReadRpm(io.MultiReader(bytes.NewReader(b.raw[:b.genEnd]), c.stream(b.raw[b.genEnd:], 8)))
		c.dump("ReadRpm", "ok", err)
		if err != nil {
			return
		}
		c.point()
		c.dump("ExpandPayload", "ok", rpm.ExpandPayload(c.dir))
		c.point()
		c.tree(c.dir)
	}},
	{"verify", func(c *conc) {
		b := makeConcPkg(c.seed, "", false).b
		h, sigs, err := rpmutils.Verify(c.stream(b.raw, 10), sharedRing)
		c.dump("Verify", "ok", err)
		c.point()
		c.sigs(sigs)
		if h != nil {
			n, err := h.GetNEVRA()
			c.dump("NEVRA", n, err)
		}
	}},
	{"sign a stream", func(c *conc) {
		b := makeConcPkg(c.seed, "", false).b
		h, err := rpmutils.SignRpmStream(c.stream(b.raw, 10), signerNamed("eddsa").priv, sharedOpts)
		c.dump("SignRpmStream", "ok", err)
		if err != nil {
			return
		}
		c.point()
		d, err := h.DumpSignatureHeader(false)
		c.dump("DumpSignatureHeader", d, err)
	}},
	{"sign a file", func(c *conc) {
		b := makeConcPkg(c.seed, "", false).b
		in, out := filepath.Join(c.dir, "in"), filepath.Join(c.dir, "out")
		must(os.WriteFile(in, b.raw, 0644))
		f, err := os.Open(in)
		must(err)
		defer f.Close()
		c.point()
		h, err := rpmutils.SignRpmFile(f, out, signerNamed("eddsa").priv, sharedOpts)
		c.dump("SignRpmFile", "ok", err)
		c.point()
		d, err := os.ReadFile(out)
		c.dump("output", d, err)
		if h != nil {
			d, err = h.DumpSignatureHeader(true)
			c.dump("header", d, err)
		}
		c.point()
		h, err = rpmutils.RewriteWithSignatures(f, in, []byte("pgp"+c.letter()), []byte("rsa"+c.letter()))
		c.dump("RewriteWithSignatures", "ok", err)
		c.point()
		d, err = os.ReadFile(in)
		c.dump("output", d, err)
		c.point()
		names, err := os.ReadDir(c.dir)
		c.dump("directory", len(names), err)
	}},
	{"compare versions", func(c *conc) {
		vs := []string{"1.0", "1.0~rc" + c.letter(), "1.0^" + c.letter(), "2" + c.letter(), "1.00" + strconv.Itoa(c.seed), "~", ""}
		for i, a := range vs {
			if i%2 == 0 {
				c.point()
			}
			for _, b := range vs {
				c.logf("%q %q %d", a, b, rpmutils.Vercmp(a, b))
			}
		}
		var l rpmutils.NEVRASlice
		for i, v := range vs {
			l = append(l, rpmutils.NEVRA{Name: string(rune('a' + (i*3+c.seed)%4)), Epoch: strconv.Itoa(i % 2), Version: v, Release: c.letter(), Arch: "x"})
		}
		c.point()
		sort.Sort(pointSort{c, l, new(int)})
		c.logf("%v", l)
		s := rpmutils.VersionSlice(vs)
		c.point()
		sort.Sort(s)
		c.logf("%v", s)
		for _, n := range l[:3] {
			c.point()
			c.logf("%s", n.String())
		}
	}},
	{"fail", func(c *conc) {
		p := makeConcPkg(c.seed, "gzip", false)
		raw := p.b.raw
		_, err := rpmutils.ReadHeader(c.stream(raw[:p.b.genEnd-10], 4))
		c.dump("ReadHeader", "ok", err)
		c.point()
		bad := bytes.Clone(raw)
		bad[p.b.genEnd-3] ^= 1
		_, _, err = rpmutils.Verify(c.stream(bad, 3), sharedRing)
		c.dump("Verify", "ok", err)
		c.point()
		bad = bytes.Clone(p.arch)
		bad[3] = '9'
		err = cpio.Extract(c.stream(p.arch[:300], 3), c.dir)
		c.dump("Extract", "ok", err)
		c.point()
		err = cpio.Extract(bytes.NewReader(bad), c.dir)
		c.dump("Extract", "ok", err)
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(raw[:len(raw)-9]))
		c.dump("ReadRpm", "ok", err)
		if err == nil {
			c.point()
			c.dump("ExpandPayload", "ok", rpm.ExpandPayload(c.dir))
		}
		c.point()
		c.tree(c.dir)
	}},
}

// pointSort has a scheduling point at some of the comparisons.
type pointSort struct {
	c *conc
	rpmutils.NEVRASlice
	n *int
}

func (p pointSort) Less(i, j int) bool {
	if *p.n++; *p.n%5 == 0 {
		p.c.point()
	}
	return p.NEVRASlice.Less(i, j)
}

// ---------------------------------------------------------------- parts

type soloKey struct{ thin, kind, seed int }
type soloVal struct {
	out    string
	points int
}

// normal hides the directory the operation had to itself.
func normal(s, dir string) string { return strings.ReplaceAll(s, dir, "DIR") }

func (x *X) concSolo(thin, kind, seed int) soloVal {
	k := soloKey{thin, kind, seed}
	m, _ := x.w.mem["solo"].(map[soloKey]soloVal)
	if m == nil {
		m = map[soloKey]soloVal{}
		x.w.mem["solo"] = m
	}
	if v, ok := m[k]; ok {
		return v
	}
	var v soloVal
	for i := 0; i < 2; i++ {
		outs, points, err := x.concAsk(thin, []int{kind}, []int{seed}, nil)
		if err != nil {
			x.Fail("%s: alone: %v", concKinds[kind].name, err)
		}
		if i > 0 && (outs[0] != v.out || points[0] != v.points) {
			x.Fail("%s: alone, a second run gives (%d points)\n%s\nand the first (%d points)\n%s", concKinds[kind].name, points[0], outs[0], v.points, v.out)
		}
		v = soloVal{outs[0], points[0]}
	}
	m[k] = v
	return v
}

func firstDiff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := range w {
		if i >= len(g) {
			return fmt.Sprintf("line %d is missing: %.300s", i, w[i])
		}
		if w[i] != g[i] {
			return fmt.Sprintf("line %d: %.600s, alone %.300s", i, strings.Join(g[i:min(i+20, len(g))], " / "), w[i])
		}
	}
	return "longer"
}

// concCase is a choice of operations and a schedule.
func concCase(x *X, points []int, preempt int) (steps []sched) {
	n := len(points)
	// which operation starts, and who goes on when it is interrupted
	cur := x.Choose(n)
	passed := make([]int, n)
	for p := 0; p < preempt; p++ {
		left := points[cur] - passed[cur]
		// stop at any of the remaining points, or not at all
		k := x.Choose(left + 1)
		if k == left {
			steps = append(steps, sched{cur, toEnd})
			passed[cur] = points[cur]
		} else {
			steps = append(steps, sched{cur, k})
			passed[cur] += k
		}
		var others []int
		for o := 0; o < n; o++ {
			if o != cur && passed[o] < points[o] {
				others = append(others, o)
			}
		}
		if len(others) == 0 {
			return
		}
		cur = others[x.Choose(len(others))]
	}
	// the last one to be given the processor keeps it
	return append(steps, sched{cur, toEnd})
}

func concRun(x *X, thin int, kinds, seeds []int, steps []sched) {
	x.State(fmt.Sprint(kinds, seeds, steps))
	for i, k := range kinds {
		x.Logf("operation %d: %s (data %d)", i, concKinds[k].name, seeds[i])
	}
	for _, s := range steps {
		x.Logf("operation %d runs %s", s.op, map[bool]string{true: "to its end", false: fmt.Sprintf("for %d points", s.budget)}[s.budget == toEnd])
	}
	outs, _, err := x.concAsk(thin, kinds, seeds, steps)
	if err != nil {
		x.Fail("%v", err)
	}
	x.StepN(len(steps) + len(kinds))
	for i, k := range kinds {
		want := x.concSolo(thin, k, seeds[i])
		if outs[i] != want.out {
			x.Fail("operation %d (%s): %s", i, concKinds[k].name, firstDiff(want.out, outs[i]))
		}
		x.Outcome(outs[i])
	}
	x.Validated()
}

func rawPipePair(x *X, f, g func()) {
	cs := []*conc{{}, {}}
	together([]func(*conc){func(*conc) { f() }, func(*conc) { g() }}, cs, nil)
}

// concServer is a process that runs operations under schedules.
type concServer struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err bytes.Buffer
}

func startConc(x *X) *concServer {
	self, e := os.Executable()
	must(e)
	s := &concServer{cmd: exec.Command(self, "conc", x.w.dir)}
	var err error
	s.in, err = s.cmd.StdinPipe()
	must(err)
	out, err := s.cmd.StdoutPipe()
	must(err)
	s.out = bufio.NewReaderSize(out, 1<<20)
	s.cmd.Stderr = &s.err
	must(s.cmd.Start())
	return s
}

// ask has one case run.
func (s *concServer) ask(warm bool, thin int, kinds, seeds []int, steps []sched) (outs []string, points []int, err error) {
	var args []string
	if warm {
		args = append(args, "w")
	}
	args = append(args, strconv.Itoa(thin))
	for i := range kinds {
		args = append(args, fmt.Sprintf("%d:%d", kinds[i], seeds[i]))
	}
	args = append(args, "-")
	for _, s := range steps {
		args = append(args, fmt.Sprintf("%d:%d", s.op, s.budget))
	}
	io.WriteString(s.in, strings.Join(args, " ")+"\n")
	text, err := s.out.ReadString(3)
	if err != nil {
		err = s.cmd.Wait()
		return nil, nil, fmt.Errorf("the process does not survive (%v): %.3000s", err, s.err.String())
	}
	for _, r := range strings.Split(text[:len(text)-1], "\x01")[1:] {
		n, t, _ := strings.Cut(r, "\x02")
		p, _ := strconv.Atoi(n)
		outs, points = append(outs, t), append(points, p)
	}
	return
}

func (s *concServer) end() error {
	s.in.Close()
	if err := s.cmd.Wait(); err != nil {
		return fmt.Errorf("the process ends badly (%v): %.3000s", err, s.err.String())
	}
	return nil
}

// concAsk uses the worker's server.
func (x *X) concAsk(thin int, kinds, seeds []int, steps []sched) ([]string, []int, error) {
	s, _ := x.w.mem["conc"].(*concServer)
	if s == nil {
		s = startConc(x)
		x.w.mem["conc"] = s
		for k := range concKinds {
			for seed := 0; seed < 3; seed++ {
				if _, _, err := s.ask(true, 1, []int{k}, []int{seed}, nil); err != nil {
					delete(x.w.mem, "conc")
					return nil, nil, err
				}
			}
		}
	}
	outs, points, err := s.ask(false, thin, kinds, seeds, steps)
	if err != nil {
		delete(x.w.mem, "conc")
	}
	return outs, points, err
}

// freshRun uses a new process.
func freshRun(x *X, thin int, kinds, seeds []int, steps []sched) (outs []string, points []int, err error) {
	s := startConc(x)
	outs, points, err = s.ask(false, thin, kinds, seeds, steps)
	if err == nil {
		err = s.end()
	}
	return
}

// processState is what all operations of a process share.
func processState() string {
	cwd, err := os.Getwd()
	status, err2 := os.ReadFile("/proc/self/status")
	umask := ""
	for _, l := range strings.Split(string(status), "\n") {
		if strings.HasPrefix(l, "Umask:") {
			umask = l
		}
	}
	return fmt.Sprintf("directory %s %v %v, %s, %q", cwd, err, err2, umask, os.Environ())
}

// concMain runs one case per line of its input.
func concMain(args []string) {
	syscall.Umask(022)
	x := &X{w: &workerCtx{dir: args[0], mem: map[string]any{}}}
	two := func(s string) (a, b int) {
		fmt.Sscanf(s, "%d:%d", &a, &b)
		return
	}
	state := processState()
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		args := strings.Fields(in.Text())
		var cs []*conc
		var ops []func(*conc)
		var steps []sched
		if args[0] == "w" {
			args = args[1:]
		}
		thin, _ := strconv.Atoi(args[0])
		args = args[1:]
		for args[0] != "-" {
			k, seed := two(args[0])
			cs = append(cs, &conc{dir: x.fresh(fmt.Sprintf("op%d", len(cs))), seed: seed, thin: thin})
			ops = append(ops, concKinds[k].run)
			// making the packages is not part of the operation
			for _, c := range []string{"", "gzip", "xz", "zstd", "bzip2"} {
				makeConcPkg(seed, c, false)
			}
			makeConcPkg(seed, "", true)
			args = args[1:]
		}
		for _, s := range args[1:] {
			o, b := two(s)
			steps = append(steps, sched{o, b})
		}
		if len(ops) == 1 {
			cs[0].free = true
			ops[0](cs[0])
		} else {
			together(ops, cs, steps)
		}
		var b strings.Builder
		for _, c := range cs {
			fmt.Fprintf(&b, "\x01%d\x02%s", c.points, normal(c.out.String(), c.dir))
		}
		b.WriteByte(3)
		if s := processState(); s != state {
			fmt.Fprintf(os.Stderr, "the operations changed the process: %s, before %s", s, state)
			os.Exit(4)
		}
		os.Stdout.WriteString(b.String())
	}
}

func init() {
	register(&Prop{
		ID: "C20",
		Assumptions: []string{
			"scheduling points are the reads of an operation's stream and the calls it makes; what lies between is covered by the race detector, which sees no order between the operations in the race build",
			"the streams of zstd payloads have no scheduling points, because the decoder reads in a goroutine of its own",
		},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			nk := len(concKinds)
			pair := func(x *X, thin int) (kinds, seeds, points []int) {
				a := x.Choose(nk)
				b := a + x.Choose(nk-a)
				kinds, seeds = []int{a, b}, []int{0, 1 + x.Choose(2)}
				for i := range kinds {
					points = append(points, x.concSolo(thin, kinds[i], seeds[i]).points)
				}
				return
			}
			pairs := func(name, desc string, thin, preempt int, race bool) *Part {
				if thin > 1 {
					desc = fmt.Sprintf("%s; every %d. point", desc, thin)
				}
				return &Part{
					Name:    name,
					Desc:    fmt.Sprintf("all pairs of %d operations, the second one's data of the same or of another shape; all schedules with up to %d preemptions%s", nk, preempt, desc),
					Scratch: true, CGO: race,
					Run: func(x *X) {
						kinds, seeds, points := pair(x, thin)
						concRun(x, thin, kinds, seeds, concCase(x, points, preempt))
					},
				}
			}
			const judged = ", judged by the race detector, to which the operations are unordered"
			parts := []*Part{
				pairs("schedules", "", map[bool]int{true: 1, false: 2}[thorough], 2, false),
				pairs("schedules-race", judged, 1, 1, true),
				{
					Name:    "accessors-race",
					Desc:    fmt.Sprintf("all ordered pairs of %d accessors on one header that was just read, unordered to the race detector; likewise the methods of FileInfo", len(accessors)),
					Workers: 1, Scratch: true, CGO: true,
					Run: func(x *X) {
						a, b := x.Choose(len(accessors)), x.Choose(len(accessors))
						p := makeConcPkg(0, "", false).b
						read := func() *rpmutils.RpmHeader {
							h, err := rpmutils.ReadHeader(bytes.NewReader(p.raw))
							must(err)
							return h
						}
						h := read()
						var ra, rb string
						rawPipePair(x, func() { ra = accessors[a].get(h) }, func() { rb = accessors[b].get(h) })
						x.StepN(2)
						x.State(a, b)
						x.Logf("%s, then %s", accessors[a].name, accessors[b].name)
						for i, r := range []string{ra, rb} {
							acc := accessors[[]int{a, b}[i]]
							if want := acc.get(read()); r != want {
								x.Fail("%s: %s, want %s", acc.name, r, want)
							}
						}
						if a == 0 && b == 0 {
							fs, err := h.GetFiles()
							must(err)
							for _, f := range fs {
								var t1, t2 string
								rawPipePair(x, func() { t1 = infoText(f) }, func() { t2 = infoText(f) })
								x.Check(t1 == t2, "FileInfo: %s, then %s", t1, t2)
							}
						}
						x.Validated()
					},
				},
				{
					Name:    "fresh-process",
					Desc:    "the same pairs as the first thing a process does, schedules with one preemption at every seventh (thorough: second) point, judged by the race detector; results compared with those of processes that only run one operation",
					Scratch: true, CGO: true,
					Run: func(x *X) {
						thin := 7
						if thorough {
							thin = 2
						}
						a := x.Choose(nk)
						b := a + x.Choose(nk-a)
						kinds, seeds := []int{a, b}, []int{0, 1}
						var points []int
						var want []string
						for i := range kinds {
							k := fmt.Sprint("fresh", kinds[i], seeds[i])
							v, ok := concMem.Load(k)
							if !ok {
								o, p, err := freshRun(x, thin, kinds[i:i+1], seeds[i:i+1], nil)
								if err != nil {
									x.Fail("%s alone: %v", concKinds[kinds[i]].name, err)
								}
								v = soloVal{o[0], p[0]}
								concMem.Store(k, v)
							}
							points = append(points, v.(soloVal).points)
							want = append(want, v.(soloVal).out)
						}
						first := x.Choose(2)
						k := x.Choose(points[first] + 1)
						x.Logf("%s and %s in a new process; operation %d is interrupted at point %d", concKinds[a].name, concKinds[b].name, first, k)
						steps := []sched{{first, k}, {1 - first, toEnd}}
						x.State(fmt.Sprint(kinds, steps))
						outs, _, err := freshRun(x, thin, kinds, seeds, steps)
						if err != nil {
							x.Fail("%v", err)
						}
						x.StepN(3)
						for i := range kinds {
							if outs[i] != want[i] {
								x.Fail("operation %d (%s): %s", i, concKinds[kinds[i]].name, firstDiff(want[i], outs[i]))
							}
						}
						x.Validated()
					},
				},
			}
			parts = append(parts, c20sysParts(thorough)...)
			if thorough {
				const thin = 7
				parts = append(parts, pairs("schedules-3", "", 4, 3, false), pairs("schedules-race-2", judged, 3, 2, true), &Part{
					Name:    "three",
					Desc:    fmt.Sprintf("all triples of %d operations, all schedules with up to 2 preemptions at every %d. point", nk, thin),
					Scratch: true,
					Run: func(x *X) {
						a := x.Choose(nk)
						b := a + x.Choose(nk-a)
						c := b + x.Choose(nk-b)
						kinds, seeds := []int{a, b, c}, []int{0, 1, 2}
						var points []int
						for i := range kinds {
							points = append(points, x.concSolo(thin, kinds[i], seeds[i]).points)
						}
						concRun(x, thin, kinds, seeds, concCase(x, points, 2))
					},
				})
			}
			return parts
		},
	})
}
