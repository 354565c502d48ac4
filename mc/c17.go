package main

import (
	"bytes"
	"fmt"
	"io"
	"slices"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// c17kind is a kind of packaged file.
type c17kind struct {
	mode  uint16
	size  int
	link  string
	dev   uint32
	ino   int // -1: of its own
	flags uint32
}

var c17kinds = []c17kind{
	{mREG | 0644, 5, "", 1, -1, 0},
	{mREG | 0644, 6, "", 1, 40, 0},
	{mLNK | 0777, 0, "some/where", 1, -1, 0},
	{mDIR | 0755, 4096, "", 1, -1, 0},
	{mREG | 0644, 6, "", 1, 40, 1 << 6}, // ghost on the inode of a group
	{mREG | 0600, 0, "", 1, 0, 0},
	{mREG | 0600, 3, "", 1, 0, 0}, // inode 0 belongs to nobody
	{mREG | 0644, 9, "", 2, 40, 0},
	{mREG | 0644, 2, "", 0, 40, 1},
	{mFIF | 0644, 0, "", 1, 40, 0},
	{mCHR | 0644, 0, "", 1, 40, 0},
	{mLNK | 0777, 0, "t", 1, 40, 0},
	{mREG | 0644, 7, "", 3, -1, 1 << 6},
	{mREG | 0644, 1 << 16, "", 3, -1, 0},
}

// c17case is a package with its payload.
type c17case struct {
	files []fileRec
	opt   fileOpt
	order []int // header index of each payload entry; -1 for one of no file
	style int   // 0 "./name", 1 "name", 2 stripped
	// as they have to come out
	content map[int][]byte
	isLink  map[int]bool
}

func (c *c17case) work() {
	c.content, c.isLink = map[int][]byte{}, map[int]bool{}
	last := map[[2]uint32]int{}
	for i, f := range c.files {
		switch uint32(f.mode) &^ 07777 {
		case mREG:
			c.content[i] = fileData(i+1, int(f.size))
			if f.ino == 0 || f.flags&(1<<6) != 0 {
				continue
			}
			k := [2]uint32{f.dev, f.ino}
			if l, ok := last[k]; ok {
				c.isLink[l] = true
				c.content[l] = nil
			}
			last[k] = i
		case mLNK:
			c.content[i] = []byte(f.link)
		}
	}
}

func (c *c17case) entry(i int) cent {
	if i < 0 {
		e := cent{name: []string{"./nobody", "nobody", ""}[c.style], mode: mREG | 0644, nlink: 1, data: []byte("what?")}
		if c.style == 2 {
			e = cent{stripped: true, index: len(c.files), data: []byte("what?")}
		}
		return e
	}
	f := c.files[i]
	if c.style == 2 {
		return cent{stripped: true, index: i, data: c.content[i]}
	}
	n := f.name()
	if strings.HasPrefix(n, "/") && c.style == 0 {
		n = "." + n
	}
	return cent{name: n, mode: uint32(f.mode), nlink: 1, ino: f.ino, devmajor: f.dev, data: c.content[i]}
}

func (c *c17case) payload() []byte {
	var es []cent
	for _, i := range c.order {
		es = append(es, c.entry(i))
	}
	return archive(es...)
}

func (c *c17case) pkg() *pkg {
	p := newPkg()
	p.gen = append(p.gen, fileTags(c.files, c.opt)...)
	p.payload = c.payload()
	return p
}

// check reads the package's payload and compares; use tells how each file is read.
func (c *c17case) check(x *X, rpm *rpmutils.Rpm, use func(k int) int, what string) {
	x.Step()
	pr, err := rpm.PayloadReaderExtended()
	if err != nil {
		x.Fail("%s: PayloadReaderExtended: %v", what, err)
	}
	for k, i := range c.order {
		x.Step()
		fi, err := pr.Next()
		if i < 0 {
			if err == nil {
				x.Fail("%s: entry %d belongs to no file and is presented as %q", what, k, fi.Name())
			} else if err == io.EOF {
				x.Fail("%s: entry %d belongs to no file and ends the payload", what, k)
			}
			x.Validated()
			return
		}
		f := c.files[i]
		if err != nil {
			x.Fail("%s: Next %d: %v, want %q", what, k, err, f.name())
		}
		if err := matchFile(fi, f, c.opt); err != nil {
			x.Fail("%s: entry %d is paired with another file: %v", what, k, err)
		}
		if pr.IsLink() != c.isLink[i] {
			x.Fail("%s: IsLink is %v at %q (file %d)", what, pr.IsLink(), f.name(), i)
		}
		readAs(x, pr, use(k), c.content[i], fmt.Sprintf("%s: %q (file %d)", what, f.name(), i))
		if pr.IsLink() != c.isLink[i] {
			x.Fail("%s: IsLink changes to %v at %q after reading", what, pr.IsLink(), f.name())
		}
	}
	x.Step()
	if fi, err := pr.Next(); err != io.EOF {
		x.Fail("%s: at the end Next gives (%v, %v)", what, fi, err)
	}
	x.Validated()
}

// readAs reads the current file in one of several ways.
func readAs(x *X, r io.Reader, use int, want []byte, what string) {
	switch use {
	case 0: // in full
		x.Step()
		got, err := io.ReadAll(r)
		if err != nil || !bytes.Equal(got, want) {
			x.Fail("%s: content is %.40q (%d bytes, error %v), want %.40q (%d)", what, got, len(got), err, want, len(want))
		}
	case 1: // skip
	case 2: // one byte
		b := make([]byte, 1)
		x.Step()
		n, err := r.Read(b)
		if n > len(want) || n == 1 && b[0] != want[0] || n == 0 && len(want) > 0 && err != nil || n == 0 && len(want) == 0 && err != io.EOF {
			x.Fail("%s: first byte is %q (%d, %v), want %.10q", what, b, n, err, want)
		}
	case 3: // two bytes at a time and beyond
		var got []byte
		for i := 0; ; i++ {
			b := make([]byte, 2)
			x.Step()
			n, err := r.Read(b)
			got = append(got, b[:n]...)
			if err == io.EOF {
				break
			}
			if err != nil || len(got) > len(want) || i > len(want)+10 {
				x.Fail("%s: content is %.40q, error %v, want %.40q", what, got, err, want)
			}
		}
		if !bytes.Equal(got, want) {
			x.Fail("%s: content is %.40q, want %.40q", what, got, want)
		}
		if n, err := r.Read(make([]byte, 1)); n != 0 || err != io.EOF {
			x.Fail("%s: after the end (%d, %v)", what, n, err)
		}
	}
}

// oddNames are base names that are distinct but easily confused.
var oddNames = []string{"a", "A", "a ", " a", "a\n", "\ta", "a\r", "\v", " ", "a b", "a\\b", "a\\", "...", "..a", "a..", ".a", "a.", "~", "-rf", "*", "%s", "a%2f", "\xff", "\xc3\xa9", "e\xcc\x81", "\xef\xbb\xbfa",
	"TRAILER!!", "TRAILER!!!x", "trailer!!!", "\u00a0a"}

var c17places = []struct{ dir, base string }{{"/usr/bin/", "a"}, {"/", ""}, {"/etc/", ".b"}, {"/usr/", "bin"}, {"/", "a.b"}}

func c17files(x *X, n, kinds int, source bool) []fileRec {
	var files []fileRec
	for i := 0; i < n; i++ {
		k := c17kinds[x.Choose(kinds)]
		f := fileRec{dir: c17places[i].dir, base: c17places[i].base, size: uint64(k.size), user: fmt.Sprintf("u%d", i), group: "g", flags: k.flags, mtime: uint32(100 + i), mode: k.mode, link: k.link, dev: k.dev, ino: uint32(k.ino)}
		if source {
			f.dir = ""
			f.base = []string{"a", "b.spec", "c.tar", "./d", "e"}[i]
			if i == 3 {
				f.base = "d"
			}
		}
		if k.ino < 0 {
			f.ino = uint32(i + 1)
		}
		if k.mode&^07777 == mREG {
			f.digest = fmt.Sprintf("%064x", i)
		}
		files = append(files, f)
	}
	return files
}

// permutation k of n elements (n <= 4).
func permutation(k int, in []int) []int {
	var out []int
	in = append([]int{}, in...)
	for n := len(in); n > 0; n-- {
		out = append(out, in[k%n])
		in = append(in[:k%n], in[k%n+1:]...)
		k /= n
	}
	return out
}

func factorial(n int) int {
	if n < 2 {
		return 1
	}
	return n * factorial(n-1)
}

func init() {
	register(&Prop{
		ID:     "C17",
		Bits32: func(part string) bool { return part != "inode-pairs" && part != "inode-bits" && part != "high-index" },
		Assumptions: []string{"file names of a package are distinct; a hard-link group is what rpm takes for one: regular files that are not ghosts with the same device and non-zero inode",
			"names in the header are absolute and stored in the payload with or without '.' before, or plain (source packages) and stored alike",
			"on platforms with 32-bit integers the numbers in entry headers stay below 2^31 (others are refused, since the accessors return int)"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			lists := func(name string, n, kinds int, source bool) *Part {
				return &Part{
					Name: name,
					Desc: fmt.Sprintf("every file list of %d files of %d kinds (ghosts, link groups, shared inodes on several devices, inode 0, devices), every payload order, 3 entry forms, with one entry of no file at every place or one file missing, 4 ways of reading; source package: %v", n, kinds, source),
					Run: func(x *X) {
						c := &c17case{files: c17files(x, n, kinds, source)}
						c.work()
						c.style = x.Choose(3)
						var present []int
						for i, f := range c.files {
							if f.flags&(1<<6) == 0 {
								present = append(present, i)
							}
						}
						c.order = permutation(x.Choose(factorial(len(present))), present)
						if k := x.Choose(2*len(c.order) + 2); k > 0 {
							k--
							if k < len(c.order) {
								c.order = append(append([]int{}, c.order[:k]...), c.order[k+1:]...)
							} else {
								k -= len(c.order)
								c.order = append(append(append([]int{}, c.order[:k]...), -1), c.order[k:]...)
							}
						}
						x.State(x.prefix())
						use := x.Choose(4)
						raw := c.pkg().build().raw
						rpm, err := rpmutils.ReadRpm(bytes.NewReader(raw))
						if err != nil {
							x.Fail("ReadRpm: %v", err)
						}
						what := fmt.Sprintf("files %v, order %v, form %d, reading %d", c.describe(), c.order, c.style, use)
						x.Logf("%s", what)
						c.check(x, rpm, func(int) int { return use }, what)
					},
				}
			}
			parts := []*Part{
				lists("one-file", 1, len(c17kinds), false),
				lists("two-files", 2, len(c17kinds), false),
				lists("three-files", 3, map[bool]int{false: 9, true: len(c17kinds)}[thorough], false),
				lists("source", 2, 9, true),
				{
					Name: "call-sequences",
					Desc: "2 packages of 4 files in 3 forms, header and stream chunkings, stored sizes and names in every form, every combination of 4 ways of reading the files",
					Run: func(x *X) {
						c := &c17case{opt: fileOpt{old: x.Bool(), sizes: x.Choose(3), noDev: x.Bool()}}
						for i, k := range [][]int{{1, 0, 1, 2}, {0, 3, 2, 6}}[x.Choose(2)] {
							kd := c17kinds[k]
							f := fileRec{dir: c17places[i].dir, base: c17places[i].base, size: uint64(kd.size), mode: kd.mode, link: kd.link, dev: kd.dev, ino: uint32(i + 1)}
							if kd.ino >= 0 {
								f.ino = uint32(kd.ino)
							}
							c.files = append(c.files, f)
							c.order = append(c.order, i)
						}
						c.work()
						c.style = x.Choose(3)
						ch := x.Choose(nChunkModes)
						uses := []int{x.Choose(4), x.Choose(4), x.Choose(4), x.Choose(4)}
						rpm, err := rpmutils.ReadRpm(newChunk(c.pkg().build().raw, ch))
						if err != nil {
							x.Fail("ReadRpm: %v", err)
						}
						x.State(x.prefix())
						what := fmt.Sprintf("files %v, form %d, options %+v, chunks %d, reading %v", c.describe(), c.style, c.opt, ch, uses)
						x.Logf("%s", what)
						c.check(x, rpm, func(k int) int { return uses[k] }, what)
					},
				},
				{
					Name: "chunkings",
					Desc: "package of 5 files cut in two at every byte, in 3 forms",
					Run: func(x *X) {
						c := &c17case{style: x.Choose(3), order: []int{0, 1, 2, 3, 4}}
						for i, k := range []int{1, 2, 0, 3, 1} {
							kd := c17kinds[k]
							c.files = append(c.files, fileRec{dir: c17places[i].dir, base: c17places[i].base, size: uint64(kd.size), mode: kd.mode, link: kd.link, dev: kd.dev, ino: uint32(max(kd.ino, i+1))})
						}
						c.work()
						raw := c.pkg().build().raw
						cut := x.Choose(len(raw))
						x.State(x.prefix())
						rpm, err := rpmutils.ReadRpm(cutAt(raw, cut))
						if err != nil {
							x.Fail("ReadRpm: %v", err)
						}
						c.check(x, rpm, func(k int) int { return 0 }, fmt.Sprintf("form %d, cut at %d", c.style, cut))
					},
				},
				{
					Name: "groups",
					Desc: "every assignment of 6 (thorough: 7) regular files to 3 hard-link groups, ghosts or none, in 2 forms",
					Run: func(x *X) {
						n := map[bool]int{false: 6, true: 7}[thorough]
						c := &c17case{}
						for i := 0; i < n; i++ {
							f := fileRec{dir: "/", base: fmt.Sprint("f", i), size: uint64(i + 1), mode: mREG | 0644, dev: 1, ino: uint32(i + 100)}
							switch x.Choose(5) {
							case 1:
								f.ino, f.size = 7, 11
							case 2:
								f.ino, f.size = 8, 12
							case 3:
								f.ino, f.size, f.dev = 7, 13, 2
							case 4:
								f.ino, f.size, f.flags = 7, 11, 1<<6
							}
							c.files = append(c.files, f)
							if f.flags == 0 {
								c.order = append(c.order, i)
							}
						}
						c.style = 2 * x.Choose(2)
						c.work()
						x.State(x.prefix())
						rpm, err := rpmutils.ReadRpm(bytes.NewReader(c.pkg().build().raw))
						if err != nil {
							x.Fail("ReadRpm: %v", err)
						}
						c.check(x, rpm, func(k int) int { return 0 }, fmt.Sprintf("groups %v form %d", c.describe(), c.style))
					},
				},
				{
					Name: "many-files",
					Desc: "packages of 0, 1, 255, 256, 257, 300 and 70000 files in 3 forms, read in payload order and reversed",
					Run: func(x *X) {
						n := []int{0, 1, 255, 256, 257, 300, 70000}[x.Choose(map[bool]int{false: 6, true: 7}[thorough])]
						c := &c17case{style: x.Choose(3)}
						rev := x.Bool()
						for i := 0; i < n; i++ {
							c.files = append(c.files, fileRec{dir: fmt.Sprintf("/d%d/", i%7), base: fmt.Sprint("f", i), size: uint64(i % 5), mode: mREG | 0644, dev: 1, ino: uint32(i + 1)})
							c.order = append(c.order, i)
						}
						if rev {
							slices.Reverse(c.order)
						}
						c.work()
						x.State(x.prefix())
						rpm, err := rpmutils.ReadRpm(bytes.NewReader(c.pkg().build().raw))
						if err != nil {
							x.Fail("ReadRpm: %v", err)
						}
						c.check(x, rpm, func(k int) int { return k % 4 }, fmt.Sprintf("%d files, form %d, reversed %v", n, c.style, rev))
					},
				},
				{
					Name: "huge",
					Desc: "stripped entries of 2 GiB - 1 to 8 GiB + 2 (in files of zeros) that are skipped, partly read or counted in full, followed by another file",
					Run: func(x *X) {
						sizes := []int64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 5}
						if thorough {
							sizes = append(sizes, 1<<33+2)
						}
						size := sizes[x.Choose(len(sizes))]
						use := x.Choose(3)
						c := &c17case{style: 2, opt: fileOpt{sizes: 1}, order: []int{0, 1}}
						c.files = []fileRec{{dir: "/", base: "big", size: uint64(size), mode: mREG | 0644, dev: 1, ino: 1}, {dir: "/", base: "small", size: 6, mode: mREG | 0644, dev: 1, ino: 2}}
						hdr := (&pkg{lead: buildLead("x", false), sigOpt: hdrOpt{region: sigRegion, sig: true}, genOpt: hdrOpt{region: hdrRegion}, noPayDigest: true, noMD5: true,
							gen: append(baseGen(), fileTags(c.files, c.opt)...)}).build().raw
						x.State(x.prefix())
						x.Logf("size %d, use %d", size, use)
						s := &synthStream{parts: []any{hdr, cent{stripped: true, index: 0}.bytes()[:14], size, make([]byte, (4-(14+size)%4)%4), archive(cent{stripped: true, index: 1, data: []byte("second")})}}
						rpm, err := rpmutils.ReadRpm(s)
						if err != nil {
							x.Fail("ReadRpm: %v", err)
						}
						pr, err := rpm.PayloadReaderExtended()
						if err != nil {
							x.Fail("%v", err)
						}
						x.StepN(4)
						fi, err := pr.Next()
						if err != nil || fi.Name() != "/big" || fi.Size() != size {
							x.Fail("size %d: first file is %v, %v", size, fi, err)
						}
						switch use {
						case 1:
							if n, err := io.CopyN(io.Discard, pr, 100000); n != 100000 || err != nil {
								x.Fail("size %d: partial read of %d: %v", size, n, err)
							}
						case 2:
							var n int64
							b := make([]byte, 1<<20)
							for {
								k, err := pr.Read(b)
								n += int64(k)
								if err == io.EOF {
									break
								} else if err != nil {
									x.Fail("size %d: %v after %d", size, err, n)
								}
							}
							if n != size {
								x.Fail("size %d: %d bytes are read", size, n)
							}
						}
						fi, err = pr.Next()
						if err != nil || fi.Name() != "/small" {
							x.Fail("size %d: second file is %v, %v", size, fi, err)
						}
						readAs(x, pr, 0, []byte("second"), fmt.Sprintf("size %d", size))
						if _, err := pr.Next(); err != io.EOF {
							x.Fail("size %d: end is %v", size, err)
						}
						x.Validated()
					},
				},
			}
			parts = append(parts, &Part{
				Name: "high-index",
				Desc: "a package of 66000 files whose payload has 2 of them, with each pair of indices from 0, 1, 255, 256, 32767, 32768, 65535, 65536, 65537 and 65999, where files are single, or linked in one group with the other or with a third",
				Run: func(x *X) {
					idx := []int{0, 1, 255, 256, 32767, 32768, 65535, 65536, 65537, 65999}
					a, b := x.Choose(len(idx)), x.Choose(len(idx))
					if a == b {
						return
					}
					link := x.Choose(3)
					c := &c17case{style: 2 * x.Choose(2)}
					if !thorough && c.style == 0 && (a+b)%4 != 1 {
						return
					}
					for i := range 66000 {
						c.files = append(c.files, fileRec{dir: "/", base: fmt.Sprint("f", i), size: uint64(i % 11), mode: mREG | 0644, dev: 1, ino: uint32(i + 1)})
					}
					a, b = idx[a], idx[b]
					switch link {
					case 1:
						c.files[a].ino, c.files[b].ino = 99999, 99999
						c.files[a].size, c.files[b].size = 8, 8
					case 2:
						c.files[a].ino, c.files[400].ino = 99999, 99999
						c.files[a].size, c.files[400].size = 8, 8
					}
					c.order = []int{a, b}
					c.work()
					x.State(x.prefix())
					rpm, err := rpmutils.ReadRpm(bytes.NewReader(c.pkg().build().raw))
					if err != nil {
						x.Fail("ReadRpm: %v", err)
					}
					c.check(x, rpm, func(k int) int { return 0 }, fmt.Sprintf("files %d and %d of 66000, links %d, form %d", a, b, link, c.style))
				},
			}, &Part{
				Name: "flags",
				Desc: "3 files, the second with every pair of the 16 file flags (config, documentation, ghost, license, artifact, ...) or all but one, alone or on the inode of the first, or of the third; in 3 forms: a file is a ghost exactly where its ghost flag is set",
				Run: func(x *X) {
					k := x.Choose(16*16 + 17)
					var flags uint32
					switch {
					case k < 256:
						flags = 1<<(k/16) | 1<<(k%16)
					case k < 272:
						flags = 0xffff ^ 1<<(k-256)
					default:
						flags = 1 << 30
					}
					group := x.Choose(4)
					c := &c17case{style: x.Choose(3)}
					for i := range 3 {
						f := fileRec{dir: "/", base: fmt.Sprint("f", i), size: 5, mode: mREG | 0644, dev: 1, ino: uint32(i + 1)}
						if i == 1 {
							f.flags = flags
						}
						if i == 1 && group > 0 || i == 0 && group&1 != 0 || i == 2 && group&2 != 0 {
							f.ino = 77
						}
						c.files = append(c.files, f)
						if f.flags&(1<<6) == 0 {
							c.order = append(c.order, i)
						}
					}
					if x.Bool() {
						slices.Reverse(c.order)
					}
					c.work()
					x.State(x.prefix())
					rpm, err := rpmutils.ReadRpm(bytes.NewReader(c.pkg().build().raw))
					if err != nil {
						x.Fail("ReadRpm: %v", err)
					}
					c.check(x, rpm, func(k int) int { return 0 }, fmt.Sprintf("files %v, form %d", c.describe(), c.style))
				},
			}, &Part{
				Name: "inode-pairs",
				Desc: "2 regular files with every pair of (device, inode) from 9 x 9 values (0, 1 and the limits of 8, 16, 31 and 32 bits), in 2 forms: one group exactly where both agree",
				Run: func(x *X) {
					vals := []uint32{0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x10001, 1 << 31, 1<<32 - 1}
					n := len(vals)
					a, b := x.Choose(n*n), x.Choose(n*n)
					c := &c17case{order: []int{0, 1}, style: 2 * x.Choose(2)}
					for i, k := range []int{a, b} {
						c.files = append(c.files, fileRec{dir: "/", base: fmt.Sprint("f", i), size: uint64(3 + i), mode: mREG | 0644, dev: vals[k/n], ino: vals[k%n]})
					}
					c.work()
					x.State(x.prefix())
					rpm, err := rpmutils.ReadRpm(bytes.NewReader(c.pkg().build().raw))
					if err != nil {
						x.Fail("ReadRpm: %v", err)
					}
					c.check(x, rpm, func(k int) int { return 0 }, fmt.Sprintf("files %v, form %d", c.describe(), c.style))
				},
			}, &Part{
				Name: "inode-bits",
				Desc: "3 regular files of which two differ in one bit (of 64) of device and inode, in two bits (one of each), or have them exchanged, and the third is linked to one of the two or to none; in 2 forms",
				Run: func(x *X) {
					dev, ino := uint32(0x00800141), uint32(0x0a000283)
					d2, i2 := dev, ino
					k := x.Choose(1 + 64 + 32)
					switch {
					case k == 0:
						d2, i2 = ino, dev
					case k <= 32:
						d2 ^= 1 << (k - 1)
					case k <= 64:
						i2 ^= 1 << (k - 33)
					default:
						d2, i2 = d2^1<<(k-65), i2^1<<(k-65)
					}
					pairs := [][2]uint32{{dev, ino}, {d2, i2}, {7, 7}}
					third := x.Choose(3)
					c := &c17case{style: 2 * x.Choose(2)}
					c.order = permutation(x.Choose(6), []int{0, 1, 2})
					for i, k := range []int{0, 1, third} {
						c.files = append(c.files, fileRec{dir: "/", base: fmt.Sprint("f", i), size: uint64(3 + i), mode: mREG | 0644, dev: pairs[k][0], ino: pairs[k][1]})
					}
					c.work()
					x.State(x.prefix())
					rpm, err := rpmutils.ReadRpm(bytes.NewReader(c.pkg().build().raw))
					if err != nil {
						x.Fail("ReadRpm: %v", err)
					}
					c.check(x, rpm, func(k int) int { return 0 }, fmt.Sprintf("files %v, form %d", c.describe(), c.style))
				},
			}, &Part{
				Name: "missing-content",
				Desc: "a stripped payload whose file, link or link group has a recorded size of n + 2^k bytes, k = 0..62, of which only n are there (32- and 64-bit sizes): reading it ends in an error, and so does skipping it",
				Run: func(x *X) {
					k := x.Choose(63)
					n := []int{0, 1, 4, 300}[x.Choose(4)]
					size := int64(n) + 1<<k
					if size < 0 {
						return
					}
					c := &c17case{style: 2, opt: fileOpt{sizes: 1}}
					if size < 1<<32 {
						c.opt.sizes = x.Choose(2)
					}
					what := fmt.Sprintf("stripped file of %d bytes, %d present", size, n)
					c.files = []fileRec{{dir: "/", base: "a", size: uint64(size), mode: mREG | 0644, dev: 1, ino: 5}}
					idx := 0
					if x.Bool() {
						c.files = append([]fileRec{{dir: "/", base: "0", size: uint64(size), mode: mREG | 0644, dev: 1, ino: 5}}, c.files...)
						idx = 1
					}
					hdr := cent{stripped: true, index: idx}.bytes()[:14]
					p := newPkg()
					p.gen = append(p.gen, fileTags(c.files, c.opt)...)
					p.payload = append(append([]byte{}, hdr...), fileData(1, n)...)
					x.State(x.prefix())
					rpm, err := rpmutils.ReadRpm(bytes.NewReader(p.build().raw))
					if err != nil {
						x.Fail("ReadRpm: %v", err)
					}
					pr, err := rpm.PayloadReaderExtended()
					if err != nil {
						x.Fail("%s: PayloadReaderExtended: %v", what, err)
					}
					x.StepN(2)
					fi, err := pr.Next()
					if err != nil {
						return // told beforehand
					}
					if fi.Size() != size {
						x.Fail("%s: size %d", what, fi.Size())
					}
					if x.Bool() {
						got, err := io.ReadAll(pr)
						if err == nil {
							x.Fail("%s: read to a clean end after %d bytes", what, len(got))
						}
					} else if _, err := pr.Next(); err == nil || err == io.EOF {
						x.Fail("%s: skipped with %v", what, err)
					}
					x.Validated()
				},
			}, &Part{
				Name: "odd-names",
				Desc: "2 files with every ordered pair of 30 names (blanks, control and non-ASCII bytes, letter case, dots, the trailer's name) in 3 forms, absolute or plain as in source packages",
				Run: func(x *X) {
					a, b := x.Choose(len(oddNames)), x.Choose(len(oddNames))
					if a == b {
						return
					}
					c := &c17case{order: []int{1, 0}, style: x.Choose(3)}
					dir := "/"
					if x.Bool() {
						dir = ""
					}
					for i, k := range []int{a, b} {
						c.files = append(c.files, fileRec{dir: dir, base: oddNames[k], size: uint64(3 + i), mode: mREG | 0644, dev: 1, ino: uint32(i + 1)})
					}
					c.work()
					x.State(x.prefix())
					rpm, err := rpmutils.ReadRpm(bytes.NewReader(c.pkg().build().raw))
					if err != nil {
						x.Fail("ReadRpm: %v", err)
					}
					c.check(x, rpm, func(k int) int { return 0 }, fmt.Sprintf("files %q, form %d", c.describe(), c.style))
				},
			}, &Part{
				Name: "huge-groups",
				Desc: "hard-link groups of 2 and 3 files of 2 GiB - 1 to 8 GiB, in each place among two others, stripped; the content that comes with the last is skipped, partly read or counted in full",
				Run: func(x *X) {
					sizes := []int64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 5}
					if thorough {
						sizes = append(sizes, 1<<33+2)
					}
					size := sizes[x.Choose(len(sizes))]
					mask := []int{3, 5, 6, 7, 11, 13, 14}[x.Choose(7)] // which of the files are members
					use := x.Choose(3)
					c := &c17case{style: 2, opt: fileOpt{sizes: 1}}
					n := 3 + mask>>3
					last := 0
					for i := 0; i < n; i++ {
						f := fileRec{dir: "/", base: fmt.Sprint("f", i), size: 6, mode: mREG | 0644, dev: 1, ino: uint32(i + 1)}
						if mask&(1<<i) != 0 {
							f.size, f.ino = uint64(size), 77
							last = i
						}
						c.files = append(c.files, f)
					}
					hdr := (&pkg{lead: buildLead("x", false), sigOpt: hdrOpt{region: sigRegion, sig: true}, genOpt: hdrOpt{region: hdrRegion}, noPayDigest: true, noMD5: true,
						gen: append(baseGen(), fileTags(c.files, c.opt)...)}).build().raw
					x.State(x.prefix())
					what := fmt.Sprintf("size %d, members %b of %d, use %d", size, mask, n, use)
					x.Logf("%s", what)
					s := &synthStream{parts: []any{hdr}}
					pos := int64(0)
					for i := range c.files {
						e := cent{stripped: true, index: i}
						switch {
						case i == last:
							s.parts = append(s.parts, e.bytes()[:14], size, make([]byte, (4-(14+pos+size)%4)%4))
							pos += 14 + size
							pos += (4 - pos%4) % 4
							continue
						case mask&(1<<i) == 0:
							e.data = []byte("second")
						}
						s.parts = append(s.parts, e.bytes())
						pos += int64(len(e.bytes()))
					}
					s.parts = append(s.parts, archive())
					rpm, err := rpmutils.ReadRpm(s)
					if err != nil {
						x.Fail("ReadRpm: %v", err)
					}
					pr, err := rpm.PayloadReaderExtended()
					if err != nil {
						x.Fail("%v", err)
					}
					for i, f := range c.files {
						x.Step()
						fi, err := pr.Next()
						if err != nil || fi.Name() != f.name() || fi.Size() != int64(f.size) {
							x.Fail("%s: file %d is %v, %v", what, i, fi, err)
						}
						if l := mask&(1<<i) != 0 && i != last; pr.IsLink() != l {
							x.Fail("%s: IsLink is %v at %s", what, pr.IsLink(), f.name())
						} else if l {
							readAs(x, io.LimitReader(pr, 10), 0, nil, what)
							continue
						}
						if i != last {
							readAs(x, pr, 0, []byte("second"), what)
							continue
						}
						switch use {
						case 1:
							if n, err := io.CopyN(io.Discard, pr, 100000); n != 100000 || err != nil {
								x.Fail("%s: partial read of %d: %v", what, n, err)
							}
						case 2:
							if n, err := io.CopyBuffer(struct{ io.Writer }{io.Discard}, struct{ io.Reader }{pr}, make([]byte, 1<<20)); err != nil || n != size {
								x.Fail("%s: %d bytes are read: %v", what, n, err)
							}
						}
					}
					if _, err := pr.Next(); err != io.EOF {
						x.Fail("%s: end is %v", what, err)
					}
					x.Validated()
				},
			})
			return parts
		},
	})
}

func (c *c17case) describe() (out []string) {
	for _, f := range c.files {
		out = append(out, fmt.Sprintf("%s:%o,%d,%d/%d,%d", f.name(), f.mode, f.size, f.dev, f.ino, f.flags))
	}
	return
}
