package main

import (
	"bytes"
	"fmt"
	"io"
	"slices"
	"strings"
	"sync"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// c18arch is an archive with the header that belongs to it.
type c18arch struct {
	*c17case
	ents []cent
	raw  []byte
	tree map[string]node
}

var c18mem sync.Map

func c18make(k int) *c18arch {
	if v, ok := c18mem.Load(k); ok {
		return v.(*c18arch)
	}
	c := &c17case{}
	add := func(name string, mode uint16, size int, link string, ino uint32) {
		i := strings.LastIndexByte(name, '/') + 1
		c.files = append(c.files, fileRec{dir: name[:i], base: name[i:], size: uint64(size), mode: mode, link: link, dev: 1, ino: ino})
		c.order = append(c.order, len(c.files)-1)
	}
	switch k {
	case 0:
	case 1, 7:
		add("/usr/bin/a", mREG|0755, 5, "", 1)
	case 2, 5:
		add("/usr/bin/a", mREG|0755, 40, "", 1)
		add("/usr/bin/ln", mLNK|0777, 0, "a", 2)
		add("/usr/lib", mDIR|0755, 0, "", 3)
		add("/usr/lib/h1", mREG|0644, 33, "", 9)
		add("/usr/lib/empty", mREG|0644, 0, "", 5)
		add("/usr/lib/h2", mREG|0644, 33, "", 9)
		if k == 5 {
			c.style = 2
		}
	case 3:
		add("/noise", mREG|0644, 70001, "", 1)
		add("/b", mREG|0644, 3, "", 2)
	case 4:
		add("/zeros", mREG|0644, 300000, "", 1)
		add("/b", mREG|0644, 3, "", 2)
	case 6:
		add("/noise", mREG|0644, 3000001, "", 1)
		add("/zeros", mREG|0644, 5000000, "", 2)
		add("/b", mREG|0644, 3, "", 3)
	}
	c.work()
	for i, f := range c.files {
		switch f.base {
		case "zeros":
			c.content[i] = make([]byte, f.size)
		case "noise":
			s := uint64(88172645463325252)
			for j := range c.content[i] {
				s ^= s << 13
				s ^= s >> 7
				s ^= s << 17
				c.content[i][j] = byte(s)
			}
		}
	}
	a := &c18arch{c17case: c}
	for _, i := range c.order {
		e := c.entry(i)
		if e.ino == 9 {
			e.nlink = 2
		}
		a.ents = append(a.ents, e)
	}
	a.raw = archive(a.ents...)
	if k == 7 { // padded, as to the block size of a tape
		a.raw = append(a.raw, make([]byte, 100000)...)
	}
	a.tree, _ = buildTree(a.ents, 022)
	v, _ := c18mem.LoadOrStore(k, a)
	return v.(*c18arch)
}

type c18key struct{ arch, comp int }

func c18packed(arch, cm int) []byte {
	k := c18key{arch, cm}
	if v, ok := c18mem.Load(k); ok {
		return v.([]byte)
	}
	v, _ := c18mem.LoadOrStore(k, comps[cm].pack(c18make(arch).raw))
	return v.([]byte)
}

// head is the package up to the payload.
func (a *c18arch) head(tags ...tagv) []byte {
	p := newPkg()
	p.noPayDigest, p.noMD5 = true, true
	p.gen = slices.DeleteFunc(p.gen, func(t tagv) bool { return t.tag == 1124 })
	p.gen = append(append(p.gen, fileTags(a.files, a.opt)...), tags...)
	return p.build().raw
}

// expected is what a way of reading the files has to give.
func (a *c18arch) expected(iface, use int) (out []string) {
	for k, i := range a.order {
		data := a.content[i]
		switch use {
		case 1:
			data = nil
		case 2:
			data = data[:min(1, len(data))]
		}
		name := a.files[i].name()
		if iface == 1 {
			name = a.ents[k].name
		}
		out = append(out, name+"\x00"+string(data))
	}
	return
}

// consume uses one of the payload interfaces; dest is for extraction.
func (a *c18arch) consume(x *X, f io.Reader, iface, use int, dest string) (out []string, err error) {
	x.Step()
	rpm, err := rpmutils.ReadRpm(f)
	if err != nil {
		x.Fail("ReadRpm: %v", err)
	}
	return consumeRpm(x, rpm, iface, use, dest, len(a.order)+3)
}

func consumeRpm(x *X, rpm *rpmutils.Rpm, iface, use int, dest string, limit int) (out []string, err error) {
	var next func() (string, error)
	var r io.Reader
	x.Step()
	switch iface {
	case 0:
		pr, err := rpm.PayloadReaderExtended()
		if err != nil {
			return nil, err
		}
		r = pr
		next = func() (string, error) {
			fi, err := pr.Next()
			if err != nil {
				return "", err
			}
			return fi.Name(), nil
		}
	case 1:
		pr, err := rpm.PayloadReader()
		if err != nil {
			return nil, err
		}
		r = pr
		next = func() (string, error) {
			h, err := pr.Next()
			if err != nil {
				return "", err
			}
			return h.Filename(), nil
		}
	case 2:
		return nil, rpm.ExpandPayload(dest)
	}
	for {
		x.Step()
		name, err := next()
		if err == io.EOF {
			return out, nil
		} else if err != nil {
			return out, err
		}
		if len(out) > limit {
			x.Fail("the payload does not end")
		}
		var b []byte
		switch use {
		case 0:
			b, err = io.ReadAll(r)
		case 2:
			b = make([]byte, 1)
			var n int
			n, err = io.ReadFull(r, b)
			b = b[:n]
			if err == io.EOF {
				err = nil
			}
		case 3:
			var buf bytes.Buffer
			_, err = io.CopyBuffer(&buf, struct{ io.Reader }{r}, make([]byte, 2))
			b = buf.Bytes()
		}
		if err != nil {
			return out, err
		}
		out = append(out, name+"\x00"+string(b))
	}
}

func brief(recs []string) string {
	var s []string
	for _, r := range recs {
		name, data, _ := strings.Cut(r, "\x00")
		s = append(s, fmt.Sprintf("%s:%.12q(%d)", name, data, len(data)))
	}
	return strings.Join(s, " ")
}

// judge requires the exact archive, or allows an error in its place.
// With clean, what is delivered before the error must be right as well.
func (a *c18arch) judge(x *X, got []string, err error, iface, use int, dest string, mayFail, clean bool, what string) {
	if err != nil {
		if !mayFail {
			x.Fail("%s: %v", what, err)
		}
		if clean && iface < 2 {
			want := a.expected(iface, use)
			if len(got) > len(want) || !slices.Equal(got, want[:len(got)]) {
				x.Fail("%s: delivers %s before the error %v, want a beginning of %s", what, brief(got), err, brief(want))
			}
		}
		x.Outcome("error", err.Error())
		x.Validated()
		return
	}
	if iface == 2 {
		if d := compareTree(a.tree, dest); d != "" {
			x.Fail("%s: no error, and extracted: %s", what, d)
		}
	} else if want := a.expected(iface, use); !slices.Equal(got, want) {
		x.Fail("%s: no error, and delivers %s, want %s", what, brief(got), brief(want))
	}
	x.Outcome("exact")
	x.Validated()
}

// frames are the zstd variants of several frames.
var frames = map[string]bool{"two frames": true, "skippable frames": true}

var ifaceNames = []string{"PayloadReaderExtended", "PayloadReader", "ExpandPayload"}

func (x *X) chooseComp(n int, zstdOnly bool) int {
	if !zstdOnly {
		return x.Choose(n)
	}
	var l []int
	for i := range comps[:n] {
		if comps[i].name == "zstd" {
			l = append(l, i)
		}
	}
	return l[x.Choose(len(l))]
}

func init() {
	register(&Prop{
		ID: "C18",
		Assumptions: []string{"what a format's own checks cannot tell (content altered within an lzma stream, or an xz or zstd stream without checksum) is not required to be noticed",
			"the deprecated PayloadReader has no way to report a checksum found wrong after the last entry; corruption is decided for the other two interfaces",
			"destination directories are empty"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			var parts []*Part
			for _, cgo := range []bool{false, true} {
				suffix := ""
				which := "all formats in every variant"
				if cgo {
					suffix = "-cgo"
					which = "zstd variants with the C implementation"
				}
				transparent := func(name string, arch func(x *X) int, ways []int) {
					parts = append(parts, &Part{
						Name: name + suffix, Scratch: true, CGO: cgo,
						Desc: "archives (empty, one file, 6 objects, incompressible, highly compressible, stripped) in " + which + "; named or detected, payload format tag present or not, 5 chunkings, 3 interfaces, ways of reading",
						Run: func(x *X) {
							k := arch(x)
							a := c18make(k)
							cm := x.chooseComp(len(comps), cgo)
							iface := 0
							if k != 5 {
								iface = x.Choose(3)
							}
							use := 0
							if iface < 2 {
								use = ways[x.Choose(len(ways))]
							}
							ch := x.Choose(nChunkModes)
							var tags []tagv
							if x.Bool() {
								tags = append(tags, tStr(1124, "cpio"), tStr(1126, []string{"9", "19T8", "w9"}[cm%3]))
							}
							n := comps[cm].name
							if n != "gzip" && n != "uncompressed" || x.Bool() {
								tags = append(tags, tStr(1125, n))
							}
							x.State(x.prefix())
							what := fmt.Sprintf("archive %d %v %d tags, chunks %d, %s, reading %d", k, comps[cm], len(tags), ch, ifaceNames[iface], use)
							x.Logf("%s", what)
							dest := x.fresh("d")
							got, err := a.consume(x, newChunk(append(a.head(tags...), c18packed(k, cm)...), ch), iface, use, dest)
							if cgo && frames[comps[cm].what] && err != nil && strings.Contains(err.Error(), "unexpected EOF") {
								x.Known("cgo-zstd-several-frames", "%s: %v", what, err)
								return
							}
							a.judge(x, got, err, iface, use, dest, false, true, what)
						},
					})
				}
				transparent("transparent", func(x *X) int { return []int{0, 1, 2, 5}[x.Choose(4)] }, []int{0, 1, 2, 3})
				transparent("transparent-large", func(x *X) int {
					l := []int{3, 4, 7}
					if thorough {
						l = append(l, 6)
					}
					return l[x.Choose(len(l))]
				}, []int{0, 1})
				big := slices.DeleteFunc(bigger(), func(c comp) bool { return cgo && c.name != "zstd" })
				parts = append(parts, &Part{
					Name: "windows" + suffix, Scratch: true, CGO: cgo, Workers: 3,
					Desc: fmt.Sprintf("%d variants: zstd windows of 1 KiB to 128 MiB, lzma and xz dictionaries of 64 KiB to 64 MiB, gzip and bzip2 levels; a small file and a highly compressible archive; 3 interfaces", len(big)),
					Run: func(x *X) {
						k := []int{1, 4}[x.Choose(2)]
						cm := big[x.Choose(len(big))]
						iface := x.Choose(3)
						a := c18make(k)
						what := fmt.Sprintf("archive %d %s %s, %s", k, cm.name, cm.what, ifaceNames[iface])
						x.Logf("%s", what)
						x.State(x.prefix())
						dest := x.fresh("d")
						got, err := a.consume(x, newChunk(append(a.head(tStr(1125, cm.name)), cm.pack(a.raw)...), 0), iface, 0, dest)
						a.judge(x, got, err, iface, 0, dest, false, true, what)
					},
				})
				cuts := func(name string, k, ncomps, step int) {
					parts = append(parts, &Part{
						Name: name + suffix, Scratch: true, CGO: cgo,
						Desc: "payload in " + which + " cut off, failing, or failing with its last bytes after every number of bytes (in large payloads: every 61st); 3 interfaces, whole or single-byte reads; named and, for gzip, detected",
						Run: func(x *X) {
							a := c18make(k)
							cm := x.chooseComp(ncomps, cgo)
							data := c18packed(k, cm)
							at := step * x.Choose((len(data)+step-1)/step)
							mode := x.Choose(4)
							iface := x.Choose(3)
							use := 0
							if iface < 2 {
								use = x.Choose(2)
							}
							named := comps[cm].name != "gzip" && comps[cm].name != "uncompressed" || x.Bool()
							var tags []tagv
							if named {
								tags = append(tags, tStr(1125, comps[cm].name))
							}
							head := a.head(tags...)
							r := &chunkReader{data: append(head, data...), failAt: len(head) + at}
							if mode > 0 {
								r.err = errInjected
							}
							r.withEOF = mode == 2
							if mode == 3 {
								r.size = func(_, _ int) int { return 1 }
							}
							x.State(x.prefix())
							what := fmt.Sprintf("archive %d %v (named %v), payload of %d ends after %d, mode %d, %s, reading %d", k, comps[cm], named, len(data), at, mode, ifaceNames[iface], use)
							x.Logf("%s", what)
							dest := x.fresh("d")
							got, err := a.consume(x, r, iface, use, dest)
							a.judge(x, got, err, iface, use, dest, true, true, what)
							if err == nil && at < len(data)/2 {
								x.Fail("%s: complete", what)
							}
						},
					})
				}
				cuts("cut", 2, len(comps), 1)
				if thorough {
					cuts("cut-large", 3, nMainComps, 61)
				} else {
					cuts("cut-small", 1, nMainComps, 1)
				}
				corrupt := func(name string, k, ncomps int, desc string, change func(x *X, b []byte) ([]byte, string)) {
					parts = append(parts, &Part{
						Name: name + suffix, Scratch: true, CGO: cgo,
						Desc: desc + " in " + which + " that carry checksums (the others: no crash); PayloadReaderExtended and ExpandPayload",
						Run: func(x *X) {
							a := c18make(k)
							cm := x.chooseComp(ncomps, cgo)
							data := c18packed(k, cm)
							iface := 2 * x.Choose(2)
							bad, what := change(x, data)
							if bad == nil || comps[cm].name == "lzma" && !bytes.Equal(bad[1:5], data[1:5]) {
								return // an absurd dictionary size only costs memory
							}
							x.State(x.prefix())
							what = fmt.Sprintf("archive %d %v, %s, %s", k, comps[cm], what, ifaceNames[iface])
							x.Logf("%s", what)
							dest := x.fresh("d")
							got, err := a.consume(x, bytes.NewReader(append(a.head(tStr(1125, comps[cm].name)), bad...)), iface, 0, dest)
							if comps[cm].sealed {
								a.judge(x, got, err, iface, 0, dest, true, false, what)
							}
						},
					})
				}
				flip := func(x *X, b []byte) ([]byte, string) {
					i := x.Choose(len(b))
					bit := x.Choose(8)
					b = bytes.Clone(b)
					b[i] ^= 1 << bit
					return b, fmt.Sprintf("bit %d of byte %d of %d flipped", bit, i, len(b))
				}
				corrupt("bit-flips", 2, len(comps), "every single bit of a payload of 6 objects flipped", flip)
				ends := func(x *X, b []byte) ([]byte, string) {
					k := 1 + x.Choose(min(32, len(b)))
					bit := x.Choose(9)
					b = bytes.Clone(b)
					if bit == 8 {
						return b[:len(b)-k], fmt.Sprintf("%d bytes missing at the end", k)
					}
					b[len(b)-k] ^= 1 << bit
					return b, fmt.Sprintf("bit %d of the %dth last byte flipped", bit, k)
				}
				corrupt("padded", 7, len(comps), "every single bit of the last 32 bytes flipped, or 1 to 32 bytes missing, of a payload with 100000 zeros after the archive", ends)
				corrupt("end-of-one", 1, len(comps), "every single bit of the last 32 bytes flipped, or 1 to 32 bytes missing, of a payload of one file", ends)
				corrupt("end-of-none", 0, len(comps), "every single bit of the last 32 bytes flipped, or 1 to 32 bytes missing, of a payload without files", ends)
				if thorough {
					corrupt("byte-values", 1, nMainComps, "every single byte of a payload of one file given every other value", func(x *X, b []byte) ([]byte, string) {
						i := x.Choose(len(b))
						v := x.Choose(255)
						b = bytes.Clone(b)
						b[i] += byte(v + 1)
						return b, fmt.Sprintf("byte %d of %d is %#x", i, len(b), b[i])
					})
					corrupt("two-bits", 1, nMainComps, "every two of the first and last 24 bits of a payload of one file flipped", func(x *X, b []byte) ([]byte, string) {
						n := 48
						i := x.Choose(n - 1)
						j := i + 1 + x.Choose(n-1-i)
						b = bytes.Clone(b)
						for _, k := range []int{i, j} {
							if k >= n/2 {
								k = 8*len(b) - n + k
							}
							b[k/8] ^= 1 << (k % 8)
						}
						return b, fmt.Sprintf("bits %d and %d of the first and last 24 flipped", i, j)
					})
				}
				corrupt("edits", 2, len(comps), "one byte lost, doubled, or swapped with the next, or 1 to 16 bytes replaced by zeros, at every place of a payload of 6 objects", func(x *X, b []byte) ([]byte, string) {
					i := x.Choose(len(b))
					switch k := x.Choose(5); k {
					case 0:
						return append(bytes.Clone(b[:i]), b[i+1:]...), fmt.Sprintf("byte %d lost", i)
					case 1:
						return append(bytes.Clone(b[:i+1]), b[i:]...), fmt.Sprintf("byte %d doubled", i)
					case 2:
						if i+1 == len(b) {
							return nil, ""
						}
						b = bytes.Clone(b)
						b[i], b[i+1] = b[i+1], b[i]
						return b, fmt.Sprintf("bytes %d and %d swapped", i, i+1)
					default:
						n := []int{1, 16}[k-3]
						b = bytes.Clone(b)
						clear(b[i:min(i+n, len(b))])
						return b, fmt.Sprintf("%d bytes at %d zeroed", n, i)
					}
				})
				parts = append(parts, &Part{
					Name: "mismatch" + suffix, Scratch: true, CGO: cgo,
					Desc: "every format named by the header (or none) with a payload in every other format; 3 interfaces",
					Run: func(x *X) {
						k := 1 + x.Choose(2)
						a := c18make(k)
						named, cm := x.Choose(nMainComps+1), x.Choose(nMainComps)
						iface := x.Choose(3)
						var tags []tagv
						name := ""
						if named < nMainComps {
							name = comps[named].name
							tags = append(tags, tStr(1125, name))
						}
						fits := named == cm || name == "" && (comps[cm].name == "gzip" || comps[cm].name == "uncompressed")
						if cgo && name != "zstd" && comps[cm].name != "zstd" {
							return
						}
						x.State(x.prefix())
						dest := x.fresh("d")
						got, err := a.consume(x, bytes.NewReader(append(a.head(tags...), c18packed(k, cm)...)), iface, 0, dest)
						what := fmt.Sprintf("archive %d named %q in %v, %s", k, name, comps[cm], ifaceNames[iface])
						x.Logf("%s", what)
						a.judge(x, got, err, iface, 0, dest, !fits, true, what)
						if !fits && err == nil {
							x.Fail("%s: no error", what)
						}
					},
				})
			}
			parts = append(parts, &Part{
				Name: "detection", Scratch: true,
				Desc: "payloads of 0 to 5 bytes, of every first two bytes from a set, and a gzip or plain archive with every split of its first 12 bytes into two or three reads with and without empty reads, without a named compressor",
				Run: func(x *X) {
					iface := x.Choose(3)
					dest := x.fresh("d")
					switch x.Choose(3) {
					case 0: // too short
						a := c18make(1)
						cm := []int{0, 5}[x.Choose(2)]
						n := x.Choose(6)
						r := newChunk(append(a.head(), c18packed(1, cm)[:n]...), x.Choose(nChunkModes))
						x.State(x.prefix())
						got, err := a.consume(x, r, iface, 0, dest)
						if err == nil {
							x.Fail("a payload of %d bytes gives %s and no error with %s", n, brief(got), ifaceNames[iface])
						}
						x.Validated()
					case 1: // other magic
						a := c18make(1)
						b0 := []byte{0, 0x1f, 0x30, 0x1e, 0x8b, 0x42, 0x5d, 0xfd, 0x28, 0xff, '0', '\n'}
						m := []byte{b0[x.Choose(len(b0))], []byte{0x8b, 0x8a, 0x30, 0x37, 0, 0xff, 0x1f, 0x5a, 0x9d}[x.Choose(9)]}
						rest := []int{0, 5}[x.Choose(2)]
						b := append(m, c18packed(1, rest)[2:]...)
						x.State(x.prefix())
						got, err := a.consume(x, bytes.NewReader(append(a.head(), b...)), iface, 0, dest)
						same := bytes.Equal(b, c18packed(1, rest))
						a.judge(x, got, err, iface, 0, dest, !same, true, fmt.Sprintf("payload starting % x, rest of %v, %s", m, comps[rest], ifaceNames[iface]))
						if !same && err == nil {
							x.Fail("a payload starting % x (rest of %v) gives no error with %s", m, comps[rest], ifaceNames[iface])
						}
					case 2:
						k := x.Choose(3)
						a := c18make(k)
						cm := []int{0, 5, 6, 7, 9}[x.Choose(5)]
						c1 := x.Choose(13)
						c2 := x.Choose(13)
						zeros := x.Choose(3)
						head := a.head()
						r := &chunkReader{data: append(head, c18packed(k, cm)...), failAt: -1, zeros: zeros > 0}
						r.size = func(pos, n int) int {
							for _, c := range []int{min(c1, c2), max(c1, c2)} {
								if pos < len(head)+c {
									return len(head) + c - pos
								}
							}
							return n
						}
						if zeros == 2 {
							r.zero = true
						}
						x.State(x.prefix())
						got, err := a.consume(x, r, iface, 0, dest)
						a.judge(x, got, err, iface, 0, dest, false, true, fmt.Sprintf("archive %d unnamed %v split at %d and %d, zeros %d, %s", k, comps[cm], c1, c2, zeros, ifaceNames[iface]))
					}
				},
			}, &Part{
				Name: "unknown", Scratch: true,
				Desc: "compressor and format names near the known ones (every single character changed, dropped, or added, other cases), other names, and values of other types and counts, over payloads in every format; 3 interfaces",
				Run: func(x *X) {
					iface := x.Choose(3)
					known := []string{"gzip", "bzip2", "lzma", "xz", "zstd", "uncompressed"}
					tag := 1125
					cm := x.Choose(nMainComps)
					if x.Bool() {
						tag = 1124
						known = []string{"cpio"}
					}
					var v tagv
					if x.Choose(2) == 0 {
						names := []string{"", "lzo", "lz4", "zlib", "none", "identity", "brotli", "rar", "drpm", "tar", "ustar", "zstd\n", " gzip", "gzip,xz"}
						for _, k := range known {
							names = append(names, strings.ToUpper(k), strings.ToUpper(k[:1])+k[1:], k+" ", k+k, k+"2", "x"+k)
							for i := range k {
								names = append(names, k[:i]+k[i+1:], k[:i]+string(k[i]+1)+k[i+1:], k[:i]+"-"+k[i:])
							}
						}
						n := names[x.Choose(len(names))]
						if slices.Contains(known, n) {
							return
						}
						v = tStr(tag, n)
					} else {
						k := known[x.Choose(len(known))]
						v = []tagv{tU32(tag, 1), tU16(tag, 1, 2), tBytes(tag, []byte(k)), tStrs(tag, tStrArray, k, k), tStrs(tag, tI18N, k, "xz"), {tag, tStrArray, 0, nil}, {tag, tNull, 0, nil}, {tag, 11, 1, append([]byte(k), 0)}, tU64(tag, 5)}[x.Choose(9)]
					}
					a := c18make(1)
					tags := []tagv{v}
					if tag == 1124 {
						tags = append(tags, tStr(1125, comps[cm].name))
					}
					x.State(x.prefix())
					what := fmt.Sprintf("tag %d type %d count %d %q over %v, %s", tag, v.typ, v.count, v.data, comps[cm], ifaceNames[iface])
					x.Logf("%s", what)
					dest := x.fresh("d")
					rpm, err := rpmutils.ReadRpm(bytes.NewReader(append(a.head(tags...), c18packed(1, cm)...)))
					if err != nil {
						x.Validated() // not even a header
						return
					}
					got, err := consumeRpm(x, rpm, iface, 0, dest, 10)
					if err == nil {
						x.Fail("%s: gives %s and no error", what, brief(got))
					}
					if iface == 2 {
						if s := snapshot(dest); len(s) > 1 {
							x.Fail("%s: extracts %s", what, snapText(s))
						}
					}
					x.Validated()
				},
			}, &Part{
				Name: "independent-of-name", Scratch: true,
				Desc: "source and binary packages, compressor and format stored as string, one-element array or translated string; every format, 3 interfaces",
				Run: func(x *X) {
					a := c18make(2)
					cm := x.Choose(len(comps))
					iface := x.Choose(3)
					t1, t2 := []int{tString, tStrArray, tI18N}[x.Choose(3)], []int{tString, tStrArray, tI18N}[x.Choose(3)]
					head := a.head(tStrs(1124, t1, "cpio"), tStrs(1125, t2, comps[cm].name))
					if x.Bool() {
						head[7] = 1
					}
					x.State(x.prefix())
					dest := x.fresh("d")
					got, err := a.consume(x, bytes.NewReader(append(head, c18packed(2, cm)...)), iface, 0, dest)
					// how values of other string types are taken is not part of this property
					a.judge(x, got, err, iface, 0, dest, t1 != tString || t2 != tString, true, fmt.Sprintf("types %d, %d, %v, %s", t1, t2, comps[cm], ifaceNames[iface]))
				},
			})
			return parts
		},
	})
}
