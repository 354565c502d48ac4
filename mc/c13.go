package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"

	"github.com/sassoftware/go-rpmutils/cpio"
)

// refStep is what a reference parser finds at a position of an archive.
type refStep struct {
	trailer, bad, unknown bool
	name                  string
	size                  int64
	next                  int64
	dataPos               int64
}

// refNext parses the entry at pos. bad means that no entry is there in full;
// unknown that the reference does not want to judge.
func refNext(b []byte, pos int64, sizes []int64) (s refStep) {
	if pos+6 > int64(len(b)) {
		s.bad = true
		return
	}
	hex := func(off int64) (int64, bool) {
		if off+8 > int64(len(b)) {
			s.bad = true
			return 0, false
		}
		for _, c := range b[off : off+8] {
			if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
				s.unknown = true
			}
		}
		v, err := strconv.ParseUint(string(b[off:off+8]), 16, 32)
		if err != nil {
			s.unknown = true
		}
		return int64(v), true
	}
	switch string(b[pos : pos+6]) {
	case "07070X":
		idx, ok := hex(pos + 6)
		if !ok || s.unknown {
			return
		}
		if idx >= int64(len(sizes)) || sizes[idx] < 0 {
			s.bad = true
			return
		}
		s.size = sizes[idx]
		s.dataPos = pos + 14
	case "070701":
		var f [13]int64
		for i := range f {
			v, ok := hex(pos + 6 + 8*int64(i))
			if !ok {
				return
			}
			f[i] = v
		}
		if s.unknown {
			return
		}
		s.size = f[6]
		n := f[11]
		if n == 0 || pos+110+n > int64(len(b)) {
			s.bad = true
			return
		}
		s.name = string(b[pos+110 : pos+110+n-1])
		s.dataPos = pos + (110+n+3)/4*4
		if s.name == cpio.TRAILER {
			s.trailer = true
			return
		}
	default:
		s.bad = true
		return
	}
	if s.size > int64(len(b)) || s.dataPos+s.size > int64(len(b)) {
		s.bad = true
		return
	}
	s.next = (s.dataPos + s.size + 3) / 4 * 4
	return
}

// refComplete tells whether the archive has a trailer where it should be.
func refComplete(b []byte, sizes []int64) (complete, unknown bool) {
	pos := int64(0)
	for i := 0; i < 1000; i++ {
		s := refNext(b, pos, sizes)
		if s.unknown {
			return false, true
		}
		if s.bad {
			return false, false
		}
		if s.trailer {
			return true, false
		}
		pos = s.next
	}
	return false, true
}

const nConsumers = 6

// consume reads an archive in one of several ways and reports whether it was
// presented as complete, and what was presented.
func consume(x *X, kind int, r io.Reader, sizes []int64, what string) (complete bool, trace string) {
	limit := 50
	switch kind {
	case 0, 1, 2, 3: // Reader: read all, skip, partial, one byte at a time
		rd := newCpioReader(r, sizes)
		for i := 0; i < limit; i++ {
			x.Step()
			h, err := rd.Next()
			if err == io.EOF {
				return true, trace
			}
			if err != nil {
				// nothing may come after that looks like the end
				for k := 0; k < 3; k++ {
					x.StepN(2)
					rd.Read(make([]byte, 5))
					if _, err := rd.Next(); err == io.EOF && k == 0 {
						x.Logf("EOF after error")
					}
				}
				return false, trace + err.Error()
			}
			if h == nil {
				x.Fail("%s: Next returns neither entry nor error", what)
			}
			size := h.Filesize64()
			if size < 0 || h.Filesize() < 0 || h.Namesize() < 0 {
				x.Fail("%s: negative size %d %d %d", what, size, h.Filesize(), h.Namesize())
			}
			trace += fmt.Sprintf("%q:%d ", h.Filename(), size)
			var n int64
			bufs := []int{64, 0, 2, 1}[kind]
			for bufs > 0 {
				x.Step()
				buf := make([]byte, bufs)
				g, err := rd.Read(buf)
				if g < 0 || g > bufs {
					x.Fail("%s: Read returns %d", what, g)
				}
				n += int64(g)
				if n > size {
					x.Fail("%s: more than %d bytes are read", what, size)
				}
				if err == io.EOF {
					if n != size {
						x.Fail("%s: the content of %q ends with io.EOF after %d of %d bytes", what, h.Filename(), n, size)
					}
					break
				}
				if err != nil {
					trace += "!"
					// keep going: the error must not be forgotten silently, but it was reported
					return false, trace + err.Error()
				}
				if kind == 2 {
					break
				}
			}
		}
		return false, trace + "limit"
	case 4:
		cs := cpio.NewCpioStream(r)
		if sizes != nil {
			cs.SetFileSizes(sizes)
		}
		for i := 0; i < limit; i++ {
			x.Step()
			e, err := cs.ReadNextEntry()
			if err != nil {
				x.StepN(2)
				cs.ReadNextEntry()
				cs.ReadNextEntry()
				return false, trace + err.Error()
			}
			if e == nil || e.Header == nil {
				x.Fail("%s: ReadNextEntry returns nothing", what)
			}
			if e.Header.Filename() == cpio.TRAILER {
				return true, trace
			}
			trace += fmt.Sprintf("%q:%d ", e.Header.Filename(), e.Header.Filesize64())
		}
		return false, trace + "limit"
	default:
		x.Step()
		err := cpio.Extract(r, x.fresh("d"))
		if err == nil {
			return true, ""
		}
		return false, err.Error()
	}
}

type c13arch struct {
	name  string
	ents  []cent
	sizes []int64
}

func c13archives() []c13arch {
	reg := func(k, n int) cent {
		e := c12ent(k, k+1, n)
		return e
	}
	dir := cent{name: "dir", mode: mDIR | 0755, nlink: 2}
	lnk := cent{name: "dir/ln", mode: mLNK | 0777, nlink: 1, data: []byte("target")}
	h := func(name string, data []byte) cent {
		return cent{name: name, mode: mREG | 0644, nlink: 2, ino: 9, data: data}
	}
	strip := func(i, n int) cent { return cent{stripped: true, index: i, data: fileData(i, n)} }
	return []c13arch{
		{"empty", nil, nil},
		{"one file", []cent{reg(0, 5)}, nil},
		{"two files", []cent{reg(0, 4), reg(1, 3)}, nil},
		{"tree", []cent{dir, lnk, {name: "dir/f", mode: mREG | 0600, nlink: 1, data: []byte("x")}}, nil},
		{"hard links", []cent{h("h1", nil), h("h2", []byte("linked"))}, nil},
		{"fifo and devices", []cent{{name: "p", mode: mFIF | 0600, nlink: 1}, {name: "c", mode: mCHR | 0600, nlink: 1, rdevmajor: 1, rdevminor: 3}, {name: "b", mode: mBLK | 0600, nlink: 1}}, nil},
		{"stripped", []cent{strip(0, 3), strip(1, 6)}, []int64{3, 6}},
		{"last is empty", []cent{reg(0, 2), reg(1, 0)}, nil},
	}
}

var c13texts = []string{"00000000", "00000001", "00000003", "0000006e", "00000fff", "00010000", "00100000", "00100001", "7fffffff", "80000000", "fffffffc", "ffffffff",
	"-0000001", "-000006e", "+0000001", "-7fffffff"[:8], "0x000001", "        ", "0000000g", "1_000000", "\x00\x00\x00\x00\x00\x00\x00\x00", "0000000 ", "       1", "FFFFFFFE"}

func init() {
	register(&Prop{
		ID:          "C13",
		Bits32:      func(string) bool { return true },
		Assumptions: []string{"a stream that returns (0, nil) forever is the caller's fault", "an archive in which a number is written with a sign may be read either way, as long as nothing crashes"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			archs := c13archives()
			budget := 2
			judge := func(x *X, raw []byte, kind int, r io.Reader, sizes []int64, failed bool, what string) {
				done, trace := consume(x, kind, r, sizes, what)
				complete, unknown := refComplete(raw, sizes)
				x.Outcome(done, trace)
				if done && !complete && !unknown {
					x.Fail("%s: presented as complete after %q", what, trace)
				}
				x.Validated()
			}
			fieldsPart := func(name string, budget int, which, fields []int, texts []string, nMagic int) *Part {
				return &Part{
					Name:    name,
					Scratch: true,
					Budget:  budget,
					Desc:    fmt.Sprintf("%d archives in which up to %d of the magics and of the numbers %v of two entries and the trailer are replaced by each of %d texts, read in 6 ways", len(which), budget, fields, len(texts)),
					Run: func(x *X) {
						a := archs[which[x.Choose(len(which))]]
						kind := x.Choose(nConsumers)
						if kind == 5 && a.sizes != nil {
							return
						}
						ents := append(append([]cent{}, a.ents[:min(2, len(a.ents))]...), trailer())
						var raw []byte
						what := a.name
						for i, e := range ents {
							b := e.bytes()
							if m := x.Dev(nMagic); m > 0 {
								copy(b, []string{"070702", "070707", "07070x", "07070X", "\x00\x00\x00\x00\x00\x00", "070701"}[m-1])
								what += fmt.Sprintf(", magic %d of entry %d", m, i)
							}
							fs := fields
							if e.stripped {
								fs = []int{0}
							}
							for _, f := range fs {
								if k := x.Dev(len(texts) + 1); k > 0 {
									copy(b[6+8*f:], texts[k-1])
									what += fmt.Sprintf(", field %d of entry %d = %q", f, i, texts[k-1])
								}
							}
							raw = append(raw, b...)
						}
						x.Logf("%s, reader %d", what, kind)
						x.State(raw, kind)
						judge(x, raw, kind, bytes.NewReader(raw), a.sizes, false, what)
					},
				}
			}
			return []*Part{
				{
					Name:    "ends",
					Scratch: true,
					Desc:    fmt.Sprintf("%d archives cut at or failing at every byte, error with or after the last bytes, whole or byte by byte, read fully, skipped, partly, byte by byte, with CpioStream, extracted", len(archs)),
					Run: func(x *X) {
						a := archs[x.Choose(len(archs))]
						raw := archive(a.ents...)
						k := x.Choose(len(raw) + 1)
						c := &chunkReader{data: raw, failAt: k, withEOF: x.Bool()}
						if x.Bool() {
							c.err = errInjected
						}
						if x.Bool() {
							c.size = func(_, _ int) int { return 1 }
						}
						kind := x.Choose(nConsumers)
						if kind == 5 && a.sizes != nil {
							return
						}
						what := fmt.Sprintf("%s, %d of %d bytes (error %v), reader %d", a.name, k, len(raw), c.err, kind)
						x.Logf("%s", what)
						x.State(x.prefix())
						judge(x, raw[:k], kind, c, a.sizes, c.err != nil, what)
					},
				},
				{
					Name:    "tails",
					Scratch: true,
					Desc:    fmt.Sprintf("%d archives of which everything after any byte is replaced by zeros, 0xff, blanks, digits 0, newlines or the archive's beginning, as long as what is missing, or 1, 6, 110, 512 or 5000 bytes; read in 6 ways", len(archs)),
					Run: func(x *X) {
						a := archs[x.Choose(len(archs))]
						raw := archive(a.ents...)
						k := x.Choose(len(raw) + 1)
						kind := x.Choose(nConsumers)
						if kind == 5 && a.sizes != nil {
							return
						}
						f := x.Choose(6)
						n := []int{len(raw) - k, 1, 6, 110, 512, 5000}[x.Choose(6)]
						b := bytes.Clone(raw[:k])
						if f < 5 {
							b = append(b, bytes.Repeat([]byte{[]byte{0, 0xff, ' ', '0', '\n'}[f]}, n)...)
						} else {
							b = append(b, bytes.Repeat(raw, n/len(raw)+1)[:n]...)
						}
						what := fmt.Sprintf("%s, %d of %d bytes, then %d of kind %d, reader %d", a.name, k, len(raw), n, f, kind)
						x.Logf("%s", what)
						x.State(x.prefix())
						judge(x, b, kind, bytes.NewReader(b), a.sizes, false, what)
					},
				},
				{
					Name:    "digits",
					Scratch: true,
					Desc:    fmt.Sprintf("%d archives in which one digit of one number of one entry or the trailer is replaced by every byte that is no hexadecimal digit (and, in the first place, no sign), read in 6 ways: an error", len(archs)),
					Run: func(x *X) {
						a := archs[x.Choose(len(archs))]
						kind := x.Choose(nConsumers)
						if kind == 5 && a.sizes != nil {
							return
						}
						ents := append(append([]cent{}, a.ents...), trailer())
						k := x.Choose(len(ents))
						nf := 13
						if ents[k].stripped {
							nf = 1
						}
						f, d := x.Choose(nf), x.Choose(8)
						vals := nonHex[:]
						if !thorough && (f+d)%4 > 0 {
							vals = []byte{0, ' ', '_', 'g', 'G', '/', ':', '@', '\x60', 'x', 'l', 0x80}
						}
						v := vals[x.Choose(len(vals))]
						if d == 0 && (v == '+' || v == '-') {
							return
						}
						var raw []byte
						for i, e := range ents {
							b := e.bytes()
							if i == k {
								b[6+8*f+d] = v
							}
							raw = append(raw, b...)
						}
						what := fmt.Sprintf("%s, digit %d of number %d of entry %d is %q, reader %d", a.name, d, f, k, v, kind)
						x.Logf("%s", what)
						x.State(x.prefix())
						if done, trace := consume(x, kind, bytes.NewReader(raw), a.sizes, what); done {
							x.Fail("%s: presented as complete after %q", what, trace)
						}
						x.Validated()
					},
				},
				fieldsPart("fields", budget, map[bool][]int{false: {2, 3, 4, 6}, true: {1, 2, 3, 4, 5, 6, 7}}[thorough], map[bool][]int{false: {0, 1, 4, 6, 7, 11, 12}, true: {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}}[thorough], c13texts, 7),
				fieldsPart("fields-triples", 3, map[bool][]int{false: {4}, true: {2, 3, 4, 6}}[thorough], []int{1, 4, 6, 11}, []string{"00000000", "00000003", "0000006e", "7fffffff", "ffffffff", "-000006e"}[:map[bool]int{false: 4, true: 6}[thorough]], map[bool]int{false: 1, true: 4}[thorough]),
				{
					Name: "supplied-sizes",
					Desc: "stripped archive of 2 entries with every pair of 16 boundary sizes supplied, with index fields at boundary texts and too few sizes, the files' contents missing or not, read in 5 ways",
					Run: func(x *X) {
						vals := []int64{0, 1, 3, 6, 7, -1, -2, -14, -17, -1 << 31, -1 << 63, 1<<31 - 1, 1 << 32, 1 << 62, 1<<63 - 1, 1<<63 - 4, 1<<63 - 18}
						sizes := []int64{vals[x.Choose(len(vals))], vals[x.Choose(len(vals))]}
						switch x.Choose(4) {
						case 1:
							sizes = sizes[:1]
						case 2:
							sizes = sizes[:0]
						case 3:
							sizes = nil
						}
						a := archs[6]
						raw := archive(a.ents...)
						switch x.Choose(3) { // what would be the content looks like an archive
						case 1:
							raw = archive(cent{stripped: true}, cent{stripped: true, index: 1})
						case 2:
							raw = append([]byte("07070X0000000007070X00000001"), archive()...)
						}
						if k := x.Choose(5); k > 0 {
							copy(raw[6:], []string{"00000002", "7fffffff", "ffffffff", "-0000001"}[k-1])
						}
						kind := x.Choose(5)
						what := fmt.Sprintf("sizes %v, reader %d", sizes, kind)
						x.Logf("%s", what)
						x.State(x.prefix())
						judge(x, raw, kind, bytes.NewReader(raw), sizes, false, what)
					},
				},
				{
					Name: "missing-content", Scratch: true,
					Desc: "stripped and ordinary archives whose last entry declares n + 2^k bytes (k = 0..62; ordinary: 0..31) of which n are there, followed by nothing or a trailer, read in 7 ways: an error",
					Run: func(x *X) {
						k := x.Choose(63)
						n := []int{0, 1, 4, 300}[x.Choose(4)]
						size := int64(n) + 1<<k
						if size < 0 {
							return
						}
						var raw []byte
						if x.Bool() {
							raw = archive(cent{name: "first", mode: mREG | 0644, nlink: 1, data: []byte("1234")})
							raw = raw[:len(raw)-len(trailer().bytes())]
						}
						if x.Bool() {
							if size >= 1<<32 {
								return
							}
							var b bytes.Buffer
							cent{name: "f", mode: mREG | 0644, nlink: 1}.write(&b, int(uint32(size)))
							raw = append(raw, b.Bytes()...)
						} else {
							raw = append(raw, cent{stripped: true}.bytes()[:14]...)
						}
						raw = append(raw, fileData(1, n)...)
						if size > 4096 && x.Bool() {
							raw = append(raw, make([]byte, -len(raw)&3)...)
							raw = append(raw, trailer().bytes()...)
						}
						kind := x.Choose(7)
						what := fmt.Sprintf("last entry of %d bytes, %d present, reader %d", size, n, kind)
						x.Logf("%s", what)
						x.State(x.prefix())
						if done, trace := consume(x, kind, bytes.NewReader(raw), []int64{size}, what); done {
							x.Fail("%s: presented as complete after %q", what, trace)
						}
						x.Validated()
					},
				},
				{
					Name: "calls-after-error",
					Desc: "archives cut at every 5th byte, failing once or for good, or with a bad field; every sequence of 5 calls out of Next, Read(0), Read(3): no crash, and no byte beyond the declared size",
					Run: func(x *X) {
						a := archs[x.Choose(len(archs))]
						raw := archive(a.ents...)
						k := 5 * x.Choose(len(raw)/5+1)
						fail := x.Choose(3)
						var r io.Reader = &chunkReader{data: raw, failAt: k}
						if fail == 1 {
							r = &failOnce{r: bytes.NewReader(raw), at: k}
						} else if fail == 2 {
							b := append([]byte{}, raw...)
							if k < len(b) {
								b[k] = '-'
							}
							r = bytes.NewReader(b)
						}
						rd := newCpioReader(r, a.sizes)
						x.State(x.prefix())
						var left int64
						for i := 0; i < 5; i++ {
							x.Step()
							op := x.Choose(3)
							if op == 0 {
								// when Next fails the current file remains
								if h, err := rd.Next(); err == nil {
									left = h.Filesize64()
								}
							} else {
								n, _ := rd.Read(make([]byte, []int{0, 3}[op-1]))
								left -= int64(n)
								if left < 0 {
									x.Fail("%s cut at %d: bytes beyond the file are delivered", a.name, k)
								}
							}
						}
						x.Validated()
					},
				},
				{
					Name:    "allocation",
					Workers: 1,
					Scratch: true,
					Desc:    "one field at a time of a file, symlink and hard link entry set to each text, followed by 0 to 2 MiB of data, read in 5 ways and extracted: bytes allocated stay below 4 MiB + 64 x input",
					Run: func(x *X) {
						k := x.Choose(4)
						var e cent
						switch k {
						case 0:
							e = c12ent(0, 3, 5)
						case 1:
							e = cent{name: "ln", mode: mLNK | 0777, nlink: 1, data: []byte("target")}
						case 2:
							e = cent{name: "h", mode: mREG | 0644, nlink: 2, ino: 5}
						case 3:
							e = cent{stripped: true, index: 0, data: []byte("abc")}
						}
						b := e.bytes()
						if !e.stripped {
							f := []int{6, 11}[x.Choose(2)]
							t := c13texts[x.Choose(len(c13texts))]
							copy(b[6+8*f:], t)
							x.Logf("field %d = %q", f, t)
						}
						b = append(b, make([]byte, []int{0, 100, 2 << 20}[x.Choose(3)])...)
						kind := x.Choose(nConsumers)
						var sizes []int64
						if e.stripped {
							sizes = []int64{[]int64{1 << 20, 1 << 40, 1<<63 - 20}[x.Choose(3)]}
							if kind == 3 {
								kind = 0
							}
						}
						if kind == 3 && len(b) > 1000 {
							return
						}
						x.State(x.prefix())
						limit := uint64(4<<20) + 64*uint64(len(b))
						before := heapAllocs()
						consume(x, kind, bytes.NewReader(b), sizes, "allocation")
						if n := heapAllocs() - before; n > limit {
							x.Fail("reader %d allocates %d bytes for %d", kind, n, len(b))
						}
						x.Validated()
					},
				},
			}
		},
	})
}

// nonHex lists the bytes that are no hexadecimal digits.
var nonHex = func() (out []byte) {
	for c := 0; c < 256; c++ {
		if !bytes.ContainsRune([]byte("0123456789abcdefABCDEF"), rune(c)) || c >= 0x80 {
			out = append(out, byte(c))
		}
	}
	return
}()

// failOnce fails at one position and continues after.
type failOnce struct {
	r    io.Reader
	at   int
	pos  int
	done bool
}

var errOnce = errors.New("transient failure")

func (f *failOnce) Read(p []byte) (int, error) {
	if !f.done && f.pos+len(p) > f.at {
		if f.pos >= f.at {
			f.done = true
			return 0, errOnce
		}
		p = p[:f.at-f.pos]
	}
	n, err := f.r.Read(p)
	f.pos += n
	return n, err
}
