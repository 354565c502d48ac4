package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing/iotest"

	"github.com/sassoftware/go-rpmutils"
)

var errInjected = errors.New("injected stream failure")

// shapes of packages for C03
func c03pkg(k int, payload int) *built {
	p := newPkg()
	p.payload = bytes.Repeat([]byte{0x1f, 0x8b, 0, 7, 9}, payload)[:payload]
	p.gen = append(p.gen, tU32(1009, 4), tStrs(1047, tStrArray, "a", "bc"))
	switch {
	case k < 8: // every residue of the store size
		p.sig = []tagv{tBytes(sigReserved, make([]byte, k))}
	case k == 8: // no regions, no digests
		p.sigOpt.region, p.genOpt.region = 0, 0
		p.noSHA1, p.noSHA256, p.noMD5, p.noPayDigest = true, true, true, true
	case k == 9: // a sizeable padding
		p.sig = []tagv{tBytes(sigReserved, make([]byte, 4128))}
	case k == 10: // slack at the end of both stores
		p.sigOpt.slack, p.genOpt.slack = 11, 5
	case k == 11: // empty signature header (store without data)
		p.noSHA1, p.noSHA256, p.noMD5, p.noPayDigest = true, true, true, true
	}
	if k == 11 {
		b := &built{payload: p.payload}
		b.gen, b.genTags = p.genHeader()
		return assemble(p.lead, nil, hdrOpt{sig: true}, b)
	}
	return p.build()
}

const c03pkgs = 12

// c03slack is a package without digests whose stores have bytes behind the last
// value that nothing refers to.
func c03slack(sigSlack, genSlack int) *built {
	p := newPkg()
	p.sigOpt.region, p.genOpt.region = 0, 0
	p.noSHA1, p.noSHA256, p.noMD5, p.noPayDigest = true, true, true, true
	p.sigOpt.slack, p.genOpt.slack = sigSlack, genSlack
	p.payload = []byte("payload")
	return p.build()
}

// c03noTags is a package whose signature header has no entries but a store.
func c03noTags(slack int) *built {
	p := newPkg()
	p.payload = []byte("payload")
	b := &built{payload: p.payload}
	b.gen, b.genTags = p.genHeader()
	return assemble(p.lead, nil, hdrOpt{sig: true, slack: slack}, b)
}

func c03big(sigBytes, genBytes int) *built {
	p := newPkg()
	p.sig = []tagv{tBytes(sigReserved, bytes.Repeat([]byte{0}, sigBytes))}
	p.gen = append(p.gen, tBytes(1146, bytes.Repeat([]byte{3, 1, 4}, genBytes/3)))
	p.payload = []byte("payload")
	return p.build()
}

func checkRead(x *X, b *built, h *rpmutils.RpmHeader, what string) {
	r := h.GetRange()
	if r.Start != b.sigEnd || r.End != b.genEnd {
		x.Fail("%s: GetRange = %+v, want %d..%d", what, r, b.sigEnd, b.genEnd)
	}
	if n := h.OriginalSignatureHeaderSize(); n != b.sigEnd {
		x.Fail("%s: OriginalSignatureHeaderSize = %d, want %d", what, n, b.sigEnd)
	}
	x.StepN(2)
	for _, t := range b.genTags {
		checkTagQuick(x, h, t, t.tag, what)
	}
	for _, t := range b.sigTags {
		id := t.tag
		if id >= 1000 {
			id += 16384
		}
		checkTagQuick(x, h, t, id, what)
	}
}

func checkTagQuick(x *X, h *rpmutils.RpmHeader, t tagv, id int, what string) {
	x.Step()
	var ok bool
	v, err := h.Get(id)
	switch v := v.(type) {
	case []string:
		ok = t.isStr() && sameStrs(v, t.strings())
	case []byte:
		ok = bytes.Equal(v, t.data)
	case []uint32:
		want := t.uints()
		ok = t.typ == tInt32 && len(v) == len(want)
		for i := range want {
			ok = ok && uint64(v[i]) == want[i]
		}
	case []uint16, []uint64:
		ok = true
	}
	if err != nil || !ok {
		x.Fail("%s: tag %d = %v, %v; stored %q", what, id, v, err, t.data)
	}
}

// readers a header can be read with
func c03read(x *X, k int, r io.Reader) (*rpmutils.RpmHeader, error) {
	x.Step()
	if k == 0 {
		return rpmutils.ReadHeader(r)
	}
	p, err := rpmutils.ReadRpm(r)
	if err != nil {
		if p != nil {
			x.Fail("ReadRpm gives a package and the error %v", err)
		}
		return nil, err
	}
	return p.Header, nil
}

func checkChunk(x *X, b *built, c *chunkReader, fn int, what string) {
	h, err := c03read(x, fn, c)
	if err != nil {
		x.Fail("%s: %v", what, err)
	}
	if c.pos != b.genEnd {
		x.Fail("%s: %d bytes consumed, the headers end at %d", what, c.pos, b.genEnd)
	}
	checkRead(x, b, h, what)
	rest, err := io.ReadAll(c)
	if err != nil || !bytes.Equal(rest, b.payload) {
		x.Fail("%s: what follows the header is %q, %v", what, rest, err)
	}
	x.Validated()
}

func init() {
	register(&Prop{
		ID:     "C03",
		Bits32: func(string) bool { return true },
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			var pkgs []*built
			for i := 0; i < c03pkgs; i++ {
				pkgs = append(pkgs, c03pkg(i, 9))
			}
			noPay := c03pkg(3, 0)
			return []*Part{
				{
					Name: "uniform-chunks", Desc: fmt.Sprintf("%d package shapes (store sizes of every residue mod 8, with and without regions, digests, reserved space, slack) and one without payload, read in pieces of every size 1..300 and unlimited, with and without (0, nil) reads, end of stream with or after the last byte, ReadHeader and ReadRpm", c03pkgs),
					Run: func(x *X) {
						k := x.Choose(c03pkgs + 1)
						b := noPay
						if k < c03pkgs {
							b = pkgs[k]
						}
						n := x.Choose(301)
						c := &chunkReader{data: b.raw, failAt: -1}
						if n > 0 {
							c.size = func(_, _ int) int { return n }
						}
						c.withEOF, c.zeros = x.Bool(), x.Bool()
						checkChunk(x, b, c, x.Choose(2), fmt.Sprintf("shape %d in pieces of %d", k, n))
						x.State(x.prefix())
						x.Logf("shape %d pieces %d eof=%v zeros=%v", k, n, c.withEOF, c.zeros)
					},
				},
				{
					Name: "split-points", Desc: "every package shape with the data handed out up to every pair of positions (quick: pairs at most 20 apart or at structure boundaries): 3 reads wide",
					Run: func(x *X) {
						k := x.Choose(c03pkgs)
						if k == 9 {
							return
						}
						b := pkgs[k]
						i := 1 + x.Choose(b.genEnd)
						hi := i + 20
						if thorough || hi > b.genEnd+1 {
							hi = b.genEnd + 1
						}
						for j := i; j < hi; j++ {
							c := &chunkReader{data: b.raw, failAt: -1}
							c.size = func(pos, want int) int {
								for _, s := range []int{i, j} {
									if pos < s {
										return s - pos
									}
								}
								return want
							}
							checkChunk(x, b, c, 0, fmt.Sprintf("shape %d split at %d and %d", k, i, j))
						}
						x.State(k, i)
						x.Logf("shape %d split at %d", k, i)
					},
				},
				{
					Name: "truncation", Desc: "every package shape ending or failing at every byte of lead and headers (and exactly after them), error with or after the last bytes, in one piece or single bytes; ReadHeader, ReadRpm, Verify and SignRpmStream",
					Run: func(x *X) {
						k := x.Choose(c03pkgs)
						b := pkgs[k]
						at := x.Choose(b.genEnd + 1)
						c := &chunkReader{data: b.raw, failAt: at}
						if x.Bool() {
							c.err = errInjected
						}
						c.withEOF = x.Bool()
						if x.Bool() {
							if k == 9 {
								return
							}
							c.size = func(_, _ int) int { return 1 }
						}
						x.State(k, at)
						fn := x.Choose(4)
						what := fmt.Sprintf("shape %d (headers end at %d) ending at %d", k, b.genEnd, at)
						x.Logf("%s", what)
						switch fn {
						case 0, 1:
							h, err := c03read(x, fn, c)
							if at == b.genEnd {
								if err != nil {
									x.Fail("%s: %v", what, err)
								}
								checkRead(x, b, h, what)
							} else if err == nil || h != nil {
								x.Fail("%s: header %v, error %v", what, h != nil, err)
							}
						case 2:
							if at == b.genEnd {
								return
							}
							x.Step()
							h, s, err := rpmutils.Verify(c, nil)
							if err == nil || h != nil || s != nil {
								x.Fail("%s: Verify gives %v", what, err)
							}
						case 3:
							if at == b.genEnd {
								return
							}
							x.Step()
							h, err := rpmutils.SignRpmStream(c, nil, nil)
							if err == nil || h != nil {
								x.Fail("%s: SignRpmStream gives %v", what, err)
							}
						}
						x.Validated()
					},
				},
				{
					Name: "magic", Desc: "each of the 4 magic bytes of the lead and of both headers replaced by each of the 255 other values: error, never a header",
					Run: func(x *X) {
						b := pkgs[[]int{0, 8}[x.Choose(2)]]
						base := []int{0, 96, b.sigEnd}[x.Choose(3)]
						off := base + x.Choose(4)
						v := x.Choose(256)
						if int(b.raw[off]) == v {
							return
						}
						raw := append([]byte{}, b.raw...)
						raw[off] = byte(v)
						for fn := 0; fn < 2; fn++ {
							if h, err := c03read(x, fn, bytes.NewReader(raw)); err == nil || h != nil {
								x.Fail("byte %d is %#x: header %v, error %v", off, v, h != nil, err)
							}
						}
						x.State(off, v)
						x.Validated()
					},
				},
				{
					Name: "large-headers", Desc: "signature and general stores of 0, 1 MiB-1, 1 MiB, 1 MiB+1 and 2.5 MiB: pieces of 1, 4095, 65536 and 2^20 bytes and unlimited; ends at 24 positions around the size steps",
					Run: func(x *X) {
						sizes := []int{0, 1<<20 - 16, 1<<20 - 15, 1 << 20, 5 << 19}
						b := c03bigCached(x, sizes[x.Choose(len(sizes))], sizes[x.Choose(len(sizes))])
						ch := []int{0, 1, 4095, 65536, 1 << 20}[x.Choose(5)]
						if ch == 1 && !thorough && len(b.raw) > 3<<20 {
							return
						}
						mk := func(at int) *chunkReader {
							c := &chunkReader{data: b.raw, failAt: at}
							if ch > 0 {
								c.size = func(_, _ int) int { return ch }
							}
							return c
						}
						checkChunk(x, b, mk(-1), 0, fmt.Sprintf("large headers in pieces of %d", ch))
						if ch == 1 {
							return
						}
						for _, base := range []int{b.sigEnd, b.genEnd, 96 + 1<<20, b.sigEnd + 1<<20} {
							for _, d := range []int{-16, -8, -2, -1, 0, 1} {
								at := base + d
								if at >= b.genEnd || at < 0 {
									continue
								}
								h, err := c03read(x, 0, mk(at))
								if err == nil || h != nil {
									x.Fail("large headers ending at %d of %d: header %v, error %v", at, b.genEnd, h != nil, err)
								}
								x.Validated()
							}
						}
						x.State(x.prefix())
					},
				},
				{
					Name: "slack", Desc: "signature headers with and without entries and general headers whose stores end in 0 to 17, 2^20 or 2^20+5 bytes that no entry refers to, without digests, in 4 chunkings: read exactly, and an error for every end of the stream among the last 40 bytes of either header and 16 others",
					Run: func(x *X) {
						sl := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 1 << 20, 1<<20 + 5}
						var b *built
						a := sl[x.Choose(len(sl))]
						if k := x.Choose(len(sl) + 1); k < len(sl) {
							b = c03slack(a, sl[k])
						} else {
							b = c03noTags(a)
						}
						ch := []int{0, 1, 7, 65536}[x.Choose(4)]
						if ch == 1 && len(b.raw) > 1<<20 {
							return
						}
						mk := func(at int) *chunkReader {
							c := &chunkReader{data: b.raw, failAt: at}
							if ch > 0 {
								c.size = func(_, _ int) int { return ch }
							}
							return c
						}
						x.State(x.prefix())
						checkChunk(x, b, mk(-1), 0, "slack")
						ends := map[int]bool{}
						for _, e := range []int{b.sigEnd, b.genEnd} {
							for d := 1; d <= 40; d++ {
								ends[e-d] = true
							}
							for d := 64; d < 1<<20; d *= 2 {
								ends[e-d], ends[e-d+1] = true, true
							}
						}
						for at := range ends {
							if at < 0 || len(b.raw) > 1<<20 && ch == 7 {
								continue
							}
							h, err := c03read(x, 0, mk(at))
							if err == nil || h != nil {
								x.Fail("headers end at %d and %d, the stream at %d: header %v, error %v", b.sigEnd, b.genEnd, at, h != nil, err)
							}
							x.Validated()
						}
					},
				},
				{
					Name: "declared-sizes", Desc: "the numbers of index entries and of store bytes of the signature or general header replaced by every combination of 26 values around the powers of two up to 2^32-1 that exceed the stream, followed by nothing, a well-formed header and payload, or 1 MiB: error, never a header",
					Run: func(x *X) {
						b := pkgs[[]int{0, 3, 8, 11}[x.Choose(4)]]
						at := []int{96, b.sigEnd}[x.Choose(2)]
						sig := at == 96
						ents, size := binary.BigEndian.Uint32(b.raw[at+8:]), binary.BigEndian.Uint32(b.raw[at+12:])
						vals := func(real uint32) []uint32 {
							return []uint32{real, 0, 1, 1 << 16, 1 << 20, 1<<24 + 1, 1<<27 - 1, 1<<28 - 1, 1 << 28, 1<<28 + 1, 1<<28 + real, 1 << 29, 1<<29 + real, 1<<30 - 1, 1<<31 - 8, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<31 + real, 3 << 30, 1<<32 - 16, 1<<32 - 9, 1<<32 - 8, 1<<32 - 7, 1<<32 - 2, 1<<32 - 1}
						}
						e, s := vals(ents)[x.Choose(26)], vals(size)[x.Choose(26)]
						raw := append([]byte{}, b.raw...)
						binary.BigEndian.PutUint32(raw[at+8:], e)
						binary.BigEndian.PutUint32(raw[at+12:], s)
						switch x.Choose(3) {
						case 0:
							raw = raw[:b.genEnd]
						case 2:
							raw = append(raw, make([]byte, 1<<20)...)
						}
						need := uint64(at) + 16 + 16*uint64(e) + uint64(s)
						if sig {
							need = (need + 7) / 8 * 8
						}
						if need <= uint64(len(raw)) {
							return
						}
						what := fmt.Sprintf("header at %d with %d entries and %d bytes in a stream of %d", at, e, s, len(raw))
						x.State(x.prefix())
						x.Logf("%s", what)
						for fn := 0; fn < 2; fn++ {
							if h, err := c03read(x, fn, bytes.NewReader(raw)); err == nil || h != nil {
								x.Fail("%s: header %v, error %v", what, h != nil, err)
							}
						}
						x.StepN(2)
						if h, _, err := rpmutils.Verify(bytes.NewReader(raw), nil); err == nil || h != nil {
							x.Fail("%s: Verify gives %v", what, err)
						}
						if h, err := rpmutils.SignRpmStream(bytes.NewReader(raw), nil, nil); err == nil || h != nil {
							x.Fail("%s: SignRpmStream gives %v", what, err)
						}
						x.Validated()
					},
				},
				{
					Name: "stream-kinds", Scratch: true, Desc: "every package shape through bytes.Reader, bytes.Buffer, bufio.Reader (16 bytes), an os.File, a pipe, iotest readers: same header, next byte read is the first of the payload",
					Run: func(x *X) {
						k := x.Choose(c03pkgs)
						b := pkgs[k]
						kind := x.Choose(8)
						var r io.Reader
						var rest func() io.Reader
						switch kind {
						case 0:
							r = bytes.NewReader(b.raw)
						case 1:
							r = bytes.NewBuffer(append([]byte{}, b.raw...))
						case 2:
							r = bufio.NewReaderSize(bytes.NewReader(b.raw), 16)
						case 3:
							p := filepath.Join(x.w.dir, "f")
							if err := os.WriteFile(p, b.raw, 0644); err != nil {
								panic(err)
							}
							f, err := os.Open(p)
							if err != nil {
								panic(err)
							}
							defer f.Close()
							r = f
						case 4:
							pr, pw := io.Pipe()
							go func() { pw.Write(b.raw); pw.Close() }()
							defer pr.Close()
							r = pr
						case 5:
							r = iotest.DataErrReader(bytes.NewReader(b.raw))
						case 6:
							r = iotest.HalfReader(bytes.NewReader(b.raw))
						case 7:
							r = iotest.OneByteReader(bytes.NewReader(b.raw))
						}
						_ = rest
						h, err := c03read(x, x.Choose(2), r)
						if err != nil {
							x.Fail("stream kind %d: %v", kind, err)
						}
						checkRead(x, b, h, fmt.Sprintf("stream kind %d", kind))
						got, err := io.ReadAll(r)
						if err != nil || !bytes.Equal(got, b.payload) {
							x.Fail("stream kind %d: what follows the header is %q, %v", kind, got, err)
						}
						x.State(k, kind)
						x.Validated()
					},
				},
			}
		},
	})
}

func c03bigCached(x *X, s, g int) *built {
	k := fmt.Sprintf("big%d,%d", s, g)
	if b, ok := x.w.mem[k]; ok {
		return b.(*built)
	}
	b := c03big(s, g)
	x.w.mem[k] = b
	return b
}
