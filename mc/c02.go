package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"runtime/metrics"

	"github.com/ProtonMail/go-crypto/openpgp"

	"github.com/sassoftware/go-rpmutils"
)

// heapAllocs is the number of bytes allocated so far by this process.
func heapAllocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// accessAll calls every accessor; only a panic, a hang or an inconsistent answer
// is wrong.
func accessAll(x *X, h *rpmutils.RpmHeader, tags []int) {
	for _, t := range tags {
		x.StepN(10)
		has := h.HasTag(t)
		h.Get(t)
		ss, err := h.GetStrings(t)
		s, err1 := h.GetString(t)
		if (err1 == nil) != (err == nil && len(ss) == 1) || err1 == nil && s != ss[0] {
			x.Fail("tag %d: GetString = %q, %v, GetStrings = %q, %v", t, s, err1, ss, err)
		}
		is, err := h.GetInts(t)
		i, err1 := h.GetInt(t)
		if (err1 == nil) != (err == nil && len(is) == 1) || err1 == nil && i != is[0] {
			x.Fail("tag %d: GetInt = %d, %v, GetInts = %d, %v", t, i, err1, is, err)
		}
		us, err := h.GetUint32s(t)
		u, err1 := h.GetUint32(t)
		if (err1 == nil) != (err == nil && len(us) == 1) || err1 == nil && u != us[0] {
			x.Fail("tag %d: GetUint32 = %d, %v, GetUint32s = %d, %v", t, u, err1, us, err)
		}
		ls, err := h.GetUint64s(t)
		l, err1 := h.GetUint64(t)
		if (err1 == nil) != (err == nil && len(ls) == 1) || err1 == nil && l != ls[0] {
			x.Fail("tag %d: GetUint64 = %d, %v, GetUint64s = %d, %v", t, l, err1, ls, err)
		}
		_, err = h.GetBytes(t)
		if !has && err == nil {
			x.Fail("tag %d is absent and GetBytes succeeds", t)
		}
		h.GetUint64Fallback(t, 5009)
		h.GetUint64Fallback(1009, t)
	}
	x.StepN(8)
	if v, err := h.GetNEVRA(); err == nil {
		if v == nil {
			x.Fail("GetNEVRA returns nothing")
		}
		_ = v.String()
	}
	files, err := h.GetFiles()
	if names, nerr := h.GetStrings(1027); err == nil && nerr == nil && len(files) != len(names) {
		x.Fail("GetFiles gives %d files for %d names", len(files), len(names))
	}
	if err != nil && files != nil {
		x.Fail("GetFiles returns files with an error")
	}
	for _, f := range files {
		if f == nil {
			x.Fail("GetFiles returns a nil file")
		}
		f.Name()
		f.Size()
		f.UserName()
		f.GroupName()
		f.Flags()
		f.Mtime()
		f.Digest()
		f.Mode()
		f.Linkname()
		f.Device()
		f.Inode()
	}
	h.InstalledSize()
	h.PayloadSize()
	h.IsSource()
	r := h.GetRange()
	if n := h.OriginalSignatureHeaderSize(); r.Start != n || r.End < n {
		x.Fail("GetRange %+v, signature header %d", r, n)
	}
	for _, same := range []bool{true, false} {
		h.DumpSignatureHeader(same)
	}
}

// exercise gives raw to everything that reads packages.
func exercise(x *X, raw []byte, tags []int, what string) {
	x.StepN(5)
	if h, err := rpmutils.ReadHeader(bytes.NewReader(raw)); err == nil {
		x.Outcome("read")
		if h == nil {
			x.Fail("%s: neither header nor error", what)
		}
		accessAll(x, h, tags)
	} else if h != nil {
		x.Fail("%s: header and error %v", what, err)
	} else {
		x.Outcome(err.Error())
	}
	for _, l := range []openpgp.EntityList{nil, cached(x, "ring", func() openpgp.EntityList { return ring("eddsa") })} {
		h, sigs, err := rpmutils.Verify(bytes.NewReader(raw), l)
		if (err == nil) != (h != nil) || err != nil && sigs != nil {
			x.Fail("%s: Verify returns %v %v %v", what, h != nil, sigs, err)
		}
		if err == nil {
			accessAll(x, h, tags[:min(len(tags), 3)])
		}
	}
	if h, err := rpmutils.SignRpmStream(bytes.NewReader(raw), cached(x, "key", func() signer { return signerNamed("eddsa") }).priv, nil); err == nil {
		accessAll(x, h, tags[:min(len(tags), 3)])
	} else if h != nil {
		x.Fail("%s: SignRpmStream returns a header and %v", what, err)
	}
	if rpm, err := rpmutils.ReadRpm(bytes.NewReader(raw)); err == nil {
		if pr, err := rpm.PayloadReaderExtended(); err == nil {
			for i := 0; i < 4; i++ {
				if _, err := pr.Next(); err != nil {
					break
				}
				pr.IsLink()
				io.Copy(io.Discard, pr)
			}
		}
	}
	x.Validated()
}

// c02tags are the tags that something interprets.
var c02tags = []int{62, 63, 100, 256, 257, 267, 268, 269, 270, 271, 273, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1007, 1008, 1009, 1022, 1027, 1028, 1030, 1034, 1035, 1036, 1037, 1039, 1040, 1095, 1096, 1116, 1117, 1118, 1124, 1125, 5008, 5009, 5092, 5093,
	16384 + 1000, 16384 + 1002, 16384 + 1004, 16384 + 1005, 16384 + 1007, 16384 + 1008, 16384 + 62, 0, -1}

// c02field is one 32-bit field of a header.
type c02field struct {
	off  int
	name string
	vals []uint32
}

// headerFields lists the fields of the header at raw[start:] with boundary values.
func headerFields(raw []byte, start int, sigTags bool) (out []c02field) {
	n := int(binary.BigEndian.Uint32(raw[start+8:]))
	size := uint32(binary.BigEndian.Uint32(raw[start+12:]))
	const big = 1<<32 - 1
	un := uint32(n)
	out = append(out,
		c02field{start, "magic", []uint32{0, 0x8eade802}},
		c02field{start + 4, "reserved", []uint32{1, big}},
		c02field{start + 8, "entries", []uint32{0, 1, un - 1, un + 1, 2 * un, 1 << 16, 1<<28 - 1, 1 << 28, 1<<28 + 1, 1<<28 + un, 1 << 31, big}},
		c02field{start + 12, "size", []uint32{0, 1, size - 1, size + 1, size - 16, size + 8, 1 << 20, 1<<31 - 1, 1 << 31, big - 7, big - 6, big}},
	)
	tagVals := []uint32{0, big, 1 << 31, 1<<31 - 1, 1000, 1003, 1028, 1030, 1116, 1117, 1118, 1027, 5008, 5009, 1009, 5092, 5093}
	if sigTags {
		tagVals = []uint32{0, big, 1 << 31, 1<<31 - 1, 62, 267, 268, 269, 271, 273, 1002, 1004, 1005, 1007, 1008, 16384}
	}
	for i := 0; i < n; i++ {
		o := start + 16 + 16*i
		off := binary.BigEndian.Uint32(raw[o+8:])
		count := binary.BigEndian.Uint32(raw[o+12:])
		id := int32(binary.BigEndian.Uint32(raw[o:]))
		name := func(f string) string { return fmt.Sprintf("%s of entry %d (tag %d)", f, i, id) }
		out = append(out,
			c02field{o, name("tag"), tagVals},
			c02field{o + 4, name("type"), []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 1<<31 - 1, 1 << 31, big}},
			c02field{o + 8, name("offset"), []uint32{0, 1, off + 1, off - 1, size - 1, size, size + 1, size + 8, 1<<31 - 1, 1<<31 - 8, 1 << 31, big, big - 15}},
			c02field{o + 12, name("count"), []uint32{0, 1, count + 1, count - 1, size - off, size - off + 1, size, size + 1, 1 << 28, 1 << 29, 1<<29 - 1, 1 << 30, 1<<31 - 1, 1 << 31, big}},
		)
	}
	return
}

// c02bases are packages whose fields are altered. Digests of the general header
// are left out so that altered headers are looked at.
func c02bases() (out []*built) {
	small := &pkg{lead: buildLead("x", false), sigOpt: hdrOpt{region: sigRegion, sig: true}, genOpt: hdrOpt{region: hdrRegion}, noSHA1: true, noSHA256: true, noMD5: true, noPayDigest: true}
	small.gen = []tagv{tStr(1000, "n"), tU32(1003, 7), tStrs(1117, tStrArray, "a", "bc")}
	out = append(out, small.build())
	old := *small
	old.genOpt = hdrOpt{}
	old.sigOpt = hdrOpt{sig: true}
	old.gen = []tagv{tU16(1030, 1, 2), tU64(5009, 5), tBytes(1146, []byte("bin"))}
	old.sig = []tagv{tBytes(sigReserved, make([]byte, 20))}
	out = append(out, old.build())
	full := c02full(fileTags(c02files(), fileOpt{}))
	out = append(out, full.build())
	signed := c02full(nil)
	b := signed.signed(slot{sigRSA, spec("eddsa", issBoth)}, slot{sigPGP, spec("eddsa", issBoth)})
	out = append(out, b)
	md5 := c02full(nil)
	md5.noPayDigest = true
	out = append(out, md5.signed(slot{sigGPG, spec("eddsa", issBoth)}))
	return
}

func c02files() []fileRec {
	return []fileRec{defFile(0, "/d/", "a"), defFile(1, "/e/", "bb")}
}

func c02full(files []tagv) *pkg {
	p := newPkg()
	p.noSHA1, p.noSHA256 = true, true
	p.payload = []byte("07070100000001000081a4000000000000000000000001000000000000000000000000000000000000000000000000000000050000000000000000/d/a\x00\x00")
	p.gen = append(p.gen, tU32(1003, 3), tU32(1009, 5), tStrs(1004, tI18N, "s"))
	p.gen = append(p.gen, files...)
	return p
}

func init() {
	register(&Prop{
		ID:          "C02",
		Bits32:      func(string) bool { return true },
		Assumptions: []string{"allocation is bounded by 4 MiB plus 256 times the bytes supplied when reading, and for accessors additionally by the size of the values returned"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			bases := c02bases()
			smallBudget, fullBudget := 2, 1
			if thorough {
				smallBudget, fullBudget = 3, 2
			}
			fieldsPart := func(name string, which []int, budget int) *Part {
				fields := map[int][]c02field{}
				for _, bi := range which {
					fields[bi] = append(headerFields(bases[bi].raw, 96, true), headerFields(bases[bi].raw, bases[bi].sigEnd, false)...)
				}
				return &Part{
					Name:   name,
					Budget: budget,
					Desc:   fmt.Sprintf("%d packages; every set of up to %d fields of both headers' intros and index entries (tag, type, offset, count) replaced by each of 2-17 boundary values; every accessor, file list, dump, verify, sign", len(which), budget),
					Run: func(x *X) {
						bi := which[x.Choose(len(which))]
						b := bases[bi]
						raw := append([]byte{}, b.raw...)
						what := fmt.Sprintf("package %d", bi)
						for _, f := range fields[bi] {
							if k := x.Dev(len(f.vals) + 1); k > 0 {
								binary.BigEndian.PutUint32(raw[f.off:], f.vals[k-1])
								what += fmt.Sprintf(", %s = %d", f.name, int32(f.vals[k-1]))
							}
						}
						x.Logf("%s", what)
						x.State(raw)
						exercise(x, raw, c02tags, what)
					},
				}
			}
			arrayTypes := []int{tNull, tInt8, tInt16, tInt32, tInt64, tString, tBin, tStrArray, tI18N, 10}
			return []*Part{
				fieldsPart("fields-small", []int{0, 1}, smallBudget),
				fieldsPart("fields", []int{2, 3, 4}, fullBudget),
				{
					Name: "truncations",
					Desc: "each of 5 packages cut at every byte, plain and with the sizes in the intros reduced to what is left",
					Run: func(x *X) {
						bi := x.Choose(len(bases))
						b := bases[bi]
						k := x.Choose(len(b.raw))
						raw := append([]byte{}, b.raw[:k]...)
						x.State(bi, k)
						what := fmt.Sprintf("package %d cut at %d", bi, k)
						exercise(x, raw, c02tags, what)
						for _, start := range []int{96, b.sigEnd} {
							n := int(binary.BigEndian.Uint32(b.raw[start+8:]))
							if k >= start+16+16*n {
								r := append([]byte{}, raw...)
								binary.BigEndian.PutUint32(r[start+12:], uint32(k-start-16-16*n))
								exercise(x, r, c02tags, what+", size adapted")
							} else if k >= start+16 {
								r := append([]byte{}, raw...)
								binary.BigEndian.PutUint32(r[start+8:], uint32((k-start-16)/16))
								binary.BigEndian.PutUint32(r[start+12:], 0)
								exercise(x, r, c02tags, what+", entries adapted")
							}
						}
					},
				},
				{
					Name:   "file-arrays",
					Budget: map[bool]int{false: 2, true: 3}[thorough],
					Desc:   fmt.Sprintf("packages with two files; every set of up to %d of the 14 parallel arrays absent, with 0, 1 or 3 values, of each other type, or (directory indexes) out of range; both name encodings", map[bool]int{false: 2, true: 3}[thorough]),
					Run: func(x *X) {
						ft := fileTags(c02files(), fileOpt{old: x.Bool(), sizes: x.Choose(3)})
						var ts []tagv
						what := ""
						for _, t := range ft {
							extra := 0
							if t.tag == 1116 {
								extra = 4
							}
							k := x.Dev(5 + len(arrayTypes) + extra)
							if k > 0 {
								what += fmt.Sprintf(" tag %d variant %d", t.tag, k)
							}
							switch {
							case k == 0:
							case k == 1:
								continue
							case k <= 4: // other counts
								t = resizeTag(t, []int{0, 1, 3}[k-2])
							case k < 5+len(arrayTypes):
								t.typ = arrayTypes[k-5]
								t.data = bytes.Repeat([]byte{0, 0, 0, 1, 0, 0, 0, 0}, 4)
								if t.isStr() {
									t.data = []byte("x\x00y\x00")
								}
							default:
								t = tU32(1116, [][]uint32{{0, 2}, {1 << 31, 0}, {1<<32 - 1, 0}, {1, 1<<31 - 1}}[k-5-len(arrayTypes)]...)
							}
							ts = append(ts, t)
						}
						b := c02full(ts).build()
						x.Logf("%s", what)
						x.State(b.raw)
						exercise(x, b.raw, c02tags, what)
					},
				},
				{
					Name:   "scalar-tags",
					Budget: 2,
					Desc:   "packages in which up to 2 of NAME, VERSION, RELEASE, ARCH, EPOCH, sizes, payload format, digest and algorithm, and of the signature header's digests and sizes, are absent, have 0, 1 or 3 values or another type; algorithm ids 0..20 and large",
					Run: func(x *X) {
						p := c02full(nil)
						p.noSHA1 = x.Bool()
						p.noSHA256 = x.Bool()
						p.gen = append(p.gen, tU64(5009, 7), tStr(1125, "gzip"))
						what := ""
						mutate := func(t tagv) (tagv, bool) {
							extra := 0
							if t.tag == tagPayAlgo {
								extra = 24
							}
							k := x.Dev(5 + len(arrayTypes) + extra)
							if k > 0 {
								what += fmt.Sprintf(" tag %d variant %d", t.tag, k)
							}
							switch {
							case k == 0:
							case k == 1:
								return t, false
							case k <= 4:
								t = resizeTag(t, []int{0, 1, 3}[k-2])
							case k < 5+len(arrayTypes):
								t.typ = arrayTypes[k-5]
								t.data = bytes.Repeat([]byte{0, 0, 0, 1, 0, 0, 0, 0}, 4)
								t.count = 1
								if t.isStr() {
									t.data = []byte("x\x00")
								}
							default:
								v := uint32(k - 5 - len(arrayTypes))
								if v > 20 {
									v = []uint32{255, 1 << 31, 1<<32 - 1}[v-21]
								}
								t = tU32(tagPayAlgo, v)
							}
							return t, true
						}
						b := &built{payload: p.payload}
						_, gt := p.genHeader()
						for _, t := range gt {
							if t, ok := mutate(t); ok {
								b.genTags = append(b.genTags, t)
							}
						}
						b.gen = buildHdr(b.genTags, p.genOpt)
						var st []tagv
						for _, t := range append(p.digestTags(b.gen), tU64(sigLongArch, 9)) {
							if t, ok := mutate(t); ok {
								st = append(st, t)
							}
						}
						b = assemble(p.lead, st, p.sigOpt, b)
						x.Logf("%s", what)
						x.State(b.raw)
						exercise(x, b.raw, c02tags, what)
					},
				},
				{
					Name: "signature-blobs",
					Desc: fmt.Sprintf("each signature slot holds every byte string of length up to 2%s, and a valid signature packet with each byte set to each of 256 values, in old and new packet format and for packet tags 0..63", map[bool]string{true: " (3 for one slot)"}[thorough]),
					Run: func(x *X) {
						p := c02full(nil)
						b := cached(x, "sbb", func() *built { return p.build() })
						keyring := cached(x, "ring", func() openpgp.EntityList { return ring("eddsa") })
						try := func(id int, blob []byte) {
							raw := assemble(b.raw[:96], append(append([]tagv{}, b.sigTags...), tBytes(id, blob)), p.sigOpt, &built{gen: b.gen, payload: b.payload}).raw
							for _, l := range []openpgp.EntityList{nil, keyring} {
								x.Step()
								h, sigs, err := rpmutils.Verify(bytes.NewReader(raw), l)
								if (err == nil) != (h != nil) || err != nil && sigs != nil {
									x.Fail("blob % x: Verify returns %v %v %v", blob, h != nil, sigs, err)
								}
								x.Validated()
							}
						}
						kind := x.Choose(4)
						if kind == 3 && !thorough {
							return
						}
						switch kind {
						case 0:
							id := sigTagIDs[x.Choose(4)]
							a := x.Choose(257)
							x.State(kind, id, a)
							if a == 256 {
								try(id, nil)
								return
							}
							try(id, []byte{byte(a)})
							for c := 0; c < 256; c++ {
								try(id, []byte{byte(a), byte(c)})
							}
						case 1:
							id := sigTagIDs[x.Choose(2)]
							body := cached(x, "sigbody", func() []byte {
								return makeSig(spec("eddsa", issBoth), b.gen)
							})
							k := x.Choose(len(body))
							x.State(kind, id, k)
							for c := 0; c < 256; c++ {
								n := append([]byte{}, body...)
								n[k] = byte(c)
								try(id, n)
							}
						case 2:
							tag := x.Choose(64)
							newFmt := x.Bool()
							if !newFmt && tag > 15 {
								return
							}
							body := cached(x, "sigbody", func() []byte {
								return makeSig(spec("eddsa", issBoth), b.gen)
							})
							x.State(kind, tag, newFmt)
							hl := 2
							if body[0]&0x40 != 0 && body[1] >= 192 {
								hl = 3
							}
							for cut := 0; cut < 40 && hl+cut <= len(body); cut++ {
								try(sigPGP, wrapPacket(byte(tag), body[hl+cut:], newFmt))
								try(sigPGP, wrapPacket(byte(tag), body[hl:hl+cut], newFmt))
							}
						case 3:
							a, c := x.Choose(256), x.Choose(256)
							x.State(kind, a, c)
							for d := 0; d < 256; d++ {
								try(sigPGP, []byte{byte(a), byte(c), byte(d)})
							}
						}
					},
				},
				{
					Name:    "allocation",
					Workers: 1,
					Desc:    "every single field of 5 packages set to each boundary value, and streams of up to 3 MiB behind intros that claim 2^20..2^32 bytes: bytes allocated while reading, verifying and signing stay below 4 MiB + 256 x input",
					Run: func(x *X) {
						var raw []byte
						if x.Bool() {
							b := bases[x.Choose(len(bases))]
							fs := append(headerFields(b.raw, 96, true), headerFields(b.raw, b.sigEnd, false)...)
							f := fs[x.Choose(len(fs))]
							raw = append([]byte{}, b.raw...)
							v := f.vals[x.Choose(len(f.vals))]
							binary.BigEndian.PutUint32(raw[f.off:], v)
							x.Logf("%s = %d", f.name, v)
						} else {
							b := bases[0]
							start := []int{96, b.sigEnd}[x.Choose(2)]
							raw = append([]byte{}, b.raw[:start+16]...)
							f := []int{8, 12}[x.Choose(2)]
							v := []uint32{1 << 16, 1 << 20, 1<<20 + 1, 1 << 24, 1<<28 - 1, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 8, 1<<32 - 1}[x.Choose(10)]
							if f == 8 {
								v /= 16
							}
							binary.BigEndian.PutUint32(raw[start+f:], v)
							raw = append(raw, make([]byte, []int{0, 100, 70000, 1 << 20, 3 << 20}[x.Choose(5)])...)
							x.Logf("start %d field %d = %d, %d bytes", start, f, v, len(raw))
						}
						x.State(x.prefix())
						limit := uint64(4<<20) + 256*uint64(len(raw))
						key := cached(x, "key", func() signer { return signerNamed("eddsa") })
						for i, f := range []func(){
							func() { rpmutils.ReadHeader(bytes.NewReader(raw)) },
							func() { rpmutils.ReadHeader(onlyReader{bytes.NewReader(raw)}) },
							func() { rpmutils.Verify(bytes.NewReader(raw), nil) },
							func() { rpmutils.SignRpmStream(bytes.NewReader(raw), key.priv, nil) },
						} {
							x.Step()
							before := heapAllocs()
							f()
							if n := heapAllocs() - before; n > limit {
								x.Fail("operation %d on %d bytes allocates %d bytes", i, len(raw), n)
							}
							x.Validated()
						}
					},
				},
			}
		},
	})
}

type onlyReader struct{ io.Reader }

// resizeTag repeats or cuts the values of a tag.
func resizeTag(t tagv, n int) tagv {
	if t.isStr() {
		ss := t.strings()
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, ss[i%len(ss)])
		}
		return tStrs(t.tag, t.typ, out...)
	}
	w := len(t.data) / t.count
	r := tagv{tag: t.tag, typ: t.typ, count: n}
	for i := 0; i < n; i++ {
		j := i % t.count
		r.data = append(r.data, t.data[j*w:j*w+w]...)
	}
	return r
}
