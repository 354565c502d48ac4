package main

import (
	"bytes"
	"fmt"

	"github.com/sassoftware/go-rpmutils"
)

// minSig is the size of lead and signature header without padding tags.
func minSig(sig []tagv) int {
	var ts []tagv
	for _, t := range sig {
		if t.tag != sigReserved {
			ts = append(ts, t)
		}
	}
	return 96 + len(buildHdr(ts, hdrOpt{region: sigRegion, sig: true}))
}

// checkDump verifies one dumped signature header against the package it was read from.
func checkDump(x *X, raw []byte, sigEnd int, lead []byte, sig []tagv, out []byte, same bool, what string, ignore ...int) {
	fail := func(f string, args ...any) {
		x.Fail("%s, DumpSignatureHeader(%v): %s", what, same, fmt.Sprintf(f, args...))
	}
	if len(out) < 96 || !bytes.Equal(out[:96], lead) {
		fail("the lead is not preserved")
	}
	if len(out)%8 != 0 {
		fail("length %d is not a multiple of 8", len(out))
	}
	p, err := parseHdr(out[96:], true, true)
	if err != nil {
		fail("not a well-formed header: %v", err)
	}
	if p.region != sigRegion {
		fail("no signature region")
	}
	if 96+p.end != len(out) {
		fail("%d bytes after the header", len(out)-96-p.end)
	}
	if err := sameTags(sig, p.tags, append(ignore, sigReserved)...); err != nil {
		fail("%v", err)
	}
	min := minSig(sig)
	if same {
		if (min == sigEnd || min+16 <= sigEnd) && len(out) != sigEnd {
			fail("length %d, original %d, smallest %d", len(out), sigEnd, min)
		}
		if len(out) > min && len(out) > sigEnd {
			fail("length %d exceeds both the original %d and the smallest encoding %d", len(out), sigEnd, min)
		}
		if pad, ok := p.get(sigReserved); ok {
			if pad.typ != tBin || pad.count != len(pad.data) || len(bytes.Trim(pad.data, "\x00")) != 0 {
				fail("bad padding tag type %d count %d %x", pad.typ, pad.count, pad.data)
			}
		}
	} else {
		if len(out) > min {
			fail("length %d, smallest encoding %d", len(out), min)
		}
		if _, ok := p.get(sigReserved); ok {
			fail("padding was kept")
		}
	}
	// splice
	spliced := append(append([]byte{}, out...), raw[sigEnd:]...)
	x.Step()
	rd := bytes.NewReader(spliced)
	h, err := rpmutils.ReadHeader(rd)
	if err != nil {
		fail("the spliced package cannot be read: %v", err)
	}
	if n := h.OriginalSignatureHeaderSize(); n != len(out) {
		fail("the spliced package's signature header is %d bytes long, not %d", n, len(out))
	}
	if !bytes.Equal(spliced[h.GetRange().Start:], raw[sigEnd:]) {
		fail("splicing disturbs what follows")
	}
	for _, t := range sig {
		if t.tag != sigReserved && t.tag >= 256 { // others cannot be told from those of the general header
			id := t.tag
			if id >= 1000 {
				id += 16384
			}
			if !h.HasTag(id) {
				fail("tag %d is lost in the spliced package", t.tag)
			}
		}
	}
}

var c06pool = []tagv{
	tStr(sigSHA1, ""), // replaced by the real digest
	tBytes(sigRSA, []byte{0x89, 1, 2}),
	tU64(sigLongSize, 5),
	tU16(300, 1, 2, 3),
	tStrs(301, tStrArray, "a", "", "bcd"),
	tU32(sigSize, 77),
	tBytes(sigMD5, make([]byte, 16)),
	tU32(sigPaySize, 99, 98),
	tU64(1012, 1),
	{302, tI18N, 1, []byte("x\x00")},
	{303, tNull, 0, nil},
	{304, tChar, 1, []byte{7}},
}

func init() {
	register(&Prop{
		ID:          "C06",
		Bits32:      func(string) bool { return true },
		Assumptions: []string{"a padding tag needs 16 bytes of index, so a difference of 8 bytes to the original size cannot be padded"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			hist := 3
			maxRes := 24
			if thorough {
				hist, maxRes = 4, 72
			}
			ops := func(x *X, h *rpmutils.RpmHeader, n int, raw []byte, sigEnd int, lead []byte, sig []tagv, what string) {
				for i := 0; i < n; i++ {
					k := x.Choose(4)
					x.Step()
					switch k {
					case 0, 1:
						out, err := h.DumpSignatureHeader(k == 0)
						if err != nil {
							x.Fail("%s: DumpSignatureHeader(%v): %v", what, k == 0, err)
						}
						checkDump(x, raw, sigEnd, lead, sig, out, k == 0, fmt.Sprintf("%s, operation %d", what, i))
						for j := range out { // results must not be shared
							out[j] = 0xcc
						}
						x.State(x.prefix())
						x.Validated()
					case 2:
						h.GetFiles()
						h.GetNEVRA()
						for _, id := range []int{1000, 1001, 267, 268, 270, 16384 + 1008, 16384 + 1000} {
							h.Get(id)
							h.GetBytes(id)
						}
					case 3:
						if n := h.OriginalSignatureHeaderSize(); n != sigEnd {
							x.Fail("%s: OriginalSignatureHeaderSize = %d, was %d", what, n, sigEnd)
						}
						h.GetRange()
					}
				}
			}
			return []*Part{
				{
					Name: "space",
					Desc: fmt.Sprintf("signature headers with reserved space absent or of 0..%d bytes, slack 0..%d, with and without region and alignment-sensitive tags, each layout; all histories of 2 operations (dump same size, dump smallest, accessors, offsets)", maxRes, maxRes),
					Run: func(x *X) {
						p := newPkg()
						p.noSHA256 = true
						switch x.Choose(3) {
						case 1:
							p.sig = append(p.sig, tU64(sigLongSize, 5), tU16(300, 1))
						case 2:
							p.sig = append(p.sig, tBytes(sigRSA, []byte{1, 2, 3}), tU64(1012, 3), tStr(1011, "odd"))
						}
						r := x.Choose(maxRes + 2)
						if r > 0 {
							p.sig = append(p.sig, tBytes(sigReserved, bytes.Repeat([]byte{byte(r)}, r-1)))
						}
						p.sigOpt.slack = x.Choose(maxRes + 1)
						if x.Bool() {
							p.sigOpt.region = 0
						}
						if x.Bool() {
							p.sigOpt.reverse = true
						}
						p.payload = []byte("the payload")
						b := p.build()
						h := mustRead(x, b.raw)
						what := fmt.Sprintf("reserved %d slack %d region %d", r-1, p.sigOpt.slack, p.sigOpt.region)
						x.Logf("%s", what)
						ops(x, h, 2, b.raw, b.sigEnd, p.lead, b.sigTags, what)
					},
				},
				{
					Name: "tag-sets",
					Desc: fmt.Sprintf("every subset of %d tags of all types, reserved space absent, 4128 or 32 bytes; dump smallest and same size in both orders", len(c06pool)),
					Run: func(x *X) {
						p := newPkg()
						p.noSHA256, p.noSHA1, p.noMD5 = true, true, true
						var sig []tagv
						gen, gt := p.genHeader()
						for i, t := range c06pool {
							if x.Bool() {
								if i == 0 {
									p.noSHA1 = false
									t = p.digestTags(gen)[0]
								}
								sig = append(sig, t)
							}
						}
						switch x.Choose(3) {
						case 1:
							sig = append(sig, tBytes(sigReserved, make([]byte, 4128)))
						case 2:
							sig = append(sig, tBytes(sigReserved, make([]byte, 32)))
						}
						b := assemble(p.lead, sig, hdrOpt{region: sigRegion, sig: true}, &built{gen: gen, genTags: gt})
						h := mustRead(x, b.raw)
						x.Logf("%d tags", len(sig))
						first := x.Bool()
						for _, same := range []bool{first, !first, first} {
							x.Step()
							out, err := h.DumpSignatureHeader(same)
							if err != nil {
								x.Fail("DumpSignatureHeader(%v): %v", same, err)
							}
							checkDump(x, b.raw, b.sigEnd, p.lead, sig, out, same, fmt.Sprintf("%d tags", len(sig)))
							x.Validated()
						}
						x.State(x.prefix())
					},
				},
				{
					Name: "histories",
					Desc: fmt.Sprintf("all histories of %d operations on 8 representative packages obtained from ReadHeader or Verify", hist+2),
					Run: func(x *X) {
						p := newPkg()
						p.payload = []byte("the payload")
						k := x.Choose(8)
						if k&1 != 0 {
							p.sig = append(p.sig, tBytes(sigReserved, make([]byte, 40)))
						}
						if k&2 != 0 {
							p.sigOpt.slack = 8
						}
						if k&4 != 0 {
							p.sig = append(p.sig, tU64(sigLongSize, 5), tStrs(301, tStrArray, "a", "bc"))
							p.lead = buildLead("other", true)
						}
						b := p.build()
						var h *rpmutils.RpmHeader
						if x.Bool() {
							var err error
							x.Step()
							h, _, err = rpmutils.Verify(bytes.NewReader(b.raw), nil)
							if err != nil {
								x.Fail("Verify: %v", err)
							}
						} else {
							h = mustRead(x, b.raw)
						}
						ops(x, h, hist+2, b.raw, b.sigEnd, p.lead, b.sigTags, fmt.Sprintf("package %d", k))
						x.Logf("package %d %v", k, x.cs)
					},
				},
				{
					Name: "value-lengths",
					Desc: "byte values of every length 0..80 in one or two tags around 2, 4 and 8 byte aligned ones: alignment, trailer position and final padding at every residue",
					Run: func(x *X) {
						n, m := x.Choose(81), x.Choose(9)
						sig := []tagv{tBytes(267, make([]byte, n)), tU64(270, 1, 2), tBytes(272, make([]byte, m)), tU16(300, 3), tU32(1000, 4), tBytes(1004, make([]byte, 3))}
						if x.Bool() {
							sig = append(sig, tBytes(sigReserved, make([]byte, 20)))
						}
						p := newPkg()
						gen, gt := p.genHeader()
						b := assemble(p.lead, sig, hdrOpt{region: sigRegion, sig: true, slack: x.Choose(2) * 30}, &built{gen: gen, genTags: gt})
						h := mustRead(x, b.raw)
						for _, same := range []bool{true, false} {
							x.Step()
							out, err := h.DumpSignatureHeader(same)
							if err != nil {
								x.Fail("DumpSignatureHeader(%v): %v", same, err)
							}
							checkDump(x, b.raw, b.sigEnd, p.lead, sig, out, same, fmt.Sprintf("lengths %d, %d", n, m))
							x.Validated()
						}
						x.State(x.prefix())
						x.Logf("lengths %d %d", n, m)
					},
				},
				{
					Name:   "large",
					Desc:   "reserved space, slack and a binary value each absent, small or near 256, 4096, 65536, 131072, 2^20 and (reserved space) 2^21 bytes, one or two of them at a time; same size and smallest dumps in both orders",
					Budget: 2,
					Run: func(x *X) {
						sizes := []int{0, 1, 20, 255, 256, 257, 4095, 4096, 4097, 4111, 4112, 4128, 65519, 65520, 65521, 65535, 65536, 65537, 65552, 131072, 131071, 1<<20 - 1, 1 << 20, 1<<20 + 1}
						var sig []tagv
						what := ""
						if k := x.Dev(len(sizes) + 2); k > 0 {
							r := append(sizes[:len(sizes):len(sizes)], 1<<21)[k-1]
							sig = append(sig, tBytes(sigReserved, make([]byte, r)))
							what += fmt.Sprintf("reserved %d ", r)
						}
						slack := 0
						if k := x.Dev(len(sizes) + 1); k > 0 {
							slack = sizes[k-1]
							what += fmt.Sprintf("slack %d ", slack)
						}
						if k := x.Dev(len(sizes) + 1); k > 0 {
							sig = append(sig, tBytes(267, bytes.Repeat([]byte{7}, sizes[k-1])))
							what += fmt.Sprintf("value of %d ", sizes[k-1])
						}
						sig = append(sig, tU64(270, 9), tU16(300, 3))
						p := newPkg()
						gen, gt := p.genHeader()
						b := assemble(p.lead, sig, hdrOpt{region: sigRegion, sig: true, slack: slack}, &built{gen: gen, genTags: gt})
						h := mustRead(x, b.raw)
						first := x.Bool()
						for _, same := range []bool{first, !first} {
							x.Step()
							out, err := h.DumpSignatureHeader(same)
							if err != nil {
								x.Fail("DumpSignatureHeader(%v) with %s: %v", same, what, err)
							}
							checkDump(x, b.raw, b.sigEnd, p.lead, sig, out, same, what)
							x.Validated()
						}
						x.State(x.prefix())
						x.Logf("%s", what)
					},
				},
				{
					Name: "many-tags",
					Desc: "signature headers of 0..40, 255..257 and 1000 tags, numbered from 64 (the first that is no region), 100 or 2000",
					Run: func(x *X) {
						k := x.Choose(45)
						n := k
						if k > 40 {
							n = []int{255, 256, 257, 1000}[k-41]
						}
						var sig []tagv
						base := 2000
						if n < 100 {
							base = []int{64, 100, 2000}[x.Choose(3)]
						}
						for i := 0; i < n; i++ {
							t := base + i
							switch i % 4 {
							case 0:
								sig = append(sig, tU32(t, uint32(i)))
							case 1:
								sig = append(sig, tStr(t, fmt.Sprint(i)))
							case 2:
								sig = append(sig, tU64(t, uint64(i)))
							case 3:
								sig = append(sig, tBytes(t, make([]byte, i%7)))
							}
						}
						p := newPkg()
						gen, gt := p.genHeader()
						b := assemble(p.lead, sig, hdrOpt{region: sigRegion, sig: true, slack: x.Choose(3) * 20}, &built{gen: gen, genTags: gt})
						h := mustRead(x, b.raw)
						for _, same := range []bool{true, false} {
							x.Step()
							out, err := h.DumpSignatureHeader(same)
							if err != nil {
								x.Fail("DumpSignatureHeader(%v): %v", same, err)
							}
							checkDump(x, b.raw, b.sigEnd, p.lead, sig, out, same, fmt.Sprintf("%d tags from %d", n, base))
							x.Validated()
						}
						x.State(x.prefix())
					},
				},
			}
		},
	})
}
