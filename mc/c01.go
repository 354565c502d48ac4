package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"

	"github.com/sassoftware/go-rpmutils"
)

// refHdr is the reference view of a package's headers.
type refHdr struct {
	sig, gen map[int]tagv
	source   bool
}

func newRef(sig, gen []tagv) *refHdr {
	r := &refHdr{sig: map[int]tagv{}, gen: map[int]tagv{}}
	for _, t := range sig {
		r.sig[t.tag] = t
	}
	for _, t := range gen {
		r.gen[t.tag] = t
	}
	return r
}

func (r *refHdr) lookup(tag int) (tagv, bool) {
	if tag > 16384 {
		t, ok := r.sig[tag-16384]
		return t, ok
	}
	if tag < 1000 {
		t, ok := r.sig[tag]
		return t, ok
	}
	t, ok := r.gen[tag]
	return t, ok
}

func (t tagv) strings() []string {
	out := []string{}
	d := t.data
	for i := 0; i < t.count; i++ {
		z := bytes.IndexByte(d, 0)
		out = append(out, string(d[:z]))
		d = d[z+1:]
	}
	return out
}

func (t tagv) uints() []uint64 {
	n := map[int]int{tChar: 1, tInt8: 1, tInt16: 2, tInt32: 4, tInt64: 8}[t.typ]
	out := []uint64{}
	for i := 0; i < t.count; i++ {
		var v uint64
		for _, c := range t.data[i*n : i*n+n] {
			v = v<<8 | uint64(c)
		}
		out = append(out, v)
	}
	return out
}

func (t tagv) isStr() bool { return t.typ == tString || t.typ == tStrArray || t.typ == tI18N }
func (t tagv) isInt() bool { return t.typ >= tChar && t.typ <= tInt64 }

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkTag compares every accessor's result for one tag with the reference.
func checkTag(x *X, h *rpmutils.RpmHeader, r *refHdr, tag int, what string) {
	t, ok := r.lookup(tag)
	fail := func(f string, args ...any) {
		x.Fail("%s: tag %d (stored: %v, type %d, count %d, data %.300q): %.600s", what, tag, ok, t.typ, t.count, t.data, fmt.Sprintf(f, args...))
	}
	x.StepN(11)
	if got := h.HasTag(tag); got != ok {
		fail("HasTag = %v", got)
	}
	gv, gerr := h.Get(tag)
	ss, sserr := h.GetStrings(tag)
	s, serr := h.GetString(tag)
	is, iserr := h.GetInts(tag)
	i, ierr := h.GetInt(tag)
	us, userr := h.GetUint32s(tag)
	u, uerr := h.GetUint32(tag)
	ls, lserr := h.GetUint64s(tag)
	l, lerr := h.GetUint64(tag)
	bs, bserr := h.GetBytes(tag)
	if serr != nil && s != "" || ierr != nil && i != -1 || uerr != nil && u != 0 || lerr != nil && l != 0 {
		fail("value returned together with an error: %q %d %d %d", s, i, u, l)
	}
	if !ok {
		for k, err := range []error{gerr, sserr, serr, iserr, ierr, userr, uerr, lserr, lerr, bserr} {
			var nst rpmutils.NoSuchTagError
			if err == nil || !errors.As(err, &nst) {
				fail("accessor %d of an absent tag gives %v, not NoSuchTagError", k, err)
			}
		}
		return
	}
	isNST := func(err error) bool {
		var nst rpmutils.NoSuchTagError
		return err != nil && errors.As(err, &nst)
	}
	for k, err := range []error{gerr, sserr, serr, iserr, ierr, userr, uerr, lserr, lerr, bserr} {
		if isNST(err) {
			fail("accessor %d says the tag does not exist", k)
		}
	}
	// strings
	if t.isStr() {
		want := t.strings()
		if sserr != nil || !sameStrs(ss, want) {
			fail("GetStrings = %q, %v", ss, sserr)
		}
		if v, isS := gv.([]string); gerr != nil || !isS || !sameStrs(v, want) {
			fail("Get = %#v, %v", gv, gerr)
		}
		if len(want) == 1 {
			if serr != nil || s != want[0] {
				fail("GetString = %q, %v", s, serr)
			}
		} else if serr == nil {
			fail("GetString of %d values = %q without error", len(want), s)
		}
	} else if sserr == nil || serr == nil {
		fail("string accessors give no error: %q %q", ss, s)
	}
	// bytes
	if t.typ == tBin {
		if bserr != nil || !bytes.Equal(bs, t.data) {
			fail("GetBytes = %q, %v", bs, bserr)
		}
		if v, isB := gv.([]byte); gerr != nil || !isB || !bytes.Equal(v, t.data) {
			fail("Get = %#v, %v", gv, gerr)
		}
	} else if bserr == nil {
		fail("GetBytes gives no error: %q", bs)
	}
	// integers
	if t.isInt() {
		want := t.uints()
		checkInts(fail, "Get", gv, gerr, want, map[int]int{tChar: 8, tInt8: 8, tInt16: 16, tInt32: 32, tInt64: 64}[t.typ])
		checkInts(fail, "GetUint64s", ls, lserr, want, 64)
		small, in32 := true, true
		for _, v := range want {
			if v > 1<<31-1 {
				small = false
			}
			if v > 1<<32-1 {
				in32 = false
			}
		}
		if iserr == nil && !small {
			fail("GetInts = %v", is)
		}
		if iserr == nil || t.typ != tInt64 && small {
			// an error is fine only for what might not fit
			checkInts(fail, "GetInts", is, iserr, want, 0)
		}
		if userr == nil || t.typ != tInt64 {
			if !in32 {
				fail("GetUint32s = %v", us)
			}
			checkInts(fail, "GetUint32s", us, userr, want, 32)
		}
		one := len(want) == 1
		if (ierr == nil) != (one && iserr == nil) || ierr == nil && (i < 0 || uint64(i) != want[0]) {
			fail("GetInt = %d, %v (GetInts error %v)", i, ierr, iserr)
		}
		if (uerr == nil) != (one && userr == nil) || uerr == nil && uint64(u) != want[0] {
			fail("GetUint32 = %d, %v (GetUint32s error %v)", u, uerr, userr)
		}
		if (lerr == nil) != one || lerr == nil && l != want[0] {
			fail("GetUint64 = %d, %v", l, lerr)
		}
	} else if iserr == nil || ierr == nil || userr == nil || uerr == nil || lserr == nil || lerr == nil {
		fail("integer accessors give no error")
	}
	if !t.isStr() && !t.isInt() && t.typ != tBin && gerr == nil {
		fail("Get of type %d = %#v", t.typ, gv)
	}
}

func checkInts(fail func(string, ...any), what string, got any, err error, want []uint64, bits int) {
	if err != nil {
		fail("%s: %v", what, err)
	}
	v := reflect.ValueOf(got)
	if v.Kind() != reflect.Slice || v.Len() != len(want) {
		fail("%s = %#v, want %d", what, got, want)
	}
	if bits > 0 && v.Type().Elem().Bits() != bits {
		fail("%s returns %T", what, got)
	}
	for i, w := range want {
		e := v.Index(i)
		if e.CanInt() {
			if e.Int() < 0 || uint64(e.Int()) != w {
				fail("%s = %v, want %d", what, got, want)
			}
		} else if e.Uint() != w {
			fail("%s = %v, want %d", what, got, want)
		}
	}
}

// refSize is what a size accessor should give: value, whether it must succeed,
// whether it must fail.
func refFallback(h map[int]tagv, intTag, longTag int) (vals []uint64, mustFail bool) {
	one := func(tag int) (uint64, bool, bool) {
		t, ok := h[tag]
		if !ok {
			return 0, false, false
		}
		if !t.isInt() || t.count != 1 {
			return 0, true, false
		}
		return t.uints()[0], true, true
	}
	l, lok, lgood := one(longTag)
	i, _, igood := one(intTag)
	if lgood {
		return []uint64{l}, false
	}
	if !lok {
		if igood {
			return []uint64{i}, false
		}
		return nil, true
	}
	// the long tag is there but unusable: an error, or the other one
	if igood {
		return []uint64{i}, true
	}
	return nil, true
}

func checkFallback(x *X, what string, got uint64, err error, vals []uint64, mayFail bool) {
	x.Step()
	if err != nil {
		if !mayFail {
			x.Fail("%s fails: %v, want %d", what, err, vals[0])
		}
		return
	}
	if len(vals) == 0 || got != vals[0] {
		x.Fail("%s = %d, want %d", what, got, vals)
	}
}

func checkSizes(x *X, h *rpmutils.RpmHeader, r *refHdr, what string) {
	vals, may := refFallback(r.gen, 1009, 5009)
	v, err := h.GetUint64Fallback(1009, 5009)
	if err != nil && v != 0 {
		x.Fail("%s GetUint64Fallback = %d with error %v", what, v, err)
	}
	checkFallback(x, what+" GetUint64Fallback(SIZE, LONGSIZE)", v, err, vals, may)
	iv, err := h.InstalledSize()
	if len(vals) == 1 && vals[0] > 1<<63-1 {
		vals, may = nil, true
	}
	if err == nil && iv < 0 {
		x.Fail("%s InstalledSize = %d", what, iv)
	}
	if err != nil && iv != -1 {
		x.Fail("%s InstalledSize = %d with error %v", what, iv, err)
	}
	checkFallback(x, what+" InstalledSize", uint64(iv), err, vals, may)
	vals, may = refFallback(r.sig, 1007, 271)
	iv, err = h.PayloadSize()
	if len(vals) == 1 && vals[0] > 1<<63-1 {
		vals, may = nil, true
	}
	if err == nil && iv < 0 {
		x.Fail("%s PayloadSize = %d", what, iv)
	}
	if err != nil && iv != -1 {
		x.Fail("%s PayloadSize = %d with error %v", what, iv, err)
	}
	checkFallback(x, what+" PayloadSize", uint64(iv), err, vals, may)
}

// valuePatterns lists data for a type.
func valuePatterns(typ int) [][]byte {
	n := map[int]int{tChar: 1, tInt8: 1, tInt16: 2, tInt32: 4, tInt64: 8, tBin: 1}[typ]
	switch {
	case typ == tString || typ == tStrArray || typ == tI18N:
		return [][]byte{{0}, []byte("a\x00"), []byte("é\xff/ \x00"), append(bytes.Repeat([]byte("long"), 80), 0)}
	case n == 0:
		return [][]byte{nil}
	case n == 1:
		return [][]byte{{0}, {1}, {0x7f}, {0x80}, {0xff}}
	}
	max := uint64(1)<<(8*n-1)<<1 - 1
	vs := []uint64{0, 1, 0x12, max >> 1, max>>1 + 1, max, max - 1}
	if n == 8 {
		vs = append(vs, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<32+5)
	}
	var out [][]byte
	for _, v := range vs {
		out = append(out, be(v, n))
	}
	return out
}

// pickTag chooses type, count and values.
func pickTag(x *X, tag, maxCount int, first int) tagv {
	t := tagv{tag: tag, typ: x.Choose(10), count: x.Choose(maxCount + 1)}
	ps := valuePatterns(t.typ)
	for i := 0; i < t.count; i++ {
		k := 0
		if i == 0 {
			k = x.Choose(len(ps))
		} else {
			k = first + i
		}
		t.data = append(t.data, ps[k%len(ps)]...)
	}
	return t
}

var probeTags = func() []int {
	ts := []int{-1, 0, 1, 2, 61, 62, 63, 64, 99, 100, 255, 256, 257, 258, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 998, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1026, 1028, 1116, 1117, 1118, 5008, 5009, 5010, 5092, 5093, 16382, 16383, 16384, 16385, 16386}
	for _, t := range []int{62, 256, 257, 258, 269, 270, 271, 272, 273, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 5009} {
		ts = append(ts, 16384+t)
	}
	return ts
}()

func mustRead(x *X, raw []byte) *rpmutils.RpmHeader {
	x.Step()
	h, err := rpmutils.ReadHeader(bytes.NewReader(raw))
	if err != nil {
		x.Fail("ReadHeader of a well-formed package: %v", err)
	}
	return h
}

func init() {
	register(&Prop{
		ID:          "C01",
		Bits32:      func(string) bool { return true },
		Assumptions: []string{"for INT64 tags whose values fit, GetInt(s) and GetUint32(s) may give either an error or the exact value", "the region tags 62 and 63 themselves are not looked up"},
		Parts: func(tier string) []*Part {
			maxCount := 3
			pc := 2
			thorough := tier == "thorough"
			if thorough {
				maxCount, pc = 5, 3
			}
			genIDs := []int{1000, 1004, 1009, 5009, 5092, 16384}
			sigIDs := []int{1, 100, 257, 266, 271, 999, 1000, 1007}
			return append([]*Part{
				{
					Name: "single-tag",
					Desc: fmt.Sprintf("one tag of each of 10 types (0..9), counts 0..%d, boundary first values, in the general header (ids %v) or signature header (ids %v), source flag, each layout; all accessors on %d ids", maxCount, genIDs, sigIDs, len(probeTags)),
					Run: func(x *X) {
						inSig := x.Bool()
						ids := genIDs
						if inSig {
							ids = sigIDs
						}
						t := pickTag(x, ids[x.Choose(len(ids))], maxCount, 1)
						src := x.Bool()
						reg := x.Bool()
						var sig, gen []tagv
						// values that must not be confused with the tag's
						sig = []tagv{tU32(1003, 77), tStr(1001, "sig")}
						gen = []tagv{tStr(1001, "gen"), tU32(1006, 99)}
						if inSig {
							sig = append(sig, t)
						} else {
							gen = append(gen, t)
						}
						so, g := hdrOpt{sig: true}, hdrOpt{}
						if reg {
							so.region, g.region = 62, 63
						} else {
							so.reverse, g.reverse = true, true
						}
						raw := append(buildLead("x", src), buildHdr(sig, so)...)
						raw = append(raw, buildHdr(gen, g)...)
						h := mustRead(x, raw)
						r := newRef(sig, gen)
						x.State(inSig, t.tag, t.typ, t.count, t.data, src, reg)
						if h.IsSource() != src {
							x.Fail("IsSource = %v for a lead with type %v", h.IsSource(), src)
						}
						for _, id := range probeTags {
							if id == 62 || id == 63 || id == 16384+62 {
								continue
							}
							checkTag(x, h, r, id, "after reading")
						}
						checkSizes(x, h, r, "after reading")
						x.Validated()
						x.Logf("sig=%v tag=%d type=%d count=%d data=%q region=%v", inSig, t.tag, t.typ, t.count, t.data, reg)
					},
				},
				{
					Name: "tag-pairs",
					Desc: fmt.Sprintf("two neighbouring tags, every pair of (type 0..9, count 0..%d), in either header, 2 storage orders, sorted or not: no value bleeds into the other", pc),
					Run: func(x *X) {
						inSig := x.Bool()
						mk := func(tag, salt int) tagv {
							t := tagv{tag: tag, typ: x.Choose(10), count: x.Choose(pc + 1)}
							ps := valuePatterns(t.typ)
							for i := 0; i < t.count; i++ {
								t.data = append(t.data, ps[(salt+i*3)%len(ps)]...)
							}
							return t
						}
						a, b := mk(1004, 1), mk(1005, 2)
						o := hdrOpt{reverse: x.Bool(), unsort: x.Bool(), region: 63}
						ts := []tagv{b, a}
						var sig, gen []tagv
						so, g := hdrOpt{sig: true, region: 62}, hdrOpt{region: 63}
						if inSig {
							sig = ts
							so.reverse, so.unsort = o.reverse, o.unsort
						} else {
							gen = ts
							g = o
						}
						raw := append(buildLead("x", false), buildHdr(sig, so)...)
						raw = append(raw, buildHdr(gen, g)...)
						h := mustRead(x, raw)
						r := newRef(sig, gen)
						x.State(inSig, a.typ, a.count, b.typ, b.count, o.reverse, o.unsort)
						base := 0
						if inSig {
							base = 16384
						}
						for _, id := range []int{1003, 1004, 1005, 1006, 16384 + 1003, 16384 + 1004, 16384 + 1005} {
							checkTag(x, h, r, id, "pair")
						}
						va, vb := refFallbackIn(r, base+1004, base+1005)
						v, err := h.GetUint64Fallback(base+1004, base+1005)
						checkFallback(x, "GetUint64Fallback", v, err, va, vb)
						x.Validated()
						x.Logf("sig=%v %d/%d %d/%d", inSig, a.typ, a.count, b.typ, b.count)
					},
				},
				{
					Name: "sizes",
					Desc: "SIZE/LONGSIZE and SIG_PAYLOADSIZE/SIG_LONGARCHIVESIZE: each absent, of each integer type with boundary values, of a non-integer type, or with 0 or 2 values",
					Run: func(x *X) {
						mk := func(tag int) []tagv {
							k := x.Choose(8)
							switch k {
							case 0:
								return nil
							case 1:
								return []tagv{tStr(tag, "5")}
							case 2:
								return []tagv{tU32(tag)}
							case 3:
								return []tagv{tU32(tag, 7, 8)}
							}
							typ := []int{tInt8, tInt16, tInt32, tInt64}[k-4]
							ps := valuePatterns(typ)
							return []tagv{{tag, typ, 1, ps[x.Choose(len(ps))]}}
						}
						which := x.Bool()
						var sig, gen []tagv
						if which {
							sig = append(mk(1007), mk(271)...)
							gen = []tagv{tU32(1007, 3), tU64(1009, 11)}
						} else {
							gen = append(mk(1009), mk(5009)...)
							sig = []tagv{tU32(1000, 5), tU32(1009, 6), tU64(270, 9), tU32(1007, 12)}
						}
						raw := append(buildLead("x", false), buildHdr(sig, hdrOpt{sig: true, region: 62})...)
						raw = append(raw, buildHdr(gen, hdrOpt{region: 63})...)
						h := mustRead(x, raw)
						r := newRef(sig, gen)
						x.State(which, fmt.Sprint(sig), fmt.Sprint(gen))
						checkSizes(x, h, r, "sizes")
						for _, id := range []int{1007, 1009, 5009, 16384 + 1007, 271, 270} {
							checkTag(x, h, r, id, "sizes")
						}
						x.Validated()
						x.Logf("sig=%v gen=%v", sig, gen)
					},
				},
				{
					Name: "bulk",
					Desc: fmt.Sprintf("one tag of each of 10 types with each of %d counts up to %d, the values telling their position, between two others, in either header: every accessor", len(c01counts(thorough)), c01counts(thorough)[len(c01counts(thorough))-1]),
					Run: func(x *X) {
						cs := c01counts(thorough)
						t := tagv{tag: 1004, typ: x.Choose(10), count: cs[x.Choose(len(cs))]}
						shape := x.Choose(3)
						inSig := x.Bool()
						n := map[int]int{tChar: 1, tInt8: 1, tInt16: 2, tInt32: 4, tInt64: 8, tBin: 1}[t.typ]
						if n == 0 && shape == 2 {
							return
						}
						for i := 0; i < t.count && t.typ != tNull; i++ {
							switch {
							case n == 0 && shape == 0:
								t.data = fmt.Appendf(t.data, "%d\x00", i)
							case n == 0: // mostly empty
								if i%7 == 3 {
									t.data = append(t.data, 'x')
								}
								t.data = append(t.data, 0)
							default:
								v := uint64(i)*2654435761 + uint64(i>>8)
								if shape == 1 {
									v &= 0x7f
								} else if shape == 2 && i == t.count-1 {
									v = 1<<64 - 1
								}
								t.data = append(t.data, be(v&(1<<(8*n-1)<<1-1), n)...)
							}
						}
						ts := []tagv{tStr(1003, "before"), t, tU32(1005, 5, 6)}
						var sig, gen []tagv
						if inSig {
							sig, gen = ts, []tagv{tStr(1000, "n")}
						} else {
							gen = ts
						}
						raw := append(buildLead("x", false), buildHdr(sig, hdrOpt{sig: true, region: 62})...)
						raw = append(raw, buildHdr(gen, hdrOpt{region: 63})...)
						h := mustRead(x, raw)
						r := newRef(sig, gen)
						x.State(x.prefix())
						base := 0
						if inSig {
							base = 16384
						}
						for _, id := range []int{1003, 1004, 1005, 1006} {
							checkTag(x, h, r, base+id, "bulk")
						}
						x.Validated()
						x.Logf("sig=%v type=%d count=%d", inSig, t.typ, t.count)
					},
				},
				{
					Name: "every-value",
					Desc: fmt.Sprintf("strings, string arrays, translated strings and bytes with each byte alone, doubled, first, last or between others, and each pair of %d bytes; all 8- and 16-bit integers; 32- and 64-bit ones with each byte value at each place, alone or among others, each single bit set or clear; in either header", map[bool]int{false: 26, true: 256}[thorough]),
					Run: func(x *X) {
						inSig := x.Bool()
						t := tagv{tag: 1004, typ: x.Choose(10), count: 1}
						n := map[int]int{tChar: 1, tInt8: 1, tInt16: 2, tInt32: 4, tInt64: 8}[t.typ]
						odd := []byte{0, 1, 8, 9, 10, 11, 12, 13, 27, 31, 32, 33, 34, 37, 39, 46, 47, 48, 92, 97, 127, 128, 133, 160, 0xc2, 0xff}
						if thorough {
							odd = nil
							for i := range 256 {
								odd = append(odd, byte(i))
							}
						}
						switch {
						case t.typ == tNull:
							return
						case t.isStr() || t.typ == tBin:
							var v []byte
							if k := x.Choose(256 + len(odd)*len(odd)); k < 256 {
								b := byte(k)
								v = [][]byte{{b}, {b, b}, {b, 'a'}, {'a', b}, {'a', b, 'a'}, {'a', 'a', b, b}, {b, ' ', 'a', ' ', b}}[x.Choose(7)]
							} else {
								k -= 256
								v = []byte{odd[k/len(odd)], odd[k%len(odd)]}
							}
							if t.typ == tBin {
								t.count, t.data = len(v), v
								break
							}
							if bytes.IndexByte(v, 0) >= 0 {
								return
							}
							t.data = append(append([]byte{}, v...), 0)
							if t.typ != tString {
								switch x.Choose(3) {
								case 1:
									t.count, t.data = 2, append(append(t.data, v...), 0)
								case 2:
									t.count, t.data = 3, append(append([]byte("first\x00"), t.data...), 0)
								}
							}
						case n == 1:
							t.data = []byte{byte(x.Choose(256))}
						case n == 2:
							hi := x.Choose(256)
							if lo := x.Choose(257); lo < 256 {
								t.data = []byte{byte(hi), byte(lo)}
							} else {
								t.count = 256
								for i := range 256 {
									t.data = append(t.data, byte(hi), byte(i))
								}
							}
						default:
							k := x.Choose(n*256*2 + 16*n)
							t.data = make([]byte, n)
							if k >= n*512 {
								k -= n * 512
								if k >= 8*n {
									k -= 8 * n
									for i := range t.data {
										t.data[i] = 0xff
									}
								}
								t.data[k/8] ^= 1 << (k % 8)
								break
							}
							if k >= n*256 {
								k -= n * 256
								copy(t.data, []byte{0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf1})
							}
							t.data[k/256] = byte(k)
						}
						ts := []tagv{tStr(1003, "before"), t, tU32(1005, 5, 6)}
						var sig, gen []tagv
						base := 0
						if inSig {
							sig, gen, base = ts, []tagv{tStr(1000, "n")}, 16384
						} else {
							gen = ts
						}
						raw := append(buildLead("x", false), buildHdr(sig, hdrOpt{sig: true, region: 62})...)
						raw = append(raw, buildHdr(gen, hdrOpt{region: 63})...)
						h := mustRead(x, raw)
						r := newRef(sig, gen)
						x.State(x.prefix())
						for _, id := range []int{1003, 1004, 1005} {
							checkTag(x, h, r, base+id, "every-value")
						}
						x.Validated()
						x.Logf("sig=%v type=%d data %x", inSig, t.typ, t.data)
					},
				},
				{
					Name: "many-tags",
					Desc: "headers of 1 to 5000 tags (20 numbers), of 4 types in turn, values telling the tag, in 3 orders of index and store, in either header: each tag, and the gaps between them",
					Run: func(x *X) {
						ns := []int{1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 1025, 5000}
						n := ns[x.Choose(len(ns))]
						order := x.Choose(3)
						inSig := x.Bool()
						step := 1 + x.Choose(2)
						var ts []tagv
						for i := 0; i < n; i++ {
							tag := 1000 + i*step
							switch i % 4 {
							case 0:
								ts = append(ts, tU32(tag, uint32(tag)))
							case 1:
								ts = append(ts, tStr(tag, fmt.Sprint("t", tag)))
							case 2:
								ts = append(ts, tU64(tag, uint64(tag)<<20))
							case 3:
								ts = append(ts, tBytes(tag, be(uint64(tag), 3)))
							}
						}
						var sig, gen []tagv
						so, g := hdrOpt{sig: true, region: 62}, hdrOpt{region: 63}
						base := 0
						if inSig {
							sig, base = ts, 16384
							so.reverse, so.unsort = order == 1, order == 2
						} else {
							gen = ts
							g.reverse, g.unsort = order == 1, order == 2
						}
						raw := append(buildLead("x", false), buildHdr(sig, so)...)
						raw = append(raw, buildHdr(gen, g)...)
						h := mustRead(x, raw)
						r := newRef(sig, gen)
						x.State(x.prefix())
						for tag := 999; tag <= 1000+n*step; tag++ {
							if _, ok := r.lookup(base + tag); tag == 1027 && !ok {
								continue // joined from others
							}
							checkTag(x, h, r, base+tag, fmt.Sprintf("%d tags", n))
						}
						x.Validated()
						x.Logf("sig=%v %d tags order %d", inSig, n, order)
					},
				},
				{
					Name: "name-tags",
					Desc: "OLDFILENAMES stored (as string, array or translated strings of 1 or 2 values, or of another type) beside every combination of BASENAMES, DIRNAMES and DIRINDEXES, matching or not, in either header: each accessor gives what is stored",
					Run: func(x *X) {
						old := []tagv{tStr(1027, "/old/one"), tStrs(1027, tStrArray, "/old/one", "two"), tStrs(1027, tI18N, "/old/one"), tU32(1027, 7), tStrs(1027, tStrArray), tStrs(1027, tStrArray, "")}[x.Choose(6)]
						ts := []tagv{tStr(1000, "n"), old}
						if k := x.Choose(4); k > 0 {
							ts = append(ts, []tagv{tU32(1116, 0), tU32(1116, 0, 1), tU32(1116, 9)}[k-1])
						}
						if k := x.Choose(4); k > 0 {
							ts = append(ts, []tagv{tStrs(1117, tStrArray, "new"), tStrs(1117, tStrArray, "new", "2"), tU32(1117, 1)}[k-1])
						}
						if k := x.Choose(4); k > 0 {
							ts = append(ts, []tagv{tStrs(1118, tStrArray, "/dir/"), tStrs(1118, tStrArray, "/dir/", "/e/"), tU32(1118, 1)}[k-1])
						}
						var sig, gen []tagv
						base := 0
						if x.Bool() {
							sig, gen, base = ts, []tagv{tStr(1000, "n")}, 16384
						} else {
							gen = ts
						}
						raw := append(buildLead("x", false), buildHdr(sig, hdrOpt{sig: true, region: 62})...)
						raw = append(raw, buildHdr(gen, hdrOpt{region: 63})...)
						h := mustRead(x, raw)
						r := newRef(sig, gen)
						x.State(x.prefix())
						order := []int{1027, 1116, 1117, 1118, 1000, 1028}
						if x.Bool() {
							order = []int{1028, 1118, 1117, 1116, 1000, 1027, 1027}
						}
						for _, id := range order {
							checkTag(x, h, r, base+id, "name tags")
						}
						x.Validated()
					},
				},
				{
					Name: "histories",
					Desc: "every sequence of 3 operations of 14 (each accessor group on each of several tags, GetFiles, GetNEVRA, dumps) on one header with tags of all types: later results do not depend on earlier calls",
					Run: func(x *X) {
						p := newPkg()
						p.gen = append(p.gen, tU16(1030, 0100644, 0xffff), tU64(5009, 1<<40), tBytes(1146, []byte{1, 2, 3}), tStrs(1047, tStrArray, "a", "", "c"), tU32(1003, 3),
							tagv{1004, tI18N, 2, []byte("x\x00y\x00")}, tagv{1999, tNull, 0, nil}, tagv{2000, tChar, 3, []byte("abc")})
						p.sig = []tagv{tBytes(sigReserved, make([]byte, 64)), tBytes(sigRSA, []byte{9, 9}), tU64(271, 77)}
						b := p.build()
						h := mustRead(x, b.raw)
						r := newRef(b.sigTags, b.genTags)
						ids := []int{1000, 1030, 5009, 1146, 1047, 1003, 1004, 1999, 2000, 16384 + 1007, 271, 268}
						for i := 0; i < 3; i++ {
							switch k := x.Choose(14); k {
							case 0:
								h.DumpSignatureHeader(false)
							case 1:
								h.DumpSignatureHeader(true)
							default:
								checkTag(x, h, r, ids[k-2], fmt.Sprintf("call %d", i))
								h.GetFiles()
								h.GetNEVRA()
							}
							x.Step()
							x.State(x.prefix())
						}
						for _, id := range ids {
							checkTag(x, h, r, id, "at the end")
						}
						checkSizes(x, h, r, "at the end")
						x.Validated()
					},
				},
			}, c01callParts(thorough)...)
		},
	})
}

func refFallbackIn(r *refHdr, intTag, longTag int) ([]uint64, bool) {
	m := map[int]tagv{}
	if t, ok := r.lookup(intTag); ok {
		m[0] = t
	}
	if t, ok := r.lookup(longTag); ok {
		m[1] = t
	}
	return refFallback(m, 0, 1)
}

// c01counts are the numbers of values tried in bulk.
func c01counts(thorough bool) []int {
	cs := []int{4, 5, 7, 8, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131073, 262143, 262145}
	if thorough {
		cs = append(cs, 524289, 1<<20-1, 1<<20+1, 1<<21+1)
	}
	return cs
}
