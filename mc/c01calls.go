package main

// Every sequence of two (three) accessor calls on one header: the last result is
// that of the same call on a header that was just read.

import (
	"errors"
	"fmt"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

type headerCall struct {
	name string
	get  func(h *rpmutils.RpmHeader) string
}

// errClass tells what kind of error it is, whatever its words.
func errClass(err error) string {
	var nst rpmutils.NoSuchTagError
	switch {
	case err == nil:
		return "ok"
	case errors.As(err, &nst):
		return fmt.Sprint("no such tag ", nst.Tag)
	}
	return "error"
}

func headerCalls(tags []int) (out []headerCall) {
	add := func(name string, get func(h *rpmutils.RpmHeader) string) { out = append(out, headerCall{name, get}) }
	text := func(v any, err error) string { return fmt.Sprintf("%#v %s", v, errClass(err)) }
	for _, tag := range tags {
		for _, op := range []headerCall{
			{"HasTag", func(h *rpmutils.RpmHeader) string { return fmt.Sprint(h.HasTag(tag)) }},
			{"Get", func(h *rpmutils.RpmHeader) string { return text(h.Get(tag)) }},
			{"GetString", func(h *rpmutils.RpmHeader) string { return text(h.GetString(tag)) }},
			{"GetStrings", func(h *rpmutils.RpmHeader) string { return text(h.GetStrings(tag)) }},
			{"GetInt", func(h *rpmutils.RpmHeader) string { return text(h.GetInt(tag)) }},
			{"GetInts", func(h *rpmutils.RpmHeader) string { return text(h.GetInts(tag)) }},
			{"GetUint32s", func(h *rpmutils.RpmHeader) string { return text(h.GetUint32s(tag)) }},
			{"GetUint64", func(h *rpmutils.RpmHeader) string { return text(h.GetUint64(tag)) }},
			{"GetUint64s", func(h *rpmutils.RpmHeader) string { return text(h.GetUint64s(tag)) }},
			{"GetBytes", func(h *rpmutils.RpmHeader) string { return text(h.GetBytes(tag)) }},
		} {
			add(fmt.Sprintf("%s(%d)", op.name, tag), op.get)
		}
	}
	add("GetUint64Fallback", func(h *rpmutils.RpmHeader) string { return text(h.GetUint64Fallback(1009, 5009)) })
	add("GetUint64Fallback the other way", func(h *rpmutils.RpmHeader) string { return text(h.GetUint64Fallback(5009, 1009)) })
	add("InstalledSize", func(h *rpmutils.RpmHeader) string { return text(h.InstalledSize()) })
	add("PayloadSize", func(h *rpmutils.RpmHeader) string { return text(h.PayloadSize()) })
	add("IsSource", func(h *rpmutils.RpmHeader) string { return fmt.Sprint(h.IsSource()) })
	add("GetRange", func(h *rpmutils.RpmHeader) string { return fmt.Sprint(h.GetRange()) })
	add("OriginalSignatureHeaderSize", func(h *rpmutils.RpmHeader) string { return fmt.Sprint(h.OriginalSignatureHeaderSize()) })
	for _, same := range []bool{false, true} {
		add(fmt.Sprintf("DumpSignatureHeader(%v)", same), func(h *rpmutils.RpmHeader) string { return text(h.DumpSignatureHeader(same)) })
	}
	add("GetNEVRA", func(h *rpmutils.RpmHeader) string {
		n, err := h.GetNEVRA()
		if err != nil {
			return errClass(err)
		}
		return fmt.Sprintf("%#v", *n)
	})
	add("GetFiles", func(h *rpmutils.RpmHeader) string {
		fs, err := h.GetFiles()
		s := errClass(err)
		for _, f := range fs {
			s += "\n" + infoText(f)
		}
		return s
	})
	return
}

type callShape struct {
	name string
	raw  []byte
}

// callShapes are packages whose headers differ in how names, sizes and epoch
// are stored.
func callShapes() (out []callShape) {
	add := func(name string, f func(p *pkg)) {
		p := newPkg()
		p.sig = []tagv{tBytes(sigReserved, make([]byte, 64)), tBytes(sigRSA, []byte{9, 9}), tU64(271, 77)}
		f(p)
		out = append(out, callShape{name, p.build().raw})
	}
	more := []tagv{tU64(5009, 1<<40), tBytes(1146, []byte{1, 2, 3}), tStrs(1047, tStrArray, "a", "", "c"), {1004, tI18N, 2, []byte("x\x00y\x00")}, {1998, tNull, 0, nil}}
	one := []tagv{tU64(5008, 3), tU16(1030, 0100644), tU32(1034, 8), tStrs(1035, tStrArray, "d"), tStrs(1036, tStrArray, ""), tU32(1037, 1), tStrs(1039, tStrArray, "u"), tStrs(1040, tStrArray, "g"), tU32(1095, 2), tU32(1096, 3)}
	add("directories and basenames", func(p *pkg) {
		p.gen = append(append(p.gen, more...), append(one, tU32(1116, 0), tStrs(1117, tStrArray, "f"), tStrs(1118, tStrArray, "/d/"))...)
	})
	add("full names and an epoch", func(p *pkg) {
		p.gen = append(append(p.gen, more...), append(one, tStrs(1027, tStrArray, "/d/f"), tU32(1003, 3))...)
	})
	add("both kinds of names", func(p *pkg) {
		p.gen = append(append(p.gen, tU32(1003, 0)), append(one, tStrs(1027, tStrArray, "/other"), tU32(1116, 0), tStrs(1117, tStrArray, "f"), tStrs(1118, tStrArray, "/d/"))...)
	})
	add("no files", func(p *pkg) { p.gen = append(p.gen, tStrs(1003, tStrArray, "x")) })
	return
}

func c01callParts(thorough bool) []*Part {
	tags := []int{1000, 1003, 1004, 1009, 1027, 1030, 1037, 1047, 1116, 1117, 1118, 1146, 1998, 5008, 5009, 271, 257, 16384 + 1000, 16384 + 1007, 4000}
	part := func(name string, n int, calls []headerCall) *Part {
		shapes := callShapes()
		return &Part{
			Name: name,
			Desc: fmt.Sprintf("every sequence of %d calls of %d (accessors on %d tags, GetFiles, GetNEVRA, sizes, ranges, dumps) on headers of %d kinds: each gives what it gives on a header that was just read", n, len(calls), len(tags), len(shapes)),
			Run: func(x *X) {
				s := shapes[x.Choose(len(shapes))]
				h := mustRead(x, s.raw)
				did := ""
				for range n {
					c := calls[x.Choose(len(calls))]
					key := "fresh " + s.name + c.name
					want, ok := x.w.mem[key].(string)
					if !ok {
						want = c.get(mustRead(x, s.raw))
						x.w.mem[key] = want
					}
					got := c.get(h)
					x.Step()
					if got != want {
						x.Fail("%s: %s after %s gives %.300s, on a new header %.300s", s.name, c.name, did, got, want)
					}
					did += c.name + ", "
				}
				x.State(x.prefix())
				x.Logf("%s: %s", s.name, did)
				x.Validated()
			},
		}
	}
	parts := []*Part{part("call-pairs", 2, headerCalls(tags))}
	if thorough {
		tags = []int{1000, 1009, 1027, 1117, 1118, 5009, 271, 4000}
		parts = append(parts, part("call-triples", 3, headerCalls(tags)))
	}
	return parts
}
