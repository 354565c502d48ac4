package main

// Reference construction and parsing of RPM headers, written from the file
// format and independent of the library.

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"sort"
)

const (
	tNull = iota
	tChar
	tInt8
	tInt16
	tInt32
	tInt64
	tString
	tBin
	tStrArray
	tI18N
)

type tagv struct {
	tag   int
	typ   int
	count int
	data  []byte
}

func be(v uint64, n int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b[8-n:]
}

func tStr(tag int, s string) tagv {
	return tagv{tag, tString, 1, append([]byte(s), 0)}
}

func tStrs(tag, typ int, ss ...string) tagv {
	var b []byte
	for _, s := range ss {
		b = append(append(b, s...), 0)
	}
	return tagv{tag, typ, len(ss), b}
}

func tU32(tag int, vs ...uint32) tagv {
	var b []byte
	for _, v := range vs {
		b = append(b, be(uint64(v), 4)...)
	}
	return tagv{tag, tInt32, len(vs), b}
}

func tU16(tag int, vs ...uint16) tagv {
	var b []byte
	for _, v := range vs {
		b = append(b, be(uint64(v), 2)...)
	}
	return tagv{tag, tInt16, len(vs), b}
}

func tU64(tag int, vs ...uint64) tagv {
	var b []byte
	for _, v := range vs {
		b = append(b, be(v, 8)...)
	}
	return tagv{tag, tInt64, len(vs), b}
}

func tBytes(tag int, b []byte) tagv { return tagv{tag, tBin, len(b), b} }

var alignOf = map[int]int{tInt16: 2, tInt32: 4, tInt64: 8}

// hdrOpt says how a header is laid out.
type hdrOpt struct {
	region  int  // region tag, 0 for none (old format)
	sig     bool // pad the store to 8 bytes
	reverse bool // store the data in reverse tag order
	unsort  bool // keep the index in the order given
	slack   int  // unused bytes at the end of the store
}

// buildHdr serializes a header.
func buildHdr(tags []tagv, o hdrOpt) []byte {
	ts := append([]tagv{}, tags...)
	if !o.unsort {
		sort.SliceStable(ts, func(i, j int) bool { return ts[i].tag < ts[j].tag })
	}
	offs := make([]int, len(ts))
	var store []byte
	for k := range ts {
		i := k
		if o.reverse {
			i = len(ts) - 1 - k
		}
		if a := alignOf[ts[i].typ]; a > 0 {
			for len(store)%a != 0 {
				store = append(store, 0)
			}
		}
		offs[i] = len(store)
		store = append(store, ts[i].data...)
	}
	var index []byte
	n := len(ts)
	if o.region != 0 {
		n++
		index = append(index, be(uint64(o.region), 4)...)
		index = append(index, be(tBin, 4)...)
		index = append(index, be(uint64(len(store)), 4)...)
		index = append(index, be(16, 4)...)
		store = append(store, be(uint64(o.region), 4)...)
		store = append(store, be(tBin, 4)...)
		store = append(store, be(uint64(uint32(-16*n)), 4)...)
		store = append(store, be(16, 4)...)
	}
	for i, t := range ts {
		index = append(index, be(uint64(uint32(t.tag)), 4)...)
		index = append(index, be(uint64(t.typ), 4)...)
		index = append(index, be(uint64(offs[i]), 4)...)
		index = append(index, be(uint64(t.count), 4)...)
	}
	store = append(store, make([]byte, o.slack)...)
	var out []byte
	out = append(out, 0x8e, 0xad, 0xe8, 1, 0, 0, 0, 0)
	out = append(out, be(uint64(n), 4)...)
	out = append(out, be(uint64(len(store)), 4)...)
	out = append(out, index...)
	out = append(out, store...)
	if o.sig {
		for len(out)%8 != 0 {
			out = append(out, 0)
		}
	}
	return out
}

// buildLead makes a lead.
func buildLead(name string, source bool) []byte {
	b := make([]byte, 96)
	copy(b, []byte{0xed, 0xab, 0xee, 0xdb, 3, 0})
	if source {
		b[7] = 1
	}
	b[9] = 1
	copy(b[10:75], name)
	b[77] = 1
	b[79] = 5
	return b
}

const (
	sigSize      = 1000
	sigPGP       = 1002
	sigMD5       = 1004
	sigGPG       = 1005
	sigPaySize   = 1007
	sigReserved  = 1008
	sigDSA       = 267
	sigRSA       = 268
	sigSHA1      = 269
	sigLongSize  = 270
	sigLongArch  = 271
	sigSHA256    = 273
	sigRegion    = 62
	hdrRegion    = 63
	tagPayDigest = 5092
	tagPayAlgo   = 5093
)

// pkg is a package under construction.
type pkg struct {
	lead    []byte
	sig     []tagv
	sigOpt  hdrOpt
	gen     []tagv
	genOpt  hdrOpt
	payload []byte

	noPayDigest bool
	noMD5       bool
	noSHA1      bool
	noSHA256    bool
}

func newPkg() *pkg {
	return &pkg{
		lead:   buildLead("pkg-1-1", false),
		sigOpt: hdrOpt{region: sigRegion, sig: true},
		genOpt: hdrOpt{region: hdrRegion},
		gen: []tagv{
			tStr(1000, "pkg"), tStr(1001, "1.0"), tStr(1002, "2"), tStr(1022, "noarch"),
			tStr(1124, "cpio"),
		},
	}
}

// built is a finished package.
type built struct {
	raw              []byte
	sigEnd, genEnd   int // offsets
	gen              []byte
	payload          []byte
	sigTags, genTags []tagv
}

// digestTags gives the integrity tags of the signature header.
func (p *pkg) digestTags(gen []byte) (out []tagv) {
	if !p.noSHA1 {
		s := sha1.Sum(gen)
		out = append(out, tStr(sigSHA1, hex.EncodeToString(s[:])))
	}
	if !p.noSHA256 {
		s := sha256.Sum256(gen)
		out = append(out, tStr(sigSHA256, hex.EncodeToString(s[:])))
	}
	out = append(out, tU32(sigSize, uint32(len(gen)+len(p.payload))))
	if !p.noMD5 {
		s := md5.New()
		s.Write(gen)
		s.Write(p.payload)
		out = append(out, tBytes(sigMD5, s.Sum(nil)))
	}
	return
}

func (p *pkg) genHeader() ([]byte, []tagv) {
	gt := append([]tagv{}, p.gen...)
	if !p.noPayDigest {
		s := sha256.Sum256(p.payload)
		gt = append(gt, tStrs(tagPayDigest, tStrArray, hex.EncodeToString(s[:])), tU32(tagPayAlgo, 8))
	}
	return buildHdr(gt, p.genOpt), gt
}

func (p *pkg) build() *built {
	b := &built{payload: p.payload}
	b.gen, b.genTags = p.genHeader()
	b.sigTags = append(append([]tagv{}, p.sig...), p.digestTags(b.gen)...)
	return assemble(p.lead, b.sigTags, p.sigOpt, b)
}

func assemble(lead []byte, sig []tagv, so hdrOpt, b *built) *built {
	b.sigTags = sig
	sh := buildHdr(sig, so)
	b.raw = append(append(append(append([]byte{}, lead...), sh...), b.gen...), b.payload...)
	b.sigEnd = len(lead) + len(sh)
	b.genEnd = b.sigEnd + len(b.gen)
	return b
}

// ------------------------------------------------------------ parsing

// parsedHdr is a header as read by the reference parser.
type parsedHdr struct {
	tags   []tagv // in index order, regions excluded
	region int    // region tag or 0
	end    int    // offset after the header (and padding, for signature headers)
	n      int
	size   int
}

// parseHdr parses and strictly validates a header at the start of b.
func parseHdr(b []byte, sig bool, strict bool) (*parsedHdr, error) {
	if len(b) < 16 {
		return nil, fmt.Errorf("no intro")
	}
	if !bytes.Equal(b[:8], []byte{0x8e, 0xad, 0xe8, 1, 0, 0, 0, 0}) {
		return nil, fmt.Errorf("bad intro % x", b[:8])
	}
	n := int(binary.BigEndian.Uint32(b[8:]))
	size := int(binary.BigEndian.Uint32(b[12:]))
	end := 16 + 16*n + size
	if end > len(b) {
		return nil, fmt.Errorf("header of %d entries and %d bytes does not fit in %d", n, size, len(b))
	}
	p := &parsedHdr{n: n, size: size}
	p.end = end
	if sig {
		p.end = (end + 7) / 8 * 8
		if p.end > len(b) {
			return nil, fmt.Errorf("signature header padding is missing")
		}
		for _, c := range b[end:p.end] {
			if c != 0 {
				return nil, fmt.Errorf("signature header padding is not zero")
			}
		}
	}
	index := b[16 : 16+16*n]
	store := b[16+16*n : end]
	last := -1 << 31
	type span struct{ a, b int }
	var spans []span
	for i := 0; i < n; i++ {
		tag := int(int32(binary.BigEndian.Uint32(index[16*i:])))
		typ := int(int32(binary.BigEndian.Uint32(index[16*i+4:])))
		off := int(int32(binary.BigEndian.Uint32(index[16*i+8:])))
		count := int(int32(binary.BigEndian.Uint32(index[16*i+12:])))
		if tag <= last {
			return nil, fmt.Errorf("index is not sorted: %d after %d", tag, last)
		}
		last = tag
		if off < 0 || off > len(store) || count < 0 {
			return nil, fmt.Errorf("tag %d: bad offset %d or count %d", tag, off, count)
		}
		if a := alignOf[typ]; a > 0 && off%a != 0 {
			return nil, fmt.Errorf("tag %d of type %d is not aligned: offset %d", tag, typ, off)
		}
		l := 0
		if typ != tNull && count > len(store) { // no room, whatever the sizes
			return nil, fmt.Errorf("tag %d leaves the store", tag)
		}
		switch typ {
		case tNull:
		case tChar, tInt8, tBin:
			l = count
		case tInt16:
			l = 2 * count
		case tInt32:
			l = 4 * count
		case tInt64:
			l = 8 * count
		case tString, tStrArray, tI18N:
			for k := 0; k < count; k++ {
				z := bytes.IndexByte(store[off+l:], 0)
				if z < 0 {
					return nil, fmt.Errorf("tag %d is not terminated", tag)
				}
				l += z + 1
			}
		default:
			return nil, fmt.Errorf("tag %d has type %d", tag, typ)
		}
		if off+l > len(store) {
			return nil, fmt.Errorf("tag %d leaves the store", tag)
		}
		if l > 0 {
			spans = append(spans, span{off, off + l})
		}
		data := store[off : off+l]
		if tag == sigRegion || tag == hdrRegion {
			if i != 0 {
				return nil, fmt.Errorf("region tag is not first")
			}
			if typ != tBin || count != 16 {
				return nil, fmt.Errorf("bad region entry type %d count %d", typ, count)
			}
			want := append(append(append(be(uint64(tag), 4), be(tBin, 4)...), be(uint64(uint32(-16*n)), 4)...), be(16, 4)...)
			if !bytes.Equal(data, want) {
				return nil, fmt.Errorf("region trailer % x, want % x", data, want)
			}
			if off+16 != len(store) && strict {
				return nil, fmt.Errorf("region trailer at %d is not at the end of the store of %d", off, len(store))
			}
			p.region = tag
			continue
		}
		p.tags = append(p.tags, tagv{tag, typ, count, append([]byte{}, data...)})
	}
	if strict {
		sort.Slice(spans, func(i, j int) bool { return spans[i].a < spans[j].a })
		for i := 1; i < len(spans); i++ {
			if spans[i].a < spans[i-1].b {
				return nil, fmt.Errorf("values overlap")
			}
			if spans[i].a-spans[i-1].b > 7 {
				return nil, fmt.Errorf("gap of %d bytes in the store", spans[i].a-spans[i-1].b)
			}
		}
		if len(spans) > 0 && spans[0].a > 7 {
			return nil, fmt.Errorf("gap at the start of the store")
		}
	}
	return p, nil
}

func (p *parsedHdr) get(tag int) (tagv, bool) {
	for _, t := range p.tags {
		if t.tag == tag {
			return t, true
		}
	}
	return tagv{}, false
}

func sameTag(a, b tagv) bool {
	return a.tag == b.tag && a.typ == b.typ && a.count == b.count && bytes.Equal(a.data, b.data)
}

// sameTags compares sets of tags, ignoring some.
func sameTags(a, b []tagv, ignore ...int) error {
	norm := func(ts []tagv) []tagv {
		var out []tagv
	next:
		for _, t := range ts {
			for _, i := range ignore {
				if t.tag == i {
					continue next
				}
			}
			out = append(out, t)
		}
		sort.SliceStable(out, func(i, j int) bool { return out[i].tag < out[j].tag })
		return out
	}
	x, y := norm(a), norm(b)
	for i := 0; i < len(x) || i < len(y); i++ {
		if i >= len(x) {
			return fmt.Errorf("tag %d is extra", y[i].tag)
		}
		if i >= len(y) {
			return fmt.Errorf("tag %d is missing", x[i].tag)
		}
		if !sameTag(x[i], y[i]) {
			return fmt.Errorf("tag %d type %d count %d %q became tag %d type %d count %d %q", x[i].tag, x[i].typ, x[i].count, x[i].data, y[i].tag, y[i].typ, y[i].count, y[i].data)
		}
	}
	return nil
}

// ------------------------------------------------------------ streams

// chunkReader is a stream that hands out its data in pieces.
type chunkReader struct {
	data    []byte
	pos     int
	size    func(pos, want int) int // piece size; 0 gives (0, nil)
	failAt  int                     // position at which err is returned; <0 for the end of data
	err     error                   // io.EOF by default
	withEOF bool                    // deliver the error with the last bytes
	reads   int
	closed  int
	zero    bool // next call gives (0, nil)
	zeros   bool // every other call gives (0, nil)
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.reads++
	end := len(c.data)
	if c.failAt >= 0 && c.failAt < end {
		end = c.failAt
	}
	e := c.err
	if e == nil {
		e = io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c.zeros {
		c.zero = !c.zero
		if c.zero {
			return 0, nil
		}
	}
	if c.pos >= end {
		return 0, e
	}
	n := end - c.pos
	if n > len(p) {
		n = len(p)
	}
	if c.size != nil {
		if s := c.size(c.pos, n); s < n {
			n = s
		}
	}
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if c.withEOF && c.pos >= end {
		return n, e
	}
	return n, nil
}

func (c *chunkReader) Close() error { c.closed++; return nil }

func newChunk(data []byte, mode int) *chunkReader {
	c := &chunkReader{data: data, failAt: -1}
	switch mode {
	case 0:
	case 1:
		c.size = func(_, _ int) int { return 1 }
	case 2:
		c.withEOF = true
	case 3:
		c.zeros = true
		c.size = func(_, _ int) int { return 3 }
	case 4:
		c.size = func(_, _ int) int { return 7 }
		c.withEOF = true
	}
	return c
}

const nChunkModes = 5
