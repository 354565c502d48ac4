package main

// Compressed payloads in every form a format allows and a writer uses.

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"sort"
	"time"

	"github.com/klauspost/compress/zstd"
	"github.com/ulikunitz/xz"
	"github.com/ulikunitz/xz/lzma"
)

// comp is a way of compressing a payload.
type comp struct {
	name   string // what the header calls it
	what   string
	sealed bool // every change of content is caught by the format's own checks
	pack   func([]byte) []byte
}

func must1[T any](v T, err error) T {
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}

func writeAll(w io.WriteCloser, b []byte) {
	if _, err := w.Write(b); err != nil {
		panic("harness: " + err.Error())
	}
	if err := w.Close(); err != nil {
		panic("harness: " + err.Error())
	}
}

func packGzip(b []byte, level int, header bool) []byte {
	var out bytes.Buffer
	w := must1(gzip.NewWriterLevel(&out, level))
	if header {
		w.Name, w.Comment, w.Extra, w.ModTime, w.OS = "name.cpio", "comment", []byte{1, 2, 2, 0, 9, 9}, time.Unix(1e9, 0), 3
	}
	writeAll(w, b)
	return out.Bytes()
}

func packLzma(b []byte, size, eos bool) []byte {
	var out bytes.Buffer
	c := lzma.WriterConfig{DictCap: 1 << 16, SizeInHeader: size, EOSMarker: eos}
	if size {
		c.Size = int64(len(b))
	}
	writeAll(must1(c.NewWriter(&out)), b)
	return out.Bytes()
}

func packXz(b []byte, check byte, block int64) []byte {
	var out bytes.Buffer
	c := xz.WriterConfig{DictCap: 1 << 16, CheckSum: check, BlockSize: block}
	if check == 0 {
		c.NoCheckSum = true
	}
	writeAll(must1(c.NewWriter(&out)), b)
	return out.Bytes()
}

func packZstd(b []byte, opts ...zstd.EOption) []byte {
	var out bytes.Buffer
	w := must1(zstd.NewWriter(&out, append([]zstd.EOption{zstd.WithEncoderConcurrency(1), zstd.WithWindowSize(1 << 16), zstd.WithLowerEncoderMem(true)}, opts...)...))
	writeAll(w, b)
	return out.Bytes()
}

// packZstdRaw stores the data in one frame of raw and run-length blocks, of
// known size, without a checksum.
func packZstdRaw(b []byte) []byte {
	out := []byte{0x28, 0xb5, 0x2f, 0xfd, 0xa0} // single segment, 4-byte size
	out = binary.LittleEndian.AppendUint32(out, uint32(len(b)))
	return zstdBlocks(out, b, 1<<16)
}

// packZstdWindow is such a frame of unknown size with a window descriptor.
func packZstdWindow(b []byte, window int) []byte {
	return zstdBlocks([]byte{0x28, 0xb5, 0x2f, 0xfd, 0, byte(window)}, b, 1000)
}

func zstdBlocks(out, b []byte, limit int) []byte {
	block := func(last int, typ, n int) {
		h := last | typ<<1 | n<<3
		out = append(out, byte(h), byte(h>>8), byte(h>>16))
	}
	for len(b) > 0 {
		n := 1
		for n < len(b) && b[n] == b[0] && n < limit {
			n++
		}
		if n > 8 {
			block(0, 1, n)
			out = append(out, b[0])
			b = b[n:]
			continue
		}
		if n = 100; n > len(b) {
			n = len(b)
		}
		block(0, 0, n)
		out = append(out, b[:n]...)
		b = b[n:]
	}
	block(1, 0, 0)
	return out
}

// bigger are the formats with every size of dictionary or window that their
// usual levels have.
func bigger() (out []comp) {
	add := func(name, what string, pack func([]byte) []byte) {
		out = append(out, comp{name: name, what: what, pack: pack})
	}
	for e := 0; e <= 17; e++ {
		for _, m := range []int{0, 7} {
			if e < 17 || m == 0 {
				add("zstd", fmt.Sprintf("window 2^%d+%d/8", 10+e, m), func(b []byte) []byte { return packZstdWindow(b, e<<3|m) })
			}
		}
	}
	for l := 16; l <= 26; l++ {
		add("lzma", fmt.Sprintf("dictionary 2^%d", l), func(b []byte) []byte {
			p := packLzma(b, l%2 == 0, true)
			binary.LittleEndian.PutUint32(p[1:], 1<<l)
			return p
		})
		add("xz", fmt.Sprintf("dictionary 2^%d", l), func(b []byte) []byte {
			var out bytes.Buffer
			writeAll(must1(xz.WriterConfig{DictCap: 1 << l}.NewWriter(&out)), b)
			return out.Bytes()
		})
	}
	for l := 1; l <= 9; l++ {
		add("gzip", fmt.Sprintf("level %d", l), func(b []byte) []byte { return packGzip(b, l, false) })
		add("bzip2", fmt.Sprintf("level %d", l), func(b []byte) []byte {
			p := packBzip2(b, 99000*l)
			p[3] = '0' + byte(l)
			return p
		})
	}
	return
}

func halves(f func([]byte) []byte) func([]byte) []byte {
	return func(b []byte) []byte {
		h := len(b) / 2
		return append(f(b[:h]), f(b[h:])...)
	}
}

var comps = []comp{
	{"gzip", "level 6", true, func(b []byte) []byte { return packGzip(b, 6, false) }},
	{"bzip2", "one block", true, func(b []byte) []byte { return packBzip2(b, 700000) }},
	{"lzma", "end marker", false, func(b []byte) []byte { return packLzma(b, false, true) }},
	{"xz", "CRC64", true, func(b []byte) []byte { return packXz(b, xz.CRC64, 0) }},
	{"zstd", "with checksum", true, func(b []byte) []byte { return packZstd(b, zstd.WithEncoderCRC(true)) }},
	{"uncompressed", "", false, func(b []byte) []byte { return b }},
	{"gzip", "stored", true, func(b []byte) []byte { return packGzip(b, 0, false) }},
	{"gzip", "every header field", true, func(b []byte) []byte { return packGzip(b, 9, true) }},
	{"gzip", "Huffman only", true, func(b []byte) []byte { return packGzip(b, gzip.HuffmanOnly, false) }},
	{"gzip", "two members", true, halves(func(b []byte) []byte { return packGzip(b, 6, false) })},
	{"bzip2", "several blocks", true, func(b []byte) []byte { return packBzip2(b, min(len(b)/3+1, 700000)) }},
	{"bzip2", "two streams", true, halves(func(b []byte) []byte { return packBzip2(b, 700000) })},
	{"lzma", "size, no marker", false, func(b []byte) []byte { return packLzma(b, true, false) }},
	{"lzma", "size and marker", false, func(b []byte) []byte { return packLzma(b, true, true) }},
	{"xz", "CRC32", true, func(b []byte) []byte { return packXz(b, xz.CRC32, 0) }},
	{"xz", "SHA256", true, func(b []byte) []byte { return packXz(b, xz.SHA256, 0) }},
	{"xz", "no check", false, func(b []byte) []byte { return packXz(b, 0, 0) }},
	{"xz", "several blocks", true, func(b []byte) []byte { return packXz(b, xz.CRC64, int64(len(b)/3+1)) }},
	{"xz", "two streams and padding", true, func(b []byte) []byte {
		return append(halves(func(b []byte) []byte { return append(packXz(b, xz.CRC64, 0), 0, 0, 0, 0) })(b), 0, 0, 0, 0)
	}},
	{"zstd", "no checksum", false, func(b []byte) []byte { return packZstd(b, zstd.WithEncoderCRC(false)) }},
	{"zstd", "raw and run-length blocks", false, packZstdRaw},
	{"zstd", "two frames", true, halves(func(b []byte) []byte { return packZstd(b, zstd.WithEncoderCRC(true)) })},
	{"zstd", "skippable frames", true, func(b []byte) []byte {
		skip := []byte{0x53, 0x2a, 0x4d, 0x18, 5, 0, 0, 0, 'h', 'e', 'l', 'l', 'o'}
		return append(append(append([]byte{}, skip...), packZstd(b, zstd.WithEncoderCRC(true))...), skip...)
	}},
	{"zstd", "level 19", true, func(b []byte) []byte {
		return packZstd(b, zstd.WithEncoderCRC(true), zstd.WithEncoderLevel(zstd.SpeedBestCompression), zstd.WithWindowSize(8<<20))
	}},
}

// nMainComps is the number of leading elements of comps that stand for one format each.
const nMainComps = 6

type bitWriter struct {
	b    []byte
	acc  uint64
	bits uint
}

func (w *bitWriter) put(v uint64, n uint) {
	for n > 0 {
		k := min(n, 8-w.bits)
		w.acc = w.acc<<k | v>>(n-k)&(1<<k-1)
		w.bits += k
		n -= k
		if w.bits == 8 {
			w.b = append(w.b, byte(w.acc))
			w.acc, w.bits = 0, 0
		}
	}
}

var bzTable = func() (t [256]uint32) {
	for i := range t {
		c := uint32(i) << 24
		for k := 0; k < 8; k++ {
			if c&(1<<31) != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
		t[i] = c
	}
	return
}()

// packBzip2 compresses in blocks of so many bytes, with trivial code tables.
func packBzip2(b []byte, block int) []byte {
	w := &bitWriter{b: []byte("BZh9")}
	var combined uint32
	for len(b) > 0 {
		n := min(block, len(b))
		crc := bzBlock(w, b[:n])
		combined = (combined<<1 | combined>>31) ^ crc
		b = b[n:]
	}
	w.put(0x177245385090, 48)
	w.put(uint64(combined), 32)
	if w.bits > 0 {
		w.put(0, 8-w.bits)
	}
	return w.b
}

func bzBlock(w *bitWriter, b []byte) uint32 {
	crc := ^uint32(0)
	for _, c := range b {
		crc = crc<<8 ^ bzTable[byte(crc>>24)^c]
	}
	crc = ^crc
	// runs
	var r []byte
	for i := 0; i < len(b); {
		n := 1
		for i+n < len(b) && b[i+n] == b[i] && n < 255 {
			n++
		}
		for k := 0; k < min(n, 4); k++ {
			r = append(r, b[i])
		}
		if n >= 4 {
			r = append(r, byte(n-4))
		}
		i += n
	}
	if len(r) > 900000 {
		panic("harness: bzip2 block is too large")
	}
	// sort the rotations by doubling
	n := len(r)
	order, rank, next := make([]int, n), make([]int, n), make([]int, n)
	for i := range order {
		order[i], rank[i] = i, int(r[i])
	}
	for k := 1; ; k *= 2 {
		key := func(i int) (int, int) { return rank[i], rank[(i+k)%n] }
		sort.Slice(order, func(x, y int) bool {
			a, b := key(order[x])
			c, d := key(order[y])
			return a < c || a == c && b < d
		})
		for i, p := range order {
			next[p] = 0
			if i > 0 {
				a, b := key(order[i-1])
				c, d := key(p)
				next[p] = next[order[i-1]]
				if a != c || b != d {
					next[p]++
				}
			}
		}
		copy(rank, next)
		if rank[order[n-1]] == n-1 || k >= n {
			break
		}
	}
	orig := 0
	last := make([]byte, n)
	for i, p := range order {
		if p == 0 {
			orig = i
		}
		last[i] = r[(p+n-1)%n]
	}
	w.put(0x314159265359, 48)
	w.put(uint64(crc), 32)
	w.put(0, 1)
	w.put(uint64(orig), 24)
	var used [256]bool
	for _, c := range r {
		used[c] = true
	}
	var mtf []byte
	big := uint64(0)
	for i := 0; i < 16; i++ {
		big <<= 1
		for k := 0; k < 16; k++ {
			if used[16*i+k] {
				big |= 1
			}
		}
	}
	w.put(big, 16)
	for i := 0; i < 16; i++ {
		if big>>(15-i)&1 == 0 {
			continue
		}
		for k := 0; k < 16; k++ {
			if used[16*i+k] {
				w.put(1, 1)
				mtf = append(mtf, byte(16*i+k))
			} else {
				w.put(0, 1)
			}
		}
	}
	symbols := len(mtf) + 2
	// move to front and run lengths of zeros
	var syms []int
	zeros := 0
	flush := func() {
		for ; zeros > 0; zeros = (zeros - 1) / 2 {
			syms = append(syms, (zeros-1)&1)
			if zeros <= 2 {
				zeros = 0
				break
			}
		}
	}
	for _, c := range last {
		k := bytes.IndexByte(mtf, c)
		if k == 0 {
			zeros++
			continue
		}
		flush()
		syms = append(syms, k+1)
		copy(mtf[1:], mtf[:k])
		mtf[0] = c
	}
	flush()
	syms = append(syms, symbols-1)
	// a complete code of two lengths
	bits := 1
	for 1<<bits < symbols {
		bits++
	}
	short := 1<<bits - symbols
	code := func(s int) (uint64, uint) {
		if s < short {
			return uint64(s), uint(bits - 1)
		}
		return uint64(s + short), uint(bits)
	}
	w.put(2, 3)
	groups := (len(syms) + 49) / 50
	w.put(uint64(groups), 15)
	for i := 0; i < groups; i++ {
		w.put(0, 1)
	}
	for t := 0; t < 2; t++ {
		_, cur := code(0)
		w.put(uint64(cur), 5)
		for s := 0; s < symbols; s++ {
			_, l := code(s)
			for ; cur < l; cur++ {
				w.put(2, 2)
			}
			w.put(0, 1)
		}
	}
	for _, s := range syms {
		v, l := code(s)
		w.put(v, l)
	}
	return crc
}

func (c comp) String() string { return fmt.Sprintf("%s (%s)", c.name, c.what) }
