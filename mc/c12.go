package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"sync"

	"github.com/sassoftware/go-rpmutils/cpio"
)

var (
	c12table     []int64
	c12tableOnce sync.Once
)

func newCpioReader(r io.Reader, sizes []int64) *cpio.Reader {
	if sizes == nil {
		return cpio.NewReader(r)
	}
	return cpio.NewReaderWithSizes(r, sizes)
}

// checkRead1 does one Read and compares it with the model: data is the file's
// content, pos what was read of it. It returns the new position.
func checkRead1(x *X, rd interface{ Read([]byte) (int, error) }, data []byte, pos, n int, what string) int {
	x.Step()
	buf := make([]byte, n+2)
	for i := range buf {
		buf[i] = 0xEE
	}
	got, err := rd.Read(buf[:n:n])
	if got < 0 || got > n || got > len(data)-pos {
		x.Fail("%s: Read(%d bytes) at %d of %d returns %d, %v", what, n, pos, len(data), got, err)
	}
	if !bytes.Equal(buf[:got], data[pos:pos+got]) {
		x.Fail("%s: Read(%d bytes) at %d of %d gives %x, want %x", what, n, pos, len(data), buf[:got], data[pos:pos+got])
	}
	for _, c := range buf[n:] {
		if c != 0xEE {
			x.Fail("%s: Read wrote beyond its buffer", what)
		}
	}
	pos += got
	switch {
	case err == io.EOF:
		if pos != len(data) {
			x.Fail("%s: Read(%d bytes) says io.EOF at %d of %d", what, n, pos, len(data))
		}
	case err != nil:
		x.Fail("%s: Read(%d bytes) at %d of %d: %v", what, n, pos, len(data), err)
	case got == 0 && n > 0 && pos == len(data):
		x.Fail("%s: Read(%d bytes) at the end of %d returns 0, nil", what, n, len(data))
	}
	return pos
}

// readRest reads the rest of the file with n-byte buffers.
func readRest(x *X, rd interface{ Read([]byte) (int, error) }, data []byte, pos, n int, what string) {
	idle := 0
	for pos < len(data) {
		p := checkRead1(x, rd, data, pos, n, what)
		if p == pos {
			if idle++; idle > 3 {
				x.Fail("%s: Read does not get anywhere at %d of %d", what, pos, len(data))
			}
		} else {
			idle = 0
		}
		pos = p
	}
	x.Step()
	buf := make([]byte, n)
	if got, err := rd.Read(buf); got != 0 || err != io.EOF {
		x.Fail("%s: Read at the end of the file: %d, %v", what, got, err)
	}
}

// readAfterEnd reads when there is no current file: it must give nothing.
func readAfterEnd(x *X, rd interface{ Read([]byte) (int, error) }, what string) {
	x.Step()
	if n, err := rd.Read(make([]byte, 8)); n != 0 || err == nil {
		x.Fail("%s: Read without a file: %d, %v", what, n, err)
	}
}

// c12ents makes n distinct entries.
func c12ent(k, nameLen, size int) cent {
	name := string(bytes.Repeat([]byte{byte('a' + k)}, nameLen))
	return cent{name: name, ino: uint32(100 + k), mode: mREG | 0644, uid: uint32(k), gid: uint32(2 * k), nlink: 1, mtime: 0x5f000000, devmajor: 8, devminor: uint32(k), data: fileData(k, size)}
}

func sizesOf(ents []cent) []int64 {
	max := -1
	for _, e := range ents {
		if e.stripped && e.index > max {
			max = e.index
		}
	}
	if max < 0 {
		return nil
	}
	s := make([]int64, max+1)
	for i := range s {
		s[i] = 77
	}
	for _, e := range ents {
		if e.stripped {
			s[e.index] = int64(len(e.data))
		}
	}
	return s
}

// walk reads an archive with Next and, for each entry, what ops says.
func walk(x *X, rd *cpio.Reader, ents []cent, what string, visit func(i int, e cent, what string)) {
	for i, e := range ents {
		x.Step()
		h, err := rd.Next()
		if err != nil {
			x.Fail("%s: Next for entry %d: %v", what, i, err)
		}
		if err := checkHdr(h, e, int64(len(e.data))); err != nil {
			x.Fail("%s: entry %d: %v", what, i, err)
		}
		visit(i, e, fmt.Sprintf("%s, entry %d", what, i))
	}
	x.Step()
	h, err := rd.Next()
	if err != io.EOF || h != nil {
		x.Fail("%s: Next at the trailer: %v, %v", what, h, err)
	}
	for i := 0; i < 2; i++ {
		readAfterEnd(x, rd, what+", after the trailer")
		x.Step()
		if h, err := rd.Next(); err == nil || h != nil {
			x.Fail("%s: Next after the trailer gives %v, %v", what, h, err)
		}
	}
	x.Validated()
}

func init() {
	register(&Prop{
		ID:          "C12",
		Bits32:      func(part string) bool { return part != "fields" },
		Assumptions: []string{"on platforms with 32-bit integers the numbers in entry headers stay below 2^31 (others are refused, since the accessors return int)"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			sizes := []int{0, 1, 2, 3, 4, 5, 8}
			bufs := []int{0, 1, 3, 4, 100}
			sizes2 := []int{0, 1, 4}
			nOps := 3
			if thorough {
				sizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9}
				bufs = []int{0, 1, 2, 3, 4, 5, 100}
				sizes2 = []int{0, 1, 3, 4, 6}
			}
			modes := nChunkModes
			ops := func(x *X, rd *cpio.Reader, e cent, what string, n int) {
				pos := 0
				for k := 0; k < n; k++ {
					o := x.Choose(len(bufs) + 2)
					if o == 0 {
						break
					}
					if o == 1 {
						readRest(x, rd, e.data, pos, 3, what)
						pos = len(e.data)
						continue
					}
					x.Logf("read %d", bufs[o-2])
					pos = checkRead1(x, rd, e.data, pos, bufs[o-2], what)
				}
				x.State(what, e.name, len(e.data), pos)
			}
			return []*Part{
				{
					Name: "operations",
					Desc: fmt.Sprintf("1 or 2 entries, newc or stripped, first of size %v and name length residue 0..3, second of size %v; after each Next every sequence of up to %d (second: 1) reads with buffers %v or to the end; %d ways the stream splits; then Next and Read beyond the end", sizes, sizes2, nOps, bufs, modes),
					Run: func(x *X) {
						mode := x.Choose(modes)
						stripped := x.Bool()
						nl := 1
						if !stripped {
							nl = 1 + x.Choose(4)
						}
						ents := []cent{c12ent(0, nl, sizes[x.Choose(len(sizes))])}
						if k := x.Choose(len(sizes2) + 1); k > 0 {
							ents = append(ents, c12ent(1, 2, sizes2[k-1]))
						}
						if stripped {
							for i := range ents {
								ents[i].stripped = true
								ents[i].index = len(ents) - 1 - i
							}
						}
						what := fmt.Sprintf("stream mode %d, stripped %v, sizes", mode, stripped)
						for _, e := range ents {
							what += fmt.Sprintf(" %d", len(e.data))
						}
						x.Logf("%s", what)
						rd := newCpioReader(newChunk(archive(ents...), mode), sizesOf(ents))
						readAfterEnd(x, rd, what+", before Next")
						walk(x, rd, ents, what, func(i int, e cent, what string) {
							n := nOps
							if i > 0 {
								n = 1
							}
							ops(x, rd, e, what, n)
						})
					},
				},
				{
					Name:   "short-reads",
					Budget: map[bool]int{false: 2, true: 3}[thorough],
					Desc:   fmt.Sprintf("2 entries; at each read of the underlying stream it may deliver 1 byte, all but one byte, or nothing instead of what was asked for (up to %d deviations); files read with 3-byte buffers, whole, or skipped", map[bool]int{false: 2, true: 3}[thorough]),
					Run: func(x *X) {
						sh := x.Choose(4)
						ents := []cent{c12ent(0, 1+sh, 5+sh), c12ent(1, 2, 3)}
						if x.Bool() {
							for i := range ents {
								ents[i].stripped = true
								ents[i].index = i
							}
						}
						c := newChunk(archive(ents...), 0)
						c.size = func(pos, want int) int {
							switch x.Dev(4) {
							case 1:
								return 1
							case 2:
								return want - 1
							case 3:
								return 0
							}
							return want
						}
						op := x.Choose(4)
						rd := newCpioReader(c, sizesOf(ents))
						what := fmt.Sprintf("shape %d, operation %d", sh, op)
						walk(x, rd, ents, what, func(i int, e cent, what string) {
							switch op {
							case 0:
							case 1:
								readRest(x, rd, e.data, 0, 3, what)
							case 2:
								readRest(x, rd, e.data, 0, 64, what)
							case 3:
								checkRead1(x, rd, e.data, 0, 2, what)
							}
						})
						x.State(x.prefix())
					},
				},
				{
					Name: "fields",
					Desc: "newc headers with every field at 0, 1, 0x7fffffff, 0x80000000, 0xffffffff or a distinctive value, others distinctive, and with all fields 0 and names of 1..130 bytes; hexadecimal digits in lower and upper case; names of 1..9, 4095, 5000 and 70000 bytes, with spaces, slashes, non-ASCII and trailer-like names; CpioStream and Reader",
					Run: func(x *X) {
						e := cent{name: "name", ino: 0x11aabbcc, mode: mREG | 0751, uid: 0x22bbccdd, gid: 0x33ccddee, nlink: 0x44ddeeff, mtime: 0x55eeff00, devmajor: 0x66ff0011, devminor: 0x77001122, rdevmajor: 0x88112233, rdevminor: 0x99223344, chksum: 0xaa334455, data: fileData(3, 6)}
						f := x.Choose(15)
						e.upper = x.Bool()
						if f >= 12 { // all fields alike, but for the name and perhaps the content
							e = cent{name: e.name, upper: e.upper}
							if k := x.Choose(131); k > 0 {
								e.name = string(bytes.Repeat([]byte("m"), k))
							}
							if f == 13 {
								e.nlink, e.data = 1, fileData(3, 6)
							} else if f == 14 {
								e.data = fileData(3, 6)
							}
						} else if f < 11 {
							p := []*uint32{&e.ino, &e.mode, &e.uid, &e.gid, &e.nlink, &e.mtime, &e.devmajor, &e.devminor, &e.rdevmajor, &e.rdevminor, &e.chksum}[f]
							if k := x.Choose(6); k > 0 {
								*p = []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}[k-1]
							}
						} else {
							names := []string{"", "/", ".", "..", "./a", "a b", "é\xff\x01", "TRAILER!!", "TRAILER!!!!", "trailer!!!", "a/TRAILER!!!", "TRAILER!!!/", "./TRAILER!!!", "a/", "//", "./", "a//b", "/a", "../a", "a\n", " "}
							lens := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 4095, 5000, 70000}
							k := x.Choose(len(names) + len(lens))
							if k < len(names) {
								e.name = names[k]
							} else {
								e.name = string(bytes.Repeat([]byte("n"), lens[k-len(names)]))
							}
						}
						x.Logf("%+v", e)
						x.State(x.prefix())
						ents := []cent{e, c12ent(1, 1, 1)}
						mode := x.Choose(3)
						rd := cpio.NewReader(newChunk(archive(ents...), mode))
						walk(x, rd, ents, fmt.Sprintf("%.60q mode %d", e.name, mode), func(i int, e cent, what string) {
							readRest(x, rd, e.data, 0, 4, what)
						})
						cs := cpio.NewCpioStream(newChunk(archive(ents...), mode))
						for i, e := range append(ents, trailer()) {
							x.Step()
							ce, err := cs.ReadNextEntry()
							if err != nil {
								x.Fail("ReadNextEntry %d: %v", i, err)
							}
							if err := checkHdr(ce.Header, e, int64(len(e.data))); err != nil {
								x.Fail("ReadNextEntry %d: %v", i, err)
							}
						}
						x.Step()
						if ce, err := cs.ReadNextEntry(); err == nil {
							x.Fail("ReadNextEntry after the end of the stream: %+v", ce.Header)
						}
						x.Validated()
					},
				},
				{
					Name: "stripped-index",
					Desc: "stripped archives of up to 3 entries with every index in 0..3 (any order, repeated), sizes 0..5 supplied for 4 files, unused sizes arbitrary, mixed with newc entries; files read, skipped or partly read",
					Run: func(x *X) {
						n := x.Choose(4)
						all := []int64{0, 1, 3, 5}
						if x.Bool() {
							all = []int64{4, 2, 1 << 40, -1}
						}
						var ents []cent
						for i := 0; i < n; i++ {
							k := x.Choose(5)
							if k == 4 {
								ents = append(ents, c12ent(i, 1+i, 2))
								continue
							}
							if all[k] < 0 || all[k] > 100 {
								k = 1
							}
							ents = append(ents, cent{stripped: true, index: k, data: fileData(i+5, int(all[k]))})
						}
						op := x.Choose(3)
						mode := x.Choose(modes)
						what := fmt.Sprintf("%d entries, sizes %v, operation %d, mode %d", n, all, op, mode)
						rd := cpio.NewReaderWithSizes(newChunk(archive(ents...), mode), all)
						walk(x, rd, ents, what, func(i int, e cent, what string) {
							switch op {
							case 1:
								readRest(x, rd, e.data, 0, 2, what)
							case 2:
								checkRead1(x, rd, e.data, 0, 1, what)
							}
						})
						x.State(x.prefix())
					},
				},
				{
					Name: "high-index",
					Desc: fmt.Sprintf("stripped archives of 2 entries whose indices are each of 0, 1, 2^k - 1, 2^k and 2^k + 1 for k = 7..%d, with sizes of 0 to 6 that tell the files apart; read, skipped or partly read", map[bool]int{false: 18, true: 23}[thorough]),
					Run: func(x *X) {
						top := map[bool]int{false: 18, true: 23}[thorough]
						idx := []int{0, 1}
						for k := 7; k <= top; k++ {
							idx = append(idx, 1<<k-1, 1<<k, 1<<k+1)
						}
						a, b := idx[x.Choose(len(idx))], idx[x.Choose(len(idx))]
						op := x.Choose(3)
						// the sizes of all files are one table, never written to
						c12tableOnce.Do(func() {
							c12table = make([]int64, 1<<top+2)
							for i := range c12table {
								c12table[i] = 99
							}
							for i, k := range idx {
								c12table[k] = int64(i % 7)
							}
						})
						ents := []cent{{stripped: true, index: a, data: fileData(1, int(c12table[a]))}, {stripped: true, index: b, data: fileData(2, int(c12table[b]))}}
						what := fmt.Sprintf("indices %d and %d, operation %d", a, b, op)
						rd := cpio.NewReaderWithSizes(newChunk(archive(ents...), 0), c12table)
						walk(x, rd, ents, what, func(i int, e cent, what string) {
							switch op {
							case 1:
								readRest(x, rd, e.data, 0, 2, what)
							case 2:
								checkRead1(x, rd, e.data, 0, 1, what)
							}
						})
						x.State(x.prefix())
					},
				},
				{
					Name:    "large",
					Workers: 4,
					Desc:    "files of 2^31-1, 2^31, 2^32-1 bytes (newc) and 2^32-1, 2^32, 2^32+5, 2^33+2 bytes (stripped) from a synthetic stream: skipped, read at the start and skipped, or read to the end; the next entry is found",
					Run: func(x *X) {
						stripped := x.Bool()
						sz := []int64{1<<31 - 1, 1 << 31, 1<<32 - 1}
						if stripped {
							sz = []int64{1<<32 - 1, 1 << 32, 1<<32 + 5, 1<<33 + 2}
						}
						size := sz[x.Choose(len(sz))]
						op := x.Choose(3)
						if size > math.MaxInt && !stripped {
							return
						}
						next := c12ent(1, 1, 3)
						var b bytes.Buffer
						big := cent{name: "big", mode: mREG, nlink: 1, stripped: stripped}
						big.write(&b, int(size))
						s := &synthStream{parts: []any{b.Bytes(), size, make([]byte, (4-(int64(b.Len())+size)%4)%4), archive(next)}}
						rd := newCpioReader(s, map[bool][]int64{true: {size}}[stripped])
						x.Logf("%d bytes, operation %d", size, op)
						x.StepN(3)
						h, err := rd.Next()
						if err != nil {
							x.Fail("Next: %v", err)
						}
						if err := checkHdr(h, big, size); err != nil {
							x.Fail("%v", err)
						}
						switch op {
						case 1:
							buf := make([]byte, 1000)
							if n, err := io.ReadFull(rd, buf); n != 1000 || err != nil || !bytes.Equal(buf, make([]byte, 1000)) {
								x.Fail("Read: %d, %v", n, err)
							}
						case 2:
							if n, err := io.Copy(io.Discard, rd); n != size || err != nil {
								x.Fail("reading a file of %d bytes gives %d, %v", size, n, err)
							}
						}
						walk(x, rd, []cent{next}, "after the big file", func(i int, e cent, what string) { readRest(x, rd, e.data, 0, 5, what) })
						x.State(x.prefix())
					},
				},
			}
		},
	})
}
