package main

// Reference construction of cpio archives, independent of the library.

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/sassoftware/go-rpmutils/cpio"
)

const (
	mREG = 0100000
	mDIR = 0040000
	mLNK = 0120000
	mFIF = 0010000
	mCHR = 0020000
	mBLK = 0060000
	mSCK = 0140000
)

// cent is an archive entry.
type cent struct {
	name                                                                                string
	ino, mode, uid, gid, nlink, mtime, devmajor, devminor, rdevmajor, rdevminor, chksum uint32
	data                                                                                []byte
	stripped                                                                            bool
	index                                                                               int
	upper                                                                               bool // hexadecimal digits in upper case
}

func (e cent) bytes() []byte {
	var b bytes.Buffer
	e.write(&b, len(e.data))
	b.Write(e.data)
	for b.Len()%4 != 0 {
		b.WriteByte(0)
	}
	return b.Bytes()
}

func (e cent) write(b *bytes.Buffer, size int) {
	if e.stripped {
		// as in the project's stripped.cpio: the content follows unaligned
		fmt.Fprintf(b, "07070X%08x", e.index)
		return
	}
	f := "%08x"
	if e.upper {
		f = "%08X"
	}
	b.WriteString("070701")
	for _, v := range []uint32{e.ino, e.mode, e.uid, e.gid, e.nlink, e.mtime, uint32(size), e.devmajor, e.devminor, e.rdevmajor, e.rdevminor, uint32(len(e.name) + 1), e.chksum} {
		fmt.Fprintf(b, f, v)
	}
	b.WriteString(e.name)
	b.WriteByte(0)
	for b.Len()%4 != 0 {
		b.WriteByte(0)
	}
}

func trailer() cent { return cent{name: cpio.TRAILER, nlink: 1} }

func archive(ents ...cent) []byte {
	var b []byte
	for _, e := range ents {
		b = append(b, e.bytes()...)
	}
	return append(b, trailer().bytes()...)
}

// fileData is content that differs at every position.
func fileData(seed, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(seed*37 + i*11 + i/251 + 1)
	}
	return b
}

// checkHdr compares a header with the entry it should describe.
func checkHdr(h *cpio.Cpio_newc_header, e cent, size int64) error {
	if h == nil {
		return errors.New("no header")
	}
	if e.stripped {
		if !h.IsStripped() || h.Index() != e.index || h.Filesize64() != size || h.Magic() != "07070X" {
			return fmt.Errorf("stripped=%v index=%d size=%d magic=%q, want index %d size %d", h.IsStripped(), h.Index(), h.Filesize64(), h.Magic(), e.index, size)
		}
		return nil
	}
	got := []int{h.Ino(), h.Mode(), h.Uid(), h.Gid(), h.Nlink(), h.Mtime(), h.Filesize(), int(h.Filesize64()), h.Devmajor(), h.Devminor(), h.Rdevmajor(), h.Rdevminor(), h.Namesize(), h.Check()}
	want := []int{int(e.ino), int(e.mode), int(e.uid), int(e.gid), int(e.nlink), int(e.mtime), int(size), int(size), int(e.devmajor), int(e.devminor), int(e.rdevmajor), int(e.rdevminor), len(e.name) + 1, int(e.chksum)}
	if fmt.Sprint(got) != fmt.Sprint(want) || h.Filename() != e.name || h.IsStripped() || h.Magic() != "070701" {
		return fmt.Errorf("header is %q %v stripped=%v magic=%q, want %q %v", h.Filename(), got, h.IsStripped(), h.Magic(), e.name, want)
	}
	return nil
}

// synthStream delivers pieces of an archive, some of them huge runs of zeros,
// without holding them.
type synthStream struct {
	parts []any // []byte or int64 (a run of zeros)
	off   int64
	max   int
}

func (s *synthStream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for len(s.parts) > 0 {
		switch d := s.parts[0].(type) {
		case []byte:
			if s.off < int64(len(d)) {
				n := copy(p, d[s.off:])
				s.off += int64(n)
				return n, nil
			}
		case int64:
			if s.off < d {
				n := int64(len(p))
				if n > d-s.off {
					n = d - s.off
				}
				if n <= 4096 {
					clear(p[:n])
				}
				s.off += n
				return int(n), nil
			}
		}
		s.parts = s.parts[1:]
		s.off = 0
	}
	return 0, io.EOF
}
