IMP = lambda *p: "package rpmutils\n\nimport (\n" + "".join('\t"%s"\n'%x for x in p) + ")\n\n"
CIMP = lambda *p: "package cpio\n\nimport (\n" + "".join('\t"%s"\n'%x for x in p) + ")\n\n"
SEEDS = [
dict(id="c02-fallback-empty", prop="C02", pkg=".", edits=[("rpmutils.go","""	if err == nil && len(vals) == 1 {
		return vals[0], nil
	}
	h, t = hdr.getHeader(intTag)""","""	if err == nil {
		return vals[0], nil
	}
	h, t = hdr.getHeader(intTag)""")],
 needs="a package whose LONGSIZE (or other 64-bit) tag has a count of zero",
 breaks="a crafted header makes GetUint64Fallback and InstalledSize panic",
 demo=IMP("bytes","testing")+'''
func TestZZDemo(t *testing.T) {
	h, err := ReadHeader(bytes.NewReader(zzPkg(nil, zzU64(5009), zzU32(1009, 7))))
	if err != nil {
		t.Fatal(err)
	}
	_, _ = h.InstalledSize() // must not panic
	_, _ = h.GetUint64Fallback(SIZE, LONGSIZE)
}
'''),
dict(id="c03-empty-read", prop="C03", pkg=".", edits=[("header.go","	_, err := io.ReadFull(f, buf)\n	return buf, err\n}","""	for got := 0; got < len(buf); {
		k, err := f.Read(buf[got:])
		if got += k; k == 0 && err == nil {
			err = io.ErrNoProgress
		}
		if err != nil && got < len(buf) {
			if err == io.EOF && got > 0 {
				err = io.ErrUnexpectedEOF
			}
			return buf, err
		}
	}
	return buf, nil
}""")],
 needs="a stream one of whose reads returns neither data nor an error, as io.Reader allows",
 breaks="the result depends on how the stream is cut into reads: ReadHeader fails on a package it accepts otherwise",
 demo=IMP("bytes","io","testing")+'''
type zzSome struct {
	r io.Reader
	n int
}

func (r *zzSome) Read(p []byte) (int, error) {
	if r.n++; r.n%2 == 1 {
		return 0, nil
	}
	return r.r.Read(p)
}

func TestZZDemo(t *testing.T) {
	raw := zzPkg([]byte("payload"))
	if _, err := ReadHeader(bytes.NewReader(raw)); err != nil {
		t.Fatal(err)
	}
	if _, err := ReadHeader(&zzSome{r: bytes.NewReader(raw)}); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="c04-both-sizes", prop="C04", pkg=".", edits=[("header.go","""	if _, ok := hdr.entries[longTag]; ok {
		return hdr.GetUint64s(longTag)
	}
	return hdr.GetUint64s(intTag)""","""	if _, ok := hdr.entries[intTag]; ok {
		return hdr.GetUint64s(intTag)
	}
	return hdr.GetUint64s(longTag)""")],
 needs="a package that has both FILESIZES and LONGFILESIZES, the first truncated to 32 bits",
 breaks="the 32-bit sizes are preferred to the 64-bit ones, so the files' sizes are wrong",
 demo=IMP("bytes","testing")+'''
func TestZZDemo(t *testing.T) {
	raw := zzPkg(nil, zzStrs(1117, "f"), zzStrs(1118, "/"), zzU32(1116, 0), zzU32(1028, 5), zzU64(5008, 1<<32+5), zzStrs(1039, "root"), zzStrs(1040, "root"),
		zzU32(1037, 0), zzU32(1034, 0), zzStrs(1035, ""), zzU16(1030, 0100644), zzStrs(1036, ""))
	h, err := ReadHeader(bytes.NewReader(raw))
	if err != nil {
		t.Fatal(err)
	}
	fs, err := h.GetFiles()
	if err != nil || len(fs) != 1 || fs[0].Size() != 1<<32+5 {
		t.Fatal(fs, err)
	}
}
'''),
dict(id="c07-stale-gpg", prop="C07", pkg=".", edits=[("signatures.go","	delete(sigHeader.entries, SIG_GPG-_SIGHEADER_TAG_BASE)\n","")],
 needs="a package that already carries a SIG_GPG signature is signed",
 breaks="an outdated signature stays in the signed package, by a key other than the signer's",
 demo=IMP("bytes","testing","time","github.com/ProtonMail/go-crypto/openpgp")+'''
func TestZZDemo(t *testing.T) {
	e, err := openpgp.NewEntity("a", "", "a@example.com", nil)
	if err != nil {
		t.Fatal(err)
	}
	payload := []byte("payload")
	gen := zzGen(payload)
	raw := zzJoin(zzLead(), zzHeader(true, append(zzSig(gen, payload), zzBin(1005, []byte("an older signature")))...), gen, payload)
	h, err := SignRpmStream(bytes.NewReader(raw), e.PrivateKey, &SignatureOptions{CreationTime: time.Unix(1e9, 0)})
	if err != nil {
		t.Fatal(err)
	}
	blob, err := h.DumpSignatureHeader(false)
	if err != nil {
		t.Fatal(err)
	}
	signed := append(blob, raw[h.OriginalSignatureHeaderSize():]...)
	if _, sigs, err := Verify(bytes.NewReader(signed), openpgp.EntityList{e}); err != nil || len(sigs) != 2 {
		t.Fatal(len(sigs), err)
	}
}
'''),
dict(id="c09-trailing-newline", prop="C09", pkg=".", edits=[("verify_v4.go","	} else if reader.Len() > 0 {","	} else if reader.Len() > 1 {")],
 needs="a signature packet followed by exactly one more byte",
 breaks="a blob that is not exactly one signature packet is accepted",
 demo=IMP("bytes","testing","time","github.com/ProtonMail/go-crypto/openpgp")+'''
func TestZZDemo(t *testing.T) {
	e, err := openpgp.NewEntity("a", "", "a@example.com", nil)
	if err != nil {
		t.Fatal(err)
	}
	payload := []byte("payload")
	gen := zzGen(payload)
	h, err := SignRpmStream(bytes.NewReader(zzPkg(payload)), e.PrivateKey, &SignatureOptions{CreationTime: time.Unix(1e9, 0)})
	if err != nil {
		t.Fatal(err)
	}
	sig, err := h.GetBytes(SIG_RSA)
	if err != nil {
		t.Fatal(err)
	}
	for n := 0; n < 3; n++ {
		raw := zzJoin(zzLead(), zzHeader(true, append(zzSig(gen, payload), zzBin(268, append(sig[:len(sig):len(sig)], make([]byte, n)...)))...), gen, payload)
		if _, _, err := Verify(bytes.NewReader(raw), openpgp.EntityList{e}); (err == nil) != (n == 0) {
			t.Fatal(n, err)
		}
	}
}
'''),
dict(id="c10-inplace-shorter", prop="C10", pkg=".", edits=[("signatures.go","	if orig != len(blob) {","	if orig < len(blob) {")],
 needs="a package signed in place whose new signature header is a little smaller (by 8 bytes) than its old one",
 breaks="the old header's last bytes are left behind the new one: the package is destroyed, and success reported",
 demo=IMP("bytes","os","path/filepath","testing","github.com/ProtonMail/go-crypto/openpgp")+'''
func TestZZDemo(t *testing.T) {
	e, err := openpgp.NewEntity("a", "", "a@example.com", nil)
	if err != nil {
		t.Fatal(err)
	}
	payload := []byte("payload")
	gen := zzGen(payload)
	for n := 0; n < 900; n += 8 {
		raw := zzJoin(zzLead(), zzHeader(true, append(zzSig(gen, payload), zzBin(1005, make([]byte, n)))...), gen, payload)
		name := filepath.Join(t.TempDir(), "p.rpm")
		if err := os.WriteFile(name, raw, 0644); err != nil {
			t.Fatal(err)
		}
		f, err := os.Open(name)
		if err != nil {
			t.Fatal(err)
		}
		_, err = SignRpmFile(f, name, e.PrivateKey, nil)
		f.Close()
		if err != nil {
			t.Fatal(n, err)
		}
		got, err := os.ReadFile(name)
		if err != nil {
			t.Fatal(err)
		}
		if _, sigs, err := Verify(bytes.NewReader(got), openpgp.EntityList{e}); err != nil || len(sigs) != 2 {
			t.Fatal(n, len(sigs), err)
		}
	}
}
'''),
dict(id="c11-samefile", prop="C11", pkg=".", edits=[("signatures.go","	if !os.SameFile(ininfo, outinfo) {\n		return false\n	}\n	if fileutil","	if ininfo.Size() != outinfo.Size() || !ininfo.ModTime().Equal(outinfo.ModTime()) {\n		return false\n	}\n	if fileutil")],
 needs="an output file that exists already, of the input's size and modification time (a copy made with cp -p), with other contents",
 breaks="the output is taken for the input: only its signature header is written, and the rest is not the input's",
 demo=IMP("bytes","os","path/filepath","testing","time","github.com/ProtonMail/go-crypto/openpgp")+'''
func TestZZDemo(t *testing.T) {
	e, err := openpgp.NewEntity("a", "", "a@example.com", nil)
	if err != nil {
		t.Fatal(err)
	}
	payload := []byte("payload")
	gen := zzGen(payload)
	raw := zzJoin(zzLead(), zzHeader(true, append(zzSig(gen, payload), zzBin(1008, make([]byte, 4096)))...), gen, payload)
	in, out := filepath.Join(t.TempDir(), "in.rpm"), filepath.Join(t.TempDir(), "out.rpm")
	when := time.Unix(1e9, 0)
	for name, data := range map[string][]byte{in: raw, out: bytes.Repeat([]byte("x"), len(raw))} {
		if err := os.WriteFile(name, data, 0644); err != nil {
			t.Fatal(err)
		}
		if err := os.Chtimes(name, when, when); err != nil {
			t.Fatal(err)
		}
	}
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if _, err = SignRpmFile(f, out, e.PrivateKey, nil); err != nil {
		t.Fatal(err)
	}
	got, err := os.ReadFile(out)
	if err != nil {
		t.Fatal(err)
	}
	if _, sigs, err := Verify(bytes.NewReader(got), openpgp.EntityList{e}); err != nil || len(sigs) != 2 {
		t.Fatal(len(sigs), err)
	}
}
'''),
dict(id="c12-size-2g", prop="C12", pkg="cpio", builder=False, edits=[("cpio/header.go","	hdr.size64 = int64(hdr.filesize)","	hdr.size64 = int64(int32(hdr.filesize))")],
 needs="an archive entry of 2 GiB or more",
 breaks="Filesize64 of a big file is negative",
 demo=CIMP("fmt","io","strings","testing")+'''
func TestZZDemo(t *testing.T) {
	for _, size := range []int64{1, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		hdr := "070701"
		for _, v := range []int64{1, 0100644, 0, 0, 1, 0, size, 0, 0, 0, 0, 2, 0} {
			hdr += fmt.Sprintf("%08x", v)
		}
		h, err := NewReader(io.MultiReader(strings.NewReader(hdr + "f\\x00"))).Next()
		if err != nil {
			t.Fatal(err)
		}
		if h.Filesize64() != size {
			t.Fatal(size, h.Filesize64())
		}
	}
}
'''),
dict(id="c13-extract-eof", prop="C13", pkg="cpio", edits=[("cpio/extract.go","""		entry, err := stream.ReadNextEntry()
		if err != nil {
			return err
		}
""","""		entry, err := stream.ReadNextEntry()
		if err == io.EOF {
			break
		} else if err != nil {
			return err
		}
""")],
 needs="an archive cut off exactly between two entries",
 breaks="extraction of a truncated archive succeeds without its last files",
 demo=CIMP("bytes","testing")+'''
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	zzAppend(&b, zzEnt{"./a", 0100644, 1, 1, "abc"})
	if err := Extract(bytes.NewReader(b.Bytes()), t.TempDir()); err == nil {
		t.Fatal("a truncated archive is extracted without an error")
	}
	if err := Extract(bytes.NewReader(zzCpio(zzEnt{"./a", 0100644, 1, 1, "abc"})), t.TempDir()); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="c14-chmod-existing", prop="C14", pkg="cpio", edits=[("cpio/extract.go","""			m := os.FileMode(entry.Header.Mode()).Perm()
""","""			m := os.FileMode(entry.Header.Mode() & 0777)
			if info, err := os.Stat(target); err == nil && info.IsDir() {
				// an existing directory gets the recorded permissions
				if err := os.Chmod(target, m); err != nil {
					return err
				}
				continue
			}
""")],
 needs="a destination that has a symlink, or an archive that makes one, where a later entry is a directory",
 breaks="extraction changes the permissions of a file or directory outside of the destination",
 demo=CIMP("bytes","os","path/filepath","testing")+'''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	out, dest := filepath.Join(dir, "outside"), filepath.Join(dir, "dest")
	for _, d := range []string{out, dest} {
		if err := os.Mkdir(d, 0700); err != nil {
			t.Fatal(err)
		}
	}
	_ = Extract(bytes.NewReader(zzCpio(zzEnt{"./l", 0120777, 1, 1, out}, zzEnt{"./l", 040755, 1, 2, ""})), dest)
	info, err := os.Stat(out)
	if err != nil || info.Mode().Perm() != 0700 {
		t.Fatal(info.Mode(), err)
	}
}
'''),
dict(id="c15-blank-names", prop="C15", pkg="cpio", edits=[("cpio/extract.go","		target := path.Clean(entry.Header.filename)","		target := path.Clean(strings.TrimSpace(entry.Header.filename))")],
 needs="a file whose name begins or ends with a space, tab or newline",
 breaks="the file is extracted under another name, perhaps another file's",
 demo=CIMP("bytes","os","path/filepath","testing")+'''
func TestZZDemo(t *testing.T) {
	dest := t.TempDir()
	for _, name := range []string{"a", "b ", "c\\n"} {
		if err := Extract(bytes.NewReader(zzCpio(zzEnt{name, 0100644, 1, 1, "abc"})), dest); err != nil {
			t.Fatal(err)
		}
		if got, err := os.ReadFile(filepath.Join(dest, name)); err != nil || string(got) != "abc" {
			t.Fatalf("%q: %q %v", name, got, err)
		}
	}
}
'''),
dict(id="c16-link-exists", prop="C16", pkg="cpio", edits=[("cpio/extract.go","					if err := os.Link(target, t); err != nil {","					if err := os.Link(target, t); err != nil && !os.IsExist(err) {")],
 needs="a destination where a file has the name of a hardlink of the archive already",
 breaks="extraction reports success although the link was not made and the old file is still there",
 demo=CIMP("bytes","os","path/filepath","testing")+'''
func TestZZDemo(t *testing.T) {
	dest := t.TempDir()
	if err := os.WriteFile(filepath.Join(dest, "a"), []byte("old"), 0644); err != nil {
		t.Fatal(err)
	}
	err := Extract(bytes.NewReader(zzCpio(zzEnt{"./a", 0100644, 2, 1, ""}, zzEnt{"./b", 0100644, 2, 1, "new"})), dest)
	got, _ := os.ReadFile(filepath.Join(dest, "a"))
	if err == nil && string(got) != "new" {
		t.Fatalf("success, but the contents are %q", got)
	}
}
'''),
dict(id="c17-device", prop="C17", pkg=".", edits=[("fileinfo.go","	return (uint64(fi.device) << 32) | uint64(fi.inode)","	return (uint64(fi.device) << 16) | uint64(fi.inode)")],
 needs="files on different devices with inode numbers of 65536 or more that collide when the device is shifted by 16 bits",
 breaks="two unrelated files are taken for hardlinks of each other, and one's contents are skipped",
 demo=IMP("bytes","fmt","testing")+'''
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	ent := func(name, data string, mode int) {
		b.WriteString("070701")
		for _, v := range []int{1, mode, 0, 0, 1, 0, len(data), 0, 0, 0, 0, len(name) + 1, 0} {
			fmt.Fprintf(&b, "%08x", v)
		}
		b.WriteString(name + "\\x00")
		for b.Len()%4 != 0 {
			b.WriteByte(0)
		}
		b.WriteString(data)
		for b.Len()%4 != 0 {
			b.WriteByte(0)
		}
	}
	ent("./f", "abc", 0100644)
	ent("./g", "def", 0100644)
	ent("TRAILER!!!", "", 0)
	tags := []zzTag{zzStr(1125, "uncompressed"), zzStrs(1117, "f", "g"), zzStrs(1118, "/"), zzU32(1116, 0, 0), zzU32(1028, 3, 3), zzStrs(1039, "root", "root"), zzStrs(1040, "root", "root"),
		zzU32(1037, 0, 0), zzU32(1034, 0, 0), zzStrs(1035, "", ""), zzU16(1030, 0100644, 0100644), zzStrs(1036, "", ""),
		zzU32(1095, 1, 0), zzU32(1096, 5, 0x10005)}
	rpm, err := ReadRpm(bytes.NewReader(zzPkg(b.Bytes(), tags...)))
	if err != nil {
		t.Fatal(err)
	}
	r, err := rpm.PayloadReaderExtended()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		fi, err := r.Next()
		if err != nil || r.IsLink() {
			t.Fatal(fi, err, r.IsLink())
		}
	}
}
'''),
dict(id="c18-peek-short", prop="C18", pkg=".", edits=[("uncompress.go","		_, err := io.ReadFull(r, b)\n		if err != nil {","		_, err := r.Read(b)\n		if err != nil {")],
 needs="a package without PAYLOADCOMPRESSOR, gzip-compressed, read from a stream that hands over the payload's first byte alone",
 breaks="the compression is not recognised and the payload has a zero byte in its second place",
 demo=IMP("bytes","compress/gzip","io","testing","testing/iotest")+'''
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Write([]byte("some contents"))
	w.Close()
	raw := zzPkg(b.Bytes())
	for _, r := range []io.Reader{bytes.NewReader(raw), iotest.OneByteReader(bytes.NewReader(raw))} {
		rpm, err := ReadRpm(r)
		if err != nil {
			t.Fatal(err)
		}
		u, err := uncompressRpmPayloadReader(rpm.f, rpm.Header)
		if err != nil {
			t.Fatal(err)
		}
		if got, err := io.ReadAll(u); err != nil || string(got) != "some contents" {
			t.Fatalf("%q %v", got, err)
		}
	}
}
'''),
dict(id="c19-close-late", prop="C19", pkg=".", edits=[("rpmutils.go","""	if c, ok := pld.(io.Closer); ok {
		defer c.Close()
	}
	if err := cpio.Extract(pld, dest); err != nil {
		return err
	}
""","""	if err := cpio.Extract(pld, dest); err != nil {
		return err
	}
	if c, ok := pld.(io.Closer); ok {
		defer c.Close()
	}
""")],
 needs="a zstd package whose extraction fails (a corrupt archive, an unwritable destination)",
 breaks="every failed extraction leaks the decompressor's memory and goroutines",
 pre="export CGO_ENABLED=0",
 demo=IMP("bytes","runtime","testing","time","github.com/klauspost/compress/zstd")+'''
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	w, err := zstd.NewWriter(&b)
	if err != nil {
		t.Fatal(err)
	}
	w.Write(bytes.Repeat([]byte("not a cpio archive"), 1000000))
	w.Close()
	raw := zzPkg(b.Bytes(), zzStr(1125, "zstd"))
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		rpm, err := ReadRpm(bytes.NewReader(raw))
		if err != nil {
			t.Fatal(err)
		}
		if err := rpm.ExpandPayload(t.TempDir()); err == nil {
			t.Fatal("no error")
		}
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > before+5; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before+5 {
		t.Fatal(before, n)
	}
}
'''),
dict(id="c20-shared-buffer", prop="C20", pkg="cpio", edits=[("cpio/header.go","	bb := br.buf[:8]\n","	bb := numberBuf[:]\n"),("cpio/header.go","type binaryReader struct {","// for reading numbers, so as not to allocate\nvar numberBuf [8]byte\n\ntype binaryReader struct {")],
 needs="two archives read at the same time, one switched to while the other is in the middle of a number",
 breaks="the two readers share a buffer and read each other's header fields",
 demo=CIMP("bytes","io","testing")+'''
type zzNested struct {
	r io.Reader
	f func()
	n int
}

func (r *zzNested) Read(p []byte) (int, error) {
	if len(p) > 3 {
		p = p[:3]
	}
	r.n++
	n, err := r.r.Read(p)
	if r.n < 100 {
		r.f()
	}
	return n, err
}

func TestZZDemo(t *testing.T) {
	a := zzCpio(zzEnt{"./a", 0100644, 1, 0x1111, "abc"})
	b := zzCpio(zzEnt{"./bbbbbbb", 0100755, 2, 0x2222, "defghij"})
	r := NewReader(&zzNested{r: bytes.NewReader(a), f: func() {
		h, err := NewReader(bytes.NewReader(b)).Next()
		if err != nil || h.Ino() != 0x2222 {
			t.Error(h, err)
		}
	}})
	h, err := r.Next()
	if err != nil || h.Ino() != 0x1111 || h.Filename() != "./a" {
		t.Fatal(h, err)
	}
}
'''),
]
