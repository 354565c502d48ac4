IMP = lambda *p: "package rpmutils\n\nimport (\n" + "".join('\t"%s"\n'%x for x in p) + ")\n\n"
CIMP = lambda *p: "package cpio\n\nimport (\n" + "".join('\t"%s"\n'%x for x in p) + ")\n\n"
OPGP = "github.com/ProtonMail/go-crypto/openpgp"
SEEDS = [
dict(id="c01-splice-cached", prop="C01", pkg=".", edits=[("header.go","		return paths, nil\n	}\n\n	if !ok {","		return hdr.keepNames(paths), nil\n	}\n\n	if !ok {"),
  ("header.go","// get an int array using whatever","""// keep the full names, which are often asked for more than once
func (hdr *rpmHeader) keepNames(paths []string) []string {
	hdr.entries[OLDFILENAMES] = entry{
		dataType: RPM_STRING_ARRAY_TYPE,
		count:    int32(len(paths)),
		contents: []byte(strings.Join(paths, "\\x00") + "\\x00"),
	}
	return paths
}

// get an int array using whatever""")],
 needs="HasTag or GetString asked about OLDFILENAMES after the file names were spliced together once (GetFiles, say)",
 breaks="a tag the package does not store appears in the header",
 demo=IMP("bytes","testing")+'''
func TestZZDemo(t *testing.T) {
	h, err := ReadHeader(bytes.NewReader(zzPkg(nil, zzStrs(1117, "f"), zzStrs(1118, "/"), zzU32(1116, 0))))
	if err != nil {
		t.Fatal(err)
	}
	before := h.HasTag(OLDFILENAMES)
	if _, err := h.GetStrings(OLDFILENAMES); err != nil {
		t.Fatal(err)
	}
	if h.HasTag(OLDFILENAMES) != before {
		t.Fatal("tag appeared")
	}
}
'''),
dict(id="c03-lead-magic", prop="C03", pkg=".", edits=[("rpmutils.go","	if magic&0xffffffff != 0xedabeedb {","	if magic&0xffffff00 != 0xedabee00 {")],
 needs="a file whose fourth byte alone differs from a package's",
 breaks="a file with a wrong lead magic is accepted",
 demo=IMP("bytes","testing")+'''
func TestZZDemo(t *testing.T) {
	raw := zzPkg([]byte("payload"))
	raw[3] ^= 1
	if _, err := ReadHeader(bytes.NewReader(raw)); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id="c04-inode-without-device", prop="C04", pkg=".", edits=[("header.go","		devices = make([]uint32, len(paths))\n	}\n	inodes, err := hdr.GetUint32s(FILEINODES)\n	if err != nil {","""		devices = make([]uint32, len(paths))
	}
	inodes, ierr := hdr.GetUint32s(FILEINODES)
	if err != nil || ierr != nil {""")],
 needs="a package with FILEINODES but no FILEDEVICES",
 breaks="the inodes of its files are reported as 0",
 demo=IMP("bytes","testing")+'''
func TestZZDemo(t *testing.T) {
	raw := zzPkg(nil, zzStrs(1117, "f"), zzStrs(1118, "/"), zzU32(1116, 0), zzU32(1028, 5), zzStrs(1039, "root"), zzStrs(1040, "root"),
		zzU32(1037, 0), zzU32(1034, 0), zzStrs(1035, ""), zzU16(1030, 0100644), zzStrs(1036, ""), zzU32(1096, 77))
	h, err := ReadHeader(bytes.NewReader(raw))
	if err != nil {
		t.Fatal(err)
	}
	fs, err := h.GetFiles()
	if err != nil || len(fs) != 1 || fs[0].Inode() != 77 {
		t.Fatal(fs, err)
	}
}
'''),
dict(id="c05-memo-key", prop="C05", pkg=".", edits=[("vercmp.go","import (\n	\"regexp\"\n	\"strings\"\n)","import (\n	\"regexp\"\n	\"strings\"\n	\"sync\"\n)\n\nvar compared sync.Map"),
  ("vercmp.go","func Vercmp(first, second string) int {\n","""func Vercmp(first, second string) int {
	// sorting compares the same versions again and again
	key := first + " " + second
	if r, ok := compared.Load(key); ok {
		return r.(int)
	}
	r := vercmp(first, second)
	compared.Store(key, r)
	return r
}

func vercmp(first, second string) int {
"""),("vercmp.go","	return Vercmp(vs[i], vs[j]) == -1","	return Vercmp(vs[i], vs[j]) < 0")],
 needs="two comparisons in one process of different strings that contain spaces, as separators",
 breaks="a comparison gives the result of an earlier one",
 demo=IMP("testing")+'''
func TestZZDemo(t *testing.T) {
	if r := Vercmp("1 2", "3"); r != -1 {
		t.Fatal(r)
	}
	if r := Vercmp("1", "2 3"); r != -1 {
		t.Fatal(r)
	}
	if r := Vercmp("2 1", "1"); r != 1 {
		t.Fatal(r)
	}
	if r := Vercmp("2", "1 1"); r != 1 {
		t.Fatal(r)
	}
	if r := Vercmp("3 1 2", "3"); r != 1 {
		t.Fatal(r)
	}
	if r := Vercmp("3", "1 2 3"); r != 1 {
		t.Fatal(r)
	}
	if r := Vercmp("3 1", "2 3"); r != 1 {
		t.Fatal(r)
	}
	if r := Vercmp("5", "5 6"); r != -1 {
		t.Fatal(r)
	}
	if r := Vercmp("5 5", "6"); r != -1 {
		t.Fatal(r)
	}
	if r := Vercmp("4", "3 9"); r != 1 {
		t.Fatal(r)
	}
	if r := Vercmp("4 3", "9"); r != -1 {
		t.Fatal(r)
	}
}
'''),
dict(id="c06-padding-64k", prop="C06", pkg=".", edits=[("writeheader.go","		if needed+16 <= available {","		if needed+16 <= available && available-needed < 1<<16 {")],
 needs="a package whose signature header reserves 64 KiB or more",
 breaks="a same-size dump is smaller than the original header, so it cannot replace it",
 demo=IMP("bytes","testing")+'''
func TestZZDemo(t *testing.T) {
	payload := []byte("payload")
	gen := zzGen(payload)
	for _, n := range []int{1000, 60000, 65520, 65536, 70000, 200000} {
		raw := zzJoin(zzLead(), zzHeader(true, append(zzSig(gen, payload), zzBin(1008, make([]byte, n)))...), gen, payload)
		h, err := ReadHeader(bytes.NewReader(raw))
		if err != nil {
			t.Fatal(err)
		}
		blob, err := h.DumpSignatureHeader(true)
		if err != nil || len(blob) != h.OriginalSignatureHeaderSize() {
			t.Fatal(n, len(blob), h.OriginalSignatureHeaderSize(), err)
		}
	}
}
'''),
dict(id="c07-epoch-time", prop="C07", pkg=".", edits=[("signatures.go","		CreationTime: opts.creationTime(),","		CreationTime: validTime(opts.creationTime()),"),
  ("signatures.go","func makeSignature(","""// a signature cannot be dated before 1970
func validTime(t time.Time) time.Time {
	if t.Unix() <= 0 {
		return time.Now()
	}
	return t
}

func makeSignature(""")],
 needs="a creation time of exactly 1970-01-01T00:00:00Z, as reproducible builds use",
 breaks="the signature is dated at the current time instead of the one asked for",
 demo=IMP("bytes","testing","time",OPGP)+'''
func TestZZDemo(t *testing.T) {
	e, err := openpgp.NewEntity("a", "", "a@example.com", nil)
	if err != nil {
		t.Fatal(err)
	}
	raw := zzPkg([]byte("payload"))
	for _, when := range []int64{1e9, 1, 0} {
		h, err := SignRpmStream(bytes.NewReader(raw), e.PrivateKey, &SignatureOptions{CreationTime: time.Unix(when, 0)})
		if err != nil {
			t.Fatal(err)
		}
		blob, err := h.DumpSignatureHeader(false)
		if err != nil {
			t.Fatal(err)
		}
		_, sigs, err := Verify(bytes.NewReader(append(blob, raw[h.OriginalSignatureHeaderSize():]...)), nil)
		if err != nil || len(sigs) != 2 || sigs[0].CreationTime.Unix() != when {
			t.Fatal(when, sigs, err)
		}
	}
}
'''),
dict(id="c08-md5-prefix", prop="C08", pkg=".", edits=[("verify_digests.go","		if !bytes.Equal(calculated, sigmd5) {","		if !bytes.HasPrefix(calculated, sigmd5) {")],
 needs="a package without a payload digest whose recorded MD5 is cut to its first bytes",
 breaks="a payload that does not match the recorded digest is accepted after a search for a short prefix",
 demo=IMP("bytes","crypto/md5","testing")+'''
func TestZZDemo(t *testing.T) {
	payload := []byte("payload")
	gen := zzHeader(false, zzStr(1000, "pkg"), zzStr(1001, "1"), zzStr(1002, "1"), zzStr(1022, "noarch"))
	m := md5.Sum(append(append([]byte{}, gen...), payload...))
	for n := 1; n <= 16; n++ {
		raw := zzJoin(zzLead(), zzHeader(true, zzBin(1004, m[:n])), gen, payload)
		if _, _, err := Verify(bytes.NewReader(raw), nil); (err == nil) != (n == 16) {
			t.Fatal(n, err)
		}
	}
}
'''),
dict(id="c09-subkey-flags", prop="C09", pkg=".", edits=[("verify_v4.go","			if sig.CheckKeyIdOrFingerprint(sub.PublicKey) {","			if sig.CheckKeyIdOrFingerprint(sub.PublicKey) && !sub.Sig.FlagEncryptCommunications {")],
 needs="a signature by a subkey that is also meant for encryption",
 breaks="Verify does not find the subkey although it is in the keyring and the signature is valid",
 demo=IMP("bytes","testing",OPGP)+'''
func TestZZDemo(t *testing.T) {
	e, err := openpgp.NewEntity("a", "", "a@example.com", nil)
	if err != nil {
		t.Fatal(err)
	}
	if err := e.AddSigningSubkey(nil); err != nil {
		t.Fatal(err)
	}
	sub := e.Subkeys[len(e.Subkeys)-1]
	for _, also := range []bool{false, true} {
		sub.Sig.FlagEncryptCommunications = also
		if err := sub.Sig.SignKey(sub.PublicKey, e.PrivateKey, nil); err != nil {
			t.Fatal(err)
		}
		raw := zzPkg([]byte("payload"))
		h, err := SignRpmStream(bytes.NewReader(raw), sub.PrivateKey, nil)
		if err != nil {
			t.Fatal(err)
		}
		blob, err := h.DumpSignatureHeader(false)
		if err != nil {
			t.Fatal(err)
		}
		var buf bytes.Buffer
		if err := e.Serialize(&buf); err != nil {
			t.Fatal(err)
		}
		ring, err := openpgp.ReadKeyRing(&buf)
		if err != nil {
			t.Fatal(err)
		}
		_, sigs, err := Verify(bytes.NewReader(append(blob, raw[h.OriginalSignatureHeaderSize():]...)), ring)
		if err != nil || len(sigs) != 2 || sigs[0].Signer == nil {
			t.Fatal(also, sigs, err)
		}
	}
}
'''),
dict(id="c12-trailer-prefix", prop="C12", pkg="cpio", edits=[("cpio/reader.go","import \"io\"","import (\n	\"io\"\n	\"strings\"\n)"),("cpio/reader.go","	} else if ent.Header.filename == TRAILER {","	} else if strings.HasPrefix(ent.Header.filename, TRAILER) {")],
 needs="an archive with a file whose name begins with TRAILER!!!",
 breaks="that file is taken for the end of the archive: it and those behind it are missing",
 demo=CIMP("bytes","testing")+'''
func TestZZDemo(t *testing.T) {
	r := NewReader(bytes.NewReader(zzCpio(zzEnt{"TRAILER!!!.txt", S_ISREG | 0644, 1, 1, "data"}, zzEnt{"b", S_ISREG | 0644, 1, 2, "more"})))
	for _, name := range []string{"TRAILER!!!.txt", "b"} {
		h, err := r.Next()
		if err != nil || h.Filename() != name {
			t.Fatal(h, err)
		}
	}
}
'''),
dict(id="c13-sscan", prop="C13", pkg="cpio", edits=[("cpio/header.go","	\"fmt\"\n	\"io\"\n	\"strconv\"\n","	\"fmt\"\n	\"io\"\n"),("cpio/header.go","	i, err := strconv.ParseInt(string(bb), 16, 0)\n	if err != nil {","	var i int\n	if _, err := fmt.Sscanf(string(bb), \"%x\", &i); err != nil {")],
 needs="an entry header with a number that begins with hexadecimal digits and goes on with something else",
 breaks="the number is read up to the first wrong character, and the damage goes unnoticed",
 demo=CIMP("bytes","testing")+'''
func TestZZDemo(t *testing.T) {
	arch := zzCpio(zzEnt{"a", S_ISREG | 0644, 1, 1, "data"})
	if _, err := NewReader(bytes.NewReader(arch)).Next(); err != nil {
		t.Fatal(err)
	}
	arch[6+8*5+7] = 'z' // the last digit of the modification time
	if _, err := NewReader(bytes.NewReader(arch)).Next(); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id="c17-dot-name", prop="C17", pkg=".", edits=[("payload.go","		if len(name) > 1 && name[0] == '.' && name[1] == '/' {","		if len(name) > 1 && name[0] == '.' {")],
 needs="a source package (names without a leading slash) with a file whose name begins with a dot",
 breaks="reading its payload fails with an invalid file error",
 demo=IMP("bytes","io","testing","fmt")+'''
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	for _, name := range []string{".config", "TRAILER!!!"} {
		b.WriteString("070701")
		for i := 0; i < 13; i++ {
			fmt.Fprintf(&b, "%08x", map[int]int{1: 0100644, 4: 1, 11: len(name) + 1}[i])
		}
		b.WriteString(name + "\\x00")
		for b.Len()%4 != 0 {
			b.WriteByte(0)
		}
	}
	raw := zzPkg(b.Bytes(), zzStrs(1117, ".config"), zzStrs(1118, ""), zzU32(1116, 0), zzU32(1028, 0), zzStrs(1039, "root"), zzStrs(1040, "root"),
		zzU32(1037, 0), zzU32(1034, 0), zzStrs(1035, ""), zzU16(1030, 0100644), zzStrs(1036, ""))
	rpm, err := ReadRpm(bytes.NewReader(raw))
	if err != nil {
		t.Fatal(err)
	}
	pr, err := rpm.PayloadReaderExtended()
	if err != nil {
		t.Fatal(err)
	}
	if fi, err := pr.Next(); err != nil || fi.Name() != ".config" {
		t.Fatal(fi, err)
	}
	if _, err := pr.Next(); err != io.EOF {
		t.Fatal(err)
	}
}
'''),
dict(id="c18-one-member", prop="C18", pkg=".", edits=[("uncompress.go","		return gzip.NewReader(r)","""		zr, err := gzip.NewReader(r)
		if err != nil {
			return nil, err
		}
		zr.Multistream(false)
		return zr, nil""")],
 needs="a gzip payload of several members, as parallel compressors write",
 breaks="only the first member is decompressed",
 demo=IMP("bytes","compress/gzip","io","testing","fmt")+'''
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	for _, name := range []string{"./f", "TRAILER!!!"} {
		b.WriteString("070701")
		for i := 0; i < 13; i++ {
			fmt.Fprintf(&b, "%08x", map[int]int{1: 0100644, 4: 1, 11: len(name) + 1}[i])
		}
		b.WriteString(name + "\\x00")
		for b.Len()%4 != 0 {
			b.WriteByte(0)
		}
	}
	var z bytes.Buffer
	for _, part := range [][]byte{b.Bytes()[:50], b.Bytes()[50:]} {
		w := gzip.NewWriter(&z)
		w.Write(part)
		w.Close()
	}
	raw := zzPkg(z.Bytes(), zzStr(1125, "gzip"))
	rpm, err := ReadRpm(bytes.NewReader(raw))
	if err != nil {
		t.Fatal(err)
	}
	pr, err := rpm.PayloadReader()
	if err != nil {
		t.Fatal(err)
	}
	if h, err := pr.Next(); err != nil || h.Filename() != "./f" {
		t.Fatal(h, err)
	}
	if _, err := pr.Next(); err != io.EOF {
		t.Fatal(err)
	}
}
'''),
dict(id="c19-inplace-leak", prop="C19", pkg=".", edits=[("signatures.go","""	n, err := outfile.Write(blob)
	if err2 := outfile.Close(); err == nil {
		err = err2
	}
	if err != nil {
		return false, err
	} else if n != len(blob) {
		return false, io.ErrShortWrite
	}
	return true, nil""","""	n, err := outfile.Write(blob)
	if err != nil {
		return false, err
	} else if n != len(blob) {
		return false, io.ErrShortWrite
	}
	return true, outfile.Close()""")],
 needs="a package signed in place whose write fails (a file size limit, a full or failing disk)",
 breaks="the descriptor of the output stays open",
 demo=IMP("bytes","os","os/signal","path/filepath","strings","syscall","testing",OPGP)+'''
func TestZZDemo(t *testing.T) {
	e, err := openpgp.NewEntity("a", "", "a@example.com", nil)
	if err != nil {
		t.Fatal(err)
	}
	payload := []byte("payload")
	gen := zzGen(payload)
	raw := zzJoin(zzLead(), zzHeader(true, append(zzSig(gen, payload), zzBin(1008, make([]byte, 4096)))...), gen, payload)
	name := filepath.Join(t.TempDir(), "p.rpm")
	if err := os.WriteFile(name, raw, 0644); err != nil {
		t.Fatal(err)
	}
	f, err := os.Open(name)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Fatal(err)
	}
	lim := old
	lim.Cur = 0
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		t.Fatal(err)
	}
	_, err = SignRpmFile(f, name, e.PrivateKey, nil)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Fatal("no error")
	}
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for _, fd := range fds {
		if to, _ := os.Readlink("/proc/self/fd/" + fd.Name()); strings.HasPrefix(to, name) {
			n++
		}
	}
	if n != 1 {
		t.Fatal("descriptors on the package:", n)
	}
	_ = bytes.NewReader
}
'''),
dict(id="c20-umask", prop="C20", pkg="cpio", edits=[("fileutil/fileutil_unix.go","	return unix.Mkfifo(path, mode)\n","""	// not every file system applies the umask to pipes
	umask := unix.Umask(0)
	defer unix.Umask(umask)
	return unix.Mkfifo(path, mode&^uint32(umask))
""")],
 needs="two extractions at once, one creating something between the other's two changes of the process's umask",
 breaks="files of the other extraction, or everything created later, get permissions of a wrong umask",
 demo=CIMP("bytes","fmt","path/filepath","sync","syscall","testing")+'''
func TestZZDemo(t *testing.T) {
	old := syscall.Umask(0077)
	defer syscall.Umask(old)
	var ents []zzEnt
	for i := 0; i < 200; i++ {
		ents = append(ents, zzEnt{fmt.Sprint("p", i), S_ISFIFO | 0644, 1, i + 1, ""}, zzEnt{fmt.Sprint(i), S_ISREG | 0644, 1, 1000 + i, ""})
	}
	arch := zzCpio(ents...)
	dir := t.TempDir()
	for i := 0; i < 20; i++ {
		var wg sync.WaitGroup
		for j := 0; j < 8; j++ {
			dest := filepath.Join(dir, fmt.Sprint(i, j))
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := Extract(bytes.NewReader(arch), dest); err != nil {
					t.Error(err)
				}
			}()
		}
		wg.Wait()
		if m := syscall.Umask(0077); m != 0077 {
			t.Fatalf("umask %o", m)
		}
	}
}
'''),
dict(id="c21-no-truncate", prop="C21", pkg="cpio", edits=[("cpio/extract.go","			f, err := os.Create(target)\n			if err != nil {\n				return err\n			}\n			written","			f, err := os.OpenFile(target, os.O_WRONLY|os.O_CREATE, 0666)\n			if err != nil {\n				return err\n			}\n			written")],
 needs="a file extracted over an existing file that is longer",
 breaks="the end of the old file is left behind the new content",
 demo=CIMP("bytes","os","path/filepath","testing")+'''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	name := filepath.Join(dir, "f")
	if err := os.WriteFile(name, []byte("a longer content"), 0644); err != nil {
		t.Fatal(err)
	}
	if err := Extract(bytes.NewReader(zzCpio(zzEnt{"f", S_ISREG | 0644, 1, 1, "data"})), dir); err != nil {
		t.Fatal(err)
	}
	if got, _ := os.ReadFile(name); string(got) != "data" {
		t.Fatalf("%q", got)
	}
}
'''),
dict(id="c21-symlink-kept", prop="C21", pkg="cpio", edits=[("cpio/extract.go","			if err := os.Symlink(string(buf), target); err != nil {\n				return err","			if err := os.Symlink(string(buf), target); err != nil && !isLink(target) {\n				return err"),("cpio/extract.go","// Extract the contents of","""// isLink returns true for a link that was extracted before
func isLink(name string) bool {
	info, err := os.Lstat(name)
	return err == nil && info.Mode()&os.ModeSymlink != 0
}

// Extract the contents of""")],
 needs="a symbolic link extracted over an existing one that leads elsewhere",
 breaks="the old link stays, and success is reported",
 demo=CIMP("bytes","os","path/filepath","testing")+'''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	name := filepath.Join(dir, "l")
	if err := os.Symlink("old", name); err != nil {
		t.Fatal(err)
	}
	err := Extract(bytes.NewReader(zzCpio(zzEnt{"l", S_ISLNK | 0777, 1, 1, "new"})), dir)
	if got, _ := os.Readlink(name); err == nil && got != "new" {
		t.Fatalf("%q", got)
	}
}
'''),
]
