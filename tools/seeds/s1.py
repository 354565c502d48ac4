IMP = lambda *p: "package rpmutils\n\nimport (\n" + "".join('\t"%s"\n'%x for x in p) + ")\n\n"
SEEDS = [
dict(id="c01-int-bound", prop="C01", pkg=".", edits=[("header.go","if v > (1<<31)-1 {","if v > 1<<31 {")],
 needs="a 32-bit value of exactly 0x80000000 read through GetInt/GetInts",
 breaks="a value that does not fit the documented int32 range is returned instead of an error",
 demo=IMP("bytes","testing")+'''
func TestZZDemo(t *testing.T) {
	h, err := ReadHeader(bytes.NewReader(zzPkg(nil, zzU32(1009, 1<<31))))
	if err != nil {
		t.Fatal(err)
	}
	if v, err := h.GetInts(1009); err == nil {
		t.Fatalf("overflow is not reported: %v", v)
	}
	if v, err := h.GetUint32s(1009); err != nil || len(v) != 1 || v[0] != 1<<31 {
		t.Fatal(v, err)
	}
}
'''),
dict(id="c05-number-length", prop="C05", pkg=".", edits=[("vercmp.go",'''			m1Hlen := len(m1Head)
			m2Hlen := len(m2Head)
			if m1Hlen < m2Hlen {
				return -1
			}
			if m1Hlen > m2Hlen {
				return 1
			}
''','''			if len(m1Head) < 20 && len(m2Head) < 20 {
				for len(m1Head) < len(m2Head) {
					m1Head = "0" + m1Head
				}
				for len(m2Head) < len(m1Head) {
					m2Head = "0" + m2Head
				}
			}
''')],
 needs="two numeric segments of different lengths of which one has 20 digits or more after leading zeros",
 breaks="numbers are compared as text, so the longer and bigger number can sort first",
 demo=IMP("testing")+'''
func TestZZDemo(t *testing.T) {
	if got := Vercmp("1.20241118123456789012", "1.9"); got != 1 {
		t.Fatal(got)
	}
	if got := Vercmp("1.9", "1.20241118123456789012"); got != -1 {
		t.Fatal(got)
	}
}
'''),
dict(id="c06-reserved-boundary", prop="C06", pkg=".", edits=[("writeheader.go","if needed+16 <= available {","if needed+16 < available {")],
 needs="a signature header that needs exactly 16 bytes less than the space it was read from, dumped with sameSize",
 breaks="padding could achieve the original size (an empty reserved-space tag fits) but the dump is 16 bytes shorter",
 demo=IMP("bytes","testing")+'''
func TestZZDemo(t *testing.T) {
	gen := zzGen(nil)
	tags := append(zzSig(gen, nil), zzBin(1008, nil))
	raw := zzJoin(zzLead(), zzHeader(true, tags...), gen)
	h, err := ReadHeader(bytes.NewReader(raw))
	if err != nil {
		t.Fatal(err)
	}
	blob, err := h.DumpSignatureHeader(true)
	if err != nil {
		t.Fatal(err)
	}
	if len(blob) != h.OriginalSignatureHeaderSize() {
		t.Fatalf("%d bytes for a header of %d", len(blob), h.OriginalSignatureHeaderSize())
	}
}
'''),
dict(id="c08-digest-prefix", prop="C08", pkg=".", edits=[("verify_digests.go",'''		if calculated != payloadValue {''','''		if n := min(len(payloadValue), payloadHasher.Size()); calculated[:n] != payloadValue[:n] {''')],
 needs="a payload whose digest agrees with the recorded one in the first half only",
 breaks="only half of the recorded payload digest is compared, so a payload that does not match it verifies",
 demo=IMP("bytes","crypto/sha256","encoding/hex","strings","testing")+'''
func TestZZDemo(t *testing.T) {
	payload := []byte("payload")
	s := sha256.Sum256(payload)
	wrong := hex.EncodeToString(s[:16]) + strings.Repeat("0", 32)
	gen := zzHeader(false, zzStr(1000, "pkg"), zzStrs(5092, wrong), zzU32(5093, 8))
	raw := zzJoin(zzLead(), zzHeader(true, zzSig(gen, payload)...), gen, payload)
	if _, _, err := Verify(bytes.NewReader(raw), nil); err == nil {
		t.Fatal("a payload that does not match its digest is accepted")
	}
	if _, _, err := Verify(bytes.NewReader(zzPkg(payload)), nil); err != nil {
		t.Fatal(err)
	}
}
'''),
]
