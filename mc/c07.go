package main

import (
	"bytes"
	"crypto"
	"crypto/md5"
	"crypto/rsa"
	"encoding/hex"
	"errors"
	"fmt"
	"hash"
	"io"
	"strings"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp/packet"

	"github.com/sassoftware/go-rpmutils"
)

var sigTagIDs = []int{sigRSA, sigDSA, sigPGP, sigGPG}

// digest kinds a package can record
const (
	digSHA256   = iota // payload digest SHA-256, header SHA-1, SHA-256, MD5
	digSHA512          // payload digest SHA-512
	digMD5Pay          // payload digest MD5
	digLegacy          // no payload digest: header SHA-1 and MD5 of header and payload
	digMD5Only         // only the MD5
	digNoHeader        // payload digest, no header digests
	digSHA1Only        // payload digest and header SHA-1 only
	digUnknown         // payload digest of an unknown algorithm, legacy MD5
	digSHA224          // payload digest SHA-224
	digSHA384          // payload digest SHA-384
	digSHA1Pay         // payload digest SHA-1
	digTwo             // two values, of the payload and of the uncompressed payload, and two algorithms
	nDig
)

func payloadDigestTags(algo uint32, h hash.Hash, payload []byte) []tagv {
	h.Write(payload)
	return []tagv{tStrs(tagPayDigest, tStrArray, hex.EncodeToString(h.Sum(nil))), tU32(tagPayAlgo, algo)}
}

// setDigests makes p record its integrity in one of the ways above.
func (p *pkg) setDigests(kind int) {
	p.noPayDigest = true
	switch kind {
	case digSHA256:
		p.noPayDigest = false
	case digSHA512:
		p.gen = append(p.gen, payloadDigestTags(10, crypto.SHA512.New(), p.payload)...)
	case digMD5Pay:
		p.gen = append(p.gen, payloadDigestTags(1, md5.New(), p.payload)...)
	case digSHA1Pay:
		p.gen = append(p.gen, payloadDigestTags(2, crypto.SHA1.New(), p.payload)...)
	case digTwo:
		one := payloadDigestTags(8, crypto.SHA256.New(), p.payload)
		p.gen = append(p.gen, tStrs(tagPayDigest, tStrArray, string(one[0].data[:64]), strings.Repeat("ab", 32)), tU32(tagPayAlgo, 8, 10))
	case digSHA224:
		p.gen = append(p.gen, payloadDigestTags(11, crypto.SHA224.New(), p.payload)...)
	case digSHA384:
		p.gen = append(p.gen, payloadDigestTags(9, crypto.SHA384.New(), p.payload)...)
	case digLegacy:
		p.noSHA256 = true
	case digMD5Only:
		p.noSHA256, p.noSHA1 = true, true
	case digNoHeader:
		p.noPayDigest = false
		p.noSHA256, p.noSHA1, p.noMD5 = true, true, true
	case digSHA1Only:
		p.noPayDigest = false
		p.noSHA256, p.noMD5 = true, true
	case digUnknown:
		p.gen = append(p.gen, tStrs(tagPayDigest, tStrArray, "00"), tU32(tagPayAlgo, 99))
	}
}

// oldSigs gives signature tags a package may already carry.
func oldSigs(kind int) []tagv {
	blob := bytes.Repeat([]byte{0x89, 0, 1, 2}, 70)
	switch kind {
	case 1:
		return []tagv{tBytes(sigRSA, blob), tBytes(sigPGP, blob)}
	case 2:
		return []tagv{tBytes(sigDSA, blob[:72]), tBytes(sigGPG, blob[:72])}
	case 3:
		return []tagv{tBytes(sigRSA, blob), tBytes(sigPGP, blob[:1]), tBytes(sigDSA, nil), tBytes(sigGPG, blob)}
	case 4: // not even of the right type
		return []tagv{tStr(sigRSA, "x"), tU32(sigGPG, 4)}
	}
	return nil
}

// checkSigned verifies the result of signing b, and returns the signed package
// for each of the two dump modes.
func checkSigned(x *X, b *built, h *rpmutils.RpmHeader, s signer, wantHash crypto.Hash, from, to time.Time, what string) [2][]byte {
	var out [2][]byte
	lead := b.raw[:96]
	for i, same := range []bool{true, false} {
		x.Step()
		d, err := h.DumpSignatureHeader(same)
		if err != nil {
			x.Fail("%s: DumpSignatureHeader(%v): %v", what, same, err)
		}
		out[i] = checkSignedHeader(x, b, lead, d, same, s, wantHash, from, to, what)
	}
	return out
}

func checkSignedHeader(x *X, b *built, lead, d []byte, same bool, s signer, wantHash crypto.Hash, from, to time.Time, what string) []byte {
	if len(d) < 96 {
		x.Fail("%s: short header", what)
	}
	p, err := parseHdr(d[96:], true, true)
	if err != nil {
		x.Fail("%s: signature header is not well-formed: %v", what, err)
	}
	var want []tagv
	for _, t := range b.sigTags {
		if t.tag != sigRSA && t.tag != sigDSA && t.tag != sigPGP && t.tag != sigGPG {
			want = append(want, t)
		}
	}
	for _, id := range []int{sigRSA, sigPGP} {
		t, ok := p.get(id)
		if !ok || t.typ != tBin {
			x.Fail("%s: signature tag %d is missing", what, id)
		}
		rs, err := parseSig(t.data)
		if err != nil {
			x.Fail("%s: signature %d: %v", what, id, err)
		}
		data := [][]byte{b.gen}
		if id == sigPGP {
			data = append(data, b.payload)
		}
		if !rs.valid(&s.priv.PublicKey, data...) {
			x.Fail("%s: the signature in tag %d is not valid over what it has to cover", what, id)
		}
		want = append(want, t)
	}
	checkDump(x, b.raw, b.sigEnd, lead, want, d, same, what)
	spliced := append(append([]byte{}, d...), b.raw[b.sigEnd:]...)
	checkVerified(x, spliced, s, wantHash, from, to, what)
	return spliced
}

// checkVerified has Verify confirm both signatures.
func checkVerified(x *X, raw []byte, s signer, wantHash crypto.Hash, from, to time.Time, what string) {
	for _, k := range []bool{true, false} {
		l := ring("dsa")
		l = append(l, s.ent)
		if !k {
			l = nil
		}
		x.Step()
		vh, sigs, err := rpmutils.Verify(bytes.NewReader(raw), l)
		if err != nil {
			x.Fail("%s: Verify (keyring %v): %v", what, k, err)
		}
		if vh == nil || len(sigs) != 2 || sigs[0].HeaderOnly == sigs[1].HeaderOnly {
			x.Fail("%s: Verify reports %d signatures: %+v", what, len(sigs), sigs)
		}
		for _, sg := range sigs {
			if sg.Hash != wantHash {
				x.Fail("%s: signed with %v, want %v", what, sg.Hash, wantHash)
			}
			if sg.CreationTime.Before(from) || sg.CreationTime.After(to) {
				x.Fail("%s: creation time %v, want %v..%v", what, sg.CreationTime, from, to)
			}
			if sg.KeyId != s.priv.KeyId {
				x.Fail("%s: key ID %x, want %x", what, sg.KeyId, s.priv.KeyId)
			}
			if k && (sg.Signer != s.ent || !bytes.Equal(sg.KeyFingerprint, s.priv.Fingerprint)) {
				x.Fail("%s: attributed to %v, fingerprint %x", what, sg.Signer, sg.KeyFingerprint)
			}
			if !k && sg.Signer != nil {
				x.Fail("%s: a signer is asserted without a keyring", what)
			}
		}
	}
	x.Validated()
}

var fixedTime = time.Unix(1600000000, 0)

type failingSigner struct {
	crypto.Signer
	n, failAt int
}

func (f *failingSigner) Sign(rand io.Reader, digest []byte, opts crypto.SignerOpts) ([]byte, error) {
	f.n++
	if f.n-1 == f.failAt {
		return nil, errors.New("token removed")
	}
	return f.Signer.Sign(rand, digest, opts)
}

func c07pkg(payload []byte, dig int) *pkg {
	p := newPkg()
	p.payload = payload
	p.setDigests(dig)
	p.gen = append(p.gen, tU32(1009, 4), tStrs(1047, tStrArray, "a", "bc"))
	return p
}

func init() {
	hashes := []crypto.Hash{0, crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA224, crypto.SHA1, crypto.SHA3_256, crypto.SHA3_512}
	register(&Prop{
		ID:          "C07",
		Bits32:      func(string) bool { return true },
		Assumptions: []string{"the signing library decides whether it makes SHA-1 and SHA-3 signatures: an error is accepted for those"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			return []*Part{
				{
					Name: "options",
					Desc: fmt.Sprintf("%d signing keys (RSA, EdDSA, ECDSA, DSA, primary keys and subkeys) x options nil or hash (unset, SHA-1, SHA-224..512, SHA-3) x creation time (unset, set) x 5 kinds of earlier signatures x reserved space (none, 32, 2000 bytes)", len(signers)),
					Run: func(x *X) {
						s := signers[x.Choose(len(signers))]
						k := x.Choose(2*len(hashes) + 1)
						var opts *rpmutils.SignatureOptions
						wantHash := crypto.SHA256
						from, to := fixedTime, fixedTime
						if k > 0 {
							opts = &rpmutils.SignatureOptions{Hash: hashes[(k-1)/2]}
							if opts.Hash != 0 {
								wantHash = opts.Hash
							}
							if k%2 == 0 {
								opts.CreationTime = fixedTime
							}
						}
						old := x.Choose(5)
						p := c07pkg([]byte("the payload"), digSHA256)
						p.sig = oldSigs(old)
						if r := x.Choose(3); r > 0 {
							p.sig = append(p.sig, tBytes(sigReserved, make([]byte, []int{32, 2000}[r-1])))
						}
						b := p.build()
						what := fmt.Sprintf("key %s, options %+v, old signatures %d", s.name, opts, old)
						x.Logf("%s", what)
						in := append([]byte{}, b.raw...)
						rd := bytes.NewReader(in)
						x.Step()
						if opts == nil || opts.CreationTime.IsZero() {
							from = time.Now().Truncate(time.Second)
						}
						h, err := rpmutils.SignRpmStream(rd, s.priv, opts)
						if err != nil && h == nil && k > 0 && (k-1)/2 >= 5 {
							x.State(x.prefix()) // the signing library does not offer this one with this key
							return
						}
						if err != nil {
							x.Fail("%s: SignRpmStream: %v", what, err)
						}
						if opts == nil || opts.CreationTime.IsZero() {
							to = time.Now()
						}
						if rd.Len() != 0 {
							x.Fail("%s: %d bytes of the package were not read", what, rd.Len())
						}
						if opts != nil && (opts.Hash != hashes[(k-1)/2]) {
							x.Fail("%s: the caller's options were changed", what)
						}
						checkSigned(x, b, h, s, wantHash, from, to, what)
						if !bytes.Equal(in, b.raw) {
							x.Fail("%s: the input was changed", what)
						}
						x.State(x.prefix())
					},
				},
				{
					Name: "creation-times",
					Desc: "every signing key x creation times 1970-01-01 plus 0, 1, 2^31-1, 2^31, 2^32-1 seconds and with a fraction of a second, in UTC and another zone, x default and SHA-512 hash",
					Run: func(x *X) {
						s := signers[x.Choose(len(signers))]
						t := []time.Time{time.Unix(0, 0), time.Unix(1, 0), time.Unix(1<<31-1, 0), time.Unix(1<<31, 0), time.Unix(1<<32-1, 0), time.Unix(1600000000, 999999999), time.Unix(1600000000, 1)}[x.Choose(7)]
						sec := time.Unix(t.Unix(), 0)
						if x.Bool() {
							t = t.In(time.FixedZone("x", -9*3600))
						}
						opts := &rpmutils.SignatureOptions{CreationTime: t}
						wantHash := crypto.SHA256
						if x.Bool() {
							opts.Hash, wantHash = crypto.SHA512, crypto.SHA512
						}
						b := c07pkg([]byte("the payload"), digSHA256).build()
						what := fmt.Sprintf("key %s, options %+v", s.name, opts)
						x.Step()
						h, err := rpmutils.SignRpmStream(bytes.NewReader(b.raw), s.priv, opts)
						if err != nil {
							x.Fail("%s: SignRpmStream: %v", what, err)
						}
						checkSigned(x, b, h, s, wantHash, sec, sec, what)
						x.State(x.prefix())
					},
				},
				{
					Name: "shapes",
					Desc: fmt.Sprintf("EdDSA key; %d ways of recording digests x payloads of 0, 1, 31, 4096 and 70000 bytes x 5 ways the stream splits x with and without regions x source flag", nDig),
					Run: func(x *X) {
						s := signerNamed("eddsa")
						dig := x.Choose(nDig)
						n := []int{0, 1, 31, 4096, 70000}[x.Choose(5)]
						p := c07pkg(bytes.Repeat([]byte("xyz01"), n/5+1)[:n], dig)
						mode := x.Choose(nChunkModes)
						if x.Bool() {
							p.sigOpt.region, p.genOpt.region = 0, 0
							p.sigOpt.slack = 100
						}
						if x.Bool() {
							p.lead = buildLead("src", true)
						}
						b := p.build()
						what := fmt.Sprintf("digests %d, payload of %d bytes, chunking %d", dig, n, mode)
						x.Logf("%s", what)
						x.Step()
						h, err := rpmutils.SignRpmStream(newChunk(b.raw, mode), s.priv, &rpmutils.SignatureOptions{CreationTime: fixedTime})
						if err != nil {
							x.Fail("%s: SignRpmStream: %v", what, err)
						}
						if h.IsSource() != (b.raw[7] == 1) {
							x.Fail("%s: IsSource changed", what)
						}
						if r := h.GetRange(); r.Start != b.sigEnd || r.End != b.genEnd || h.OriginalSignatureHeaderSize() != b.sigEnd {
							x.Fail("%s: offsets of the original are %+v, want %d..%d", what, r, b.sigEnd, b.genEnd)
						}
						checkSigned(x, b, h, s, crypto.SHA256, fixedTime, fixedTime, what)
						x.State(x.prefix())
					},
				},
				{
					Name: "histories",
					Desc: "every sequence of 3 (thorough: 4) signings, each by one of 3 keys and stored with the original or the smallest header size, starting with and without reserved space",
					Run: func(x *X) {
						p := c07pkg([]byte("the payload"), digSHA256)
						if x.Bool() {
							p.sig = append(p.sig, tBytes(sigReserved, make([]byte, 300)))
						}
						b := p.build()
						n := 3
						if thorough {
							n = 4
						}
						for i := 0; i < n; i++ {
							s := signerNamed([]string{"eddsa", "sub", "rsa"}[x.Choose(3)])
							same := x.Choose(2)
							t := fixedTime.Add(time.Duration(i) * time.Second)
							what := fmt.Sprintf("signing %d by %s", i, s.name)
							x.Logf("%s, dump mode %d", what, same)
							x.Step()
							h, err := rpmutils.SignRpmStream(bytes.NewReader(b.raw), s.priv, &rpmutils.SignatureOptions{CreationTime: t})
							if err != nil {
								x.Fail("%s: %v", what, err)
							}
							raws := checkSigned(x, b, h, s, crypto.SHA256, t, t, what)
							ph, err := parseHdr(raws[same][96:], true, true)
							if err != nil {
								x.Fail("%s: %v", what, err)
							}
							nb := &built{raw: raws[same], gen: b.gen, payload: b.payload, sigTags: ph.tags, genTags: b.genTags}
							nb.sigEnd = 96 + ph.end
							nb.genEnd = nb.sigEnd + len(b.gen)
							b = nb
							x.State(x.prefix())
						}
					},
				},
				{
					Name: "corrupted-input",
					Desc: fmt.Sprintf("every bit of the general header and payload flipped, every truncation and 1..3 appended bytes, in packages recording digests in each of %d ways: refused", nDig),
					Run: func(x *X) {
						dig := x.Choose(nDig)
						p := c07pkg([]byte("the payload"), dig)
						b := p.build()
						s := signerNamed("eddsa")
						n := len(b.raw) - b.sigEnd
						k := x.Choose(n + 1)
						var bad [][]byte
						if k < n {
							for bit := 0; bit < 8; bit++ {
								raw := append([]byte{}, b.raw...)
								raw[b.sigEnd+k] ^= 1 << bit
								bad = append(bad, raw)
							}
							bad = append(bad, b.raw[:b.sigEnd+k])
						} else {
							for i := 1; i <= 3; i++ {
								bad = append(bad, append(append([]byte{}, b.raw...), make([]byte, i)...))
							}
						}
						for i, raw := range bad {
							if dig == digNoHeader && b.sigEnd+k < b.genEnd && k < n && i < 8 {
								continue // nothing records the header
							}
							x.Step()
							h, err := rpmutils.SignRpmStream(bytes.NewReader(raw), s.priv, nil)
							if err == nil || h != nil {
								x.Fail("digests %d: change %d at byte %d (header %d..%d of %d) is signed: %v", dig, i, b.sigEnd+k, b.sigEnd, b.genEnd, len(b.raw), err)
							}
							x.Validated()
						}
						x.State(dig, k)
					},
				},
				{
					Name: "wrong-digests",
					Desc: "each recorded digest that has to be checked (header SHA-256, or SHA-1 without it, payload digest, or MD5 without it) replaced: other value, shortened, cut to half or to the first character, lengthened",
					Run: func(x *X) {
						dig := x.Choose(nDig)
						p := c07pkg([]byte("the payload"), dig)
						mut := x.Choose(7)
						alter := func(t tagv) tagv {
							d := append([]byte{}, t.data...)
							switch mut {
							case 0:
								d[0] ^= 1
							case 1:
								d[len(d)-2] ^= 3
							case 2:
								d = append(d[:len(d)/2], 0)
							case 3:
								d = append(d[:len(d)-1], '0', 0)
							case 4, 5, 6: // the start of the right value, or more than it
								n, end := len(d), []byte{}
								if t.typ != tBin {
									n, end = n-1, []byte{0}
								}
								switch mut {
								case 4:
									d = append(d[:n/2:n/2], end...)
								case 5:
									d = append(d[:1:1], end...)
								case 6:
									d = append(d[:n:n], '0', '0')
									d = append(d, end...)
								}
							}
							t.data = d
							if t.typ == tBin {
								t.count = len(d)
							}
							return t
						}
						which := 0
						if x.Bool() {
							which = 1
						}
						var b *built
						if which == 0 { // in the signature header
							b = p.build()
							id := sigSHA256
							if dig == digLegacy || dig == digSHA1Only {
								id = sigSHA1
							}
							if dig == digNoHeader {
								return
							}
							if dig == digMD5Only || (dig == digUnknown || dig == digLegacy) && x.Bool() {
								id = sigMD5
							}
							var ts []tagv
							for _, t := range b.sigTags {
								if t.tag == id {
									t = alter(t)
								}
								ts = append(ts, t)
							}
							b = assemble(p.lead, ts, p.sigOpt, b)
						} else { // in the general header
							if dig == digLegacy || dig == digMD5Only || dig == digUnknown || dig == digTwo && mut != 0 {
								return // there is none, or the change is in the second value
							}
							_, gt := p.genHeader()
							p.noPayDigest = true
							var ts []tagv
							for _, t := range gt {
								if t.tag == tagPayDigest {
									t = alter(t)
								}
								ts = append(ts, t)
							}
							p.gen = ts
							b = p.build()
						}
						x.State(x.prefix())
						s := signerNamed("eddsa")
						x.StepN(2)
						if h, err := rpmutils.SignRpmStream(bytes.NewReader(b.raw), s.priv, nil); err == nil || h != nil {
							x.Fail("digests %d, alteration %d in header %d is signed", dig, mut, which)
						}
						if h, sg, err := rpmutils.Verify(bytes.NewReader(b.raw), nil); err == nil || h != nil || sg != nil {
							x.Fail("digests %d, alteration %d in header %d passes Verify", dig, mut, which)
						}
						x.Validated()
					},
				},
				{
					Name: "failures",
					Desc: "the stream fails at every byte, or the signing key fails at its first or second use; unsupported private key; refused with an error",
					Run: func(x *X) {
						p := c07pkg([]byte("the payload"), digSHA256)
						b := p.build()
						s := signerNamed("eddsa")
						k := x.Choose(len(b.raw) + 1 + 4)
						x.Step()
						switch {
						case k <= len(b.raw):
							c := &chunkReader{data: b.raw, failAt: k, err: errInjected, withEOF: x.Bool()}
							if h, err := rpmutils.SignRpmStream(c, s.priv, nil); err == nil || h != nil {
								x.Fail("stream failure at %d is ignored", k)
							}
						case k <= len(b.raw)+2:
							r := signerNamed("rsa")
							key := &packet.PrivateKey{PublicKey: r.priv.PublicKey, PrivateKey: &failingSigner{Signer: r.priv.PrivateKey.(*rsa.PrivateKey), failAt: k - len(b.raw) - 1}}
							if h, err := rpmutils.SignRpmStream(bytes.NewReader(b.raw), key, nil); err == nil || h != nil {
								x.Fail("failure of the key at use %d is ignored", k-len(b.raw)-1)
							}
						case k == len(b.raw)+3: // a token that works
							r := signerNamed("rsa")
							key := &packet.PrivateKey{PublicKey: r.priv.PublicKey, PrivateKey: &failingSigner{Signer: r.priv.PrivateKey.(*rsa.PrivateKey), failAt: -1}}
							h, err := rpmutils.SignRpmStream(bytes.NewReader(b.raw), key, &rpmutils.SignatureOptions{CreationTime: fixedTime})
							if err != nil {
								x.Fail("signing with an external key: %v", err)
							}
							checkSigned(x, b, h, r, crypto.SHA256, fixedTime, fixedTime, "external key")
						default: // encryption-only key
							for _, sub := range entities["sub"].Subkeys {
								if sub.PublicKey.PubKeyAlgo.CanSign() {
									continue
								}
								if h, err := rpmutils.SignRpmStream(bytes.NewReader(b.raw), sub.PrivateKey, nil); err == nil || h != nil {
									x.Fail("signing with an encryption key succeeds")
								}
							}
						}
						x.State(k)
						x.Validated()
					},
				},
			}
		},
	})
}
