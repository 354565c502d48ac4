package main

import (
	"bytes"
	"crypto"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"

	"github.com/sassoftware/go-rpmutils"
)

// refReport is what a signature should be reported as.
type refReport struct {
	headerOnly bool
	sig        *refSig
	ent        *openpgp.Entity
	key        *packet.PublicKey
}

// refVerify decides from the format alone what Verify must say. The reason is
// empty if verification has to succeed.
func refVerify(raw []byte, l openpgp.EntityList) (reports []refReport, reason string, missing []*refSig) {
	if len(raw) < 112 || !bytes.Equal(raw[:4], []byte{0xed, 0xab, 0xee, 0xdb}) {
		return nil, "no lead", nil
	}
	sh, err := parseHdr(raw[96:], true, false)
	if err != nil {
		return nil, err.Error(), nil
	}
	rest := raw[96+sh.end:]
	if len(rest) < 16 || !bytes.Equal(rest[:4], []byte{0x8e, 0xad, 0xe8, 1}) {
		return nil, "no general header", nil
	}
	n := uint64(binary.BigEndian.Uint32(rest[8:]))*16 + uint64(binary.BigEndian.Uint32(rest[12:])) + 16
	if n > uint64(len(rest)) {
		return nil, "truncated general header", nil
	}
	gen, payload := rest[:n], rest[n:]
	str := func(tag int) string {
		if t, ok := sh.get(tag); ok && t.isStr() && t.count > 0 {
			return t.strings()[0]
		}
		return ""
	}
	if d := str(sigSHA256); d != "" {
		if s := sha256.Sum256(gen); hex.EncodeToString(s[:]) != d {
			return nil, "header SHA-256", nil
		}
	} else if d := str(sigSHA1); d != "" {
		if s := sha1.Sum(gen); hex.EncodeToString(s[:]) != d {
			return nil, "header SHA-1", nil
		}
	}
	for _, id := range sigTagIDs {
		t, ok := sh.get(id)
		if !ok {
			continue
		}
		if t.typ != tBin {
			return nil, "signature type", nil
		}
		s, err := parseSig(t.data)
		if err != nil {
			return nil, "signature packet: " + err.Error(), nil
		}
		if !s.hasID && s.fp == nil {
			return nil, "no issuer", nil
		}
		r := refReport{headerOnly: id == sigRSA || id == sigDSA, sig: s}
		if l != nil {
			r.ent, r.key = s.findIssuer(l)
			if r.key == nil {
				missing = append(missing, s)
			} else {
				data := [][]byte{gen}
				if !r.headerOnly {
					data = append(data, payload)
				}
				if !s.valid(r.key, data...) {
					reason = "bad signature"
				}
			}
		}
		reports = append(reports, r)
	}
	if reason != "" {
		missing = nil
	} else if missing != nil {
		reason = "key not in the keyring"
	}
	gh, err := parseHdr(gen, false, false)
	if err != nil {
		return reports, "general header: " + err.Error(), nil
	}
	dig := func() string {
		d, ok := gh.get(tagPayDigest)
		a, ok2 := gh.get(tagPayAlgo)
		if ok && ok2 && d.isStr() && d.count > 0 && a.isInt() && a.count > 0 {
			if h := pgpHash[int(a.uints()[0])]; h != 0 {
				hh := h.New()
				hh.Write(payload)
				if hex.EncodeToString(hh.Sum(nil)) != d.strings()[0] {
					return "payload digest"
				}
				return ""
			}
		}
		if m, ok := sh.get(sigMD5); ok && m.typ == tBin && len(m.data) > 0 {
			hh := md5.New()
			hh.Write(gen)
			hh.Write(payload)
			if !bytes.Equal(hh.Sum(nil), m.data) {
				return "MD5"
			}
			return ""
		}
		return "no payload digest"
	}()
	if dig != "" {
		reason, missing = dig, nil
	}
	return
}

// checkVerify compares Verify with the reference. exact requires success where
// the reference sees nothing wrong.
func checkVerify(x *X, raw []byte, l openpgp.EntityList, exact bool, what string) {
	x.Step()
	h, sigs, err := rpmutils.Verify(bytes.NewReader(raw), l)
	want, reason, missing := refVerify(raw, l)
	x.Outcome(reason, err == nil)
	if err != nil {
		if h != nil || sigs != nil {
			x.Fail("%s: results are returned along with the error %v", what, err)
		}
		if exact && reason == "" {
			x.Fail("%s: Verify fails though everything is in order: %v", what, err)
		}
		if exact && missing != nil {
			var knf rpmutils.KeyNotFoundError
			if !errors.As(err, &knf) {
				x.Fail("%s: error %v (%T), want KeyNotFoundError", what, err, err)
			}
			named := false
			for _, m := range missing {
				if m.hasID && knf.KeyID == m.keyid || m.fp != nil && bytes.Equal(knf.Fingerprint, m.fp) {
					named = named || (m.fp == nil || bytes.Equal(knf.Fingerprint, m.fp)) && (!m.hasID || knf.KeyID == m.keyid || m.fp != nil && knf.KeyID == binary.BigEndian.Uint64(m.fp[12:]))
				}
			}
			if !named {
				x.Fail("%s: KeyNotFoundError names %x %x, which is no missing issuer", what, knf.KeyID, knf.Fingerprint)
			}
			if knf.Error() == "" {
				x.Fail("%s: empty message", what)
			}
		}
		x.Validated()
		return
	}
	if reason != "" {
		x.Fail("%s: Verify accepts the package: %s", what, reason)
	}
	if h == nil || len(sigs) != len(want) {
		x.Fail("%s: Verify reports %d signatures, the package has %d", what, len(sigs), len(want))
	}
	used := make([]bool, len(want))
next:
	for _, sg := range sigs {
		for i, w := range want {
			if used[i] || matchReport(sg, w, l != nil) != nil {
				continue
			}
			used[i] = true
			continue next
		}
		msg := "nothing"
		for i, w := range want {
			if !used[i] && w.headerOnly == sg.HeaderOnly {
				msg = fmt.Sprint(matchReport(sg, w, l != nil))
			}
		}
		x.Fail("%s: Verify reports a signature that the package does not have: %+v (%s)", what, *sg, msg)
	}
	x.Validated()
}

func matchReport(sg *rpmutils.Signature, w refReport, keyring bool) error {
	if sg.HeaderOnly != w.headerOnly {
		return fmt.Errorf("HeaderOnly is %v", sg.HeaderOnly)
	}
	if sg.Hash != w.sig.hash {
		return fmt.Errorf("hash is %v, recorded %v", sg.Hash, w.sig.hash)
	}
	if !sg.CreationTime.Equal(w.sig.created) {
		return fmt.Errorf("creation time is %v, recorded %v", sg.CreationTime, w.sig.created)
	}
	id := w.sig.keyid
	if w.sig.hasID && sg.KeyId != id && (w.sig.fp == nil || sg.KeyId != binary.BigEndian.Uint64(w.sig.fp[12:])) {
		return fmt.Errorf("key ID is %x, recorded %x", sg.KeyId, id)
	}
	if w.sig.fp != nil && !bytes.Equal(sg.KeyFingerprint, w.sig.fp) {
		return fmt.Errorf("fingerprint is %x, recorded %x", sg.KeyFingerprint, w.sig.fp)
	}
	if !keyring {
		if sg.Signer != nil || sg.PrimaryName != "" {
			return fmt.Errorf("signer %v asserted without keyring", sg.PrimaryName)
		}
		return nil
	}
	if sg.Signer != w.ent {
		return fmt.Errorf("wrong signer")
	}
	if sg.KeyId != w.key.KeyId && sg.KeyId != id || !bytes.Equal(sg.KeyFingerprint, w.key.Fingerprint) {
		return fmt.Errorf("key is %x %x, the signature is by %x %x", sg.KeyId, sg.KeyFingerprint, w.key.KeyId, w.key.Fingerprint)
	}
	name := ""
	if i := w.ent.PrimaryIdentity(); i != nil {
		name = i.Name
	}
	if sg.PrimaryName != name {
		return fmt.Errorf("primary name is %q, want %q", sg.PrimaryName, name)
	}
	return nil
}

// signedPkg makes a package with signatures in some of the slots.
type slot struct {
	tag  int
	spec sigSpec
}

func (p *pkg) signed(slots ...slot) *built {
	gen, gt := p.genHeader()
	b := &built{gen: gen, genTags: gt, payload: p.payload}
	tags := append(append([]tagv{}, p.sig...), p.digestTags(gen)...)
	for _, s := range slots {
		data := [][]byte{gen}
		if s.tag == sigPGP || s.tag == sigGPG {
			data = append(data, p.payload)
		}
		tags = append(tags, tBytes(s.tag, makeSig(s.spec, data...)))
	}
	return assemble(p.lead, tags, p.sigOpt, b)
}

func spec(name string, iss int) sigSpec {
	return sigSpec{key: signerNamed(name).priv, hash: crypto.SHA256, created: 1600000000, issuer: iss}
}

// refresh recomputes unsigned digests of the signature header.
func refresh(sig []tagv, gen, payload []byte, which int) []tagv {
	var out []tagv
	for _, t := range sig {
		switch {
		case t.tag == sigSHA1 && which&1 != 0:
			s := sha1.Sum(gen)
			t = tStr(sigSHA1, hex.EncodeToString(s[:]))
		case t.tag == sigSHA256 && which&2 != 0:
			s := sha256.Sum256(gen)
			t = tStr(sigSHA256, hex.EncodeToString(s[:]))
		case t.tag == sigMD5 && which&4 != 0:
			s := md5.New()
			s.Write(gen)
			s.Write(payload)
			t = tBytes(sigMD5, s.Sum(nil))
		case (t.tag == sigSHA1 || t.tag == sigSHA256) && which&8 != 0:
			continue // digests dropped
		}
		out = append(out, t)
	}
	return out
}

func c08bases() (out []*built) {
	// key "eddsa" is trusted
	for _, dig := range []int{digSHA256, digLegacy, digSHA1Only} {
		for _, slots := range [][]slot{
			{{sigRSA, spec("eddsa", issKeyID)}, {sigPGP, spec("eddsa", issKeyID)}},
			{{sigRSA, spec("eddsa", issFP)}},
			{{sigPGP, spec("eddsa", issBoth)}},
			{{sigDSA, spec("sub", issBoth)}, {sigGPG, spec("sub", issBoth)}},
			{{sigGPG, spec("sub", issKeyID)}},
		} {
			p := c07pkg([]byte("the payload"), dig)
			out = append(out, p.signed(slots...))
		}
	}
	return
}

func init() {
	register(&Prop{
		ID:          "C08",
		Bits32:      func(string) bool { return true },
		Assumptions: []string{"the reference verifier uses the standard library's RSA, DSA and hash functions and go-crypto's EdDSA and ECDSA primitives"},
		Parts: func(tier string) []*Part {
			thorough := tier == "thorough"
			bases := c08bases()
			trusted := ring("sub", "eddsa")
			recomputes := []int{0, 7, 8, 12}
			if thorough {
				recomputes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 12}
			}
			return []*Part{
				{
					Name: "bit-flips",
					Desc: fmt.Sprintf("%d signed packages (signature slots, digest kinds, issuer forms) x every bit of general header and payload x unsigned digests left, recomputed or dropped (%d ways): refused whenever signed bytes changed", len(bases), len(recomputes)),
					Run: func(x *X) {
						bi := x.Choose(len(bases))
						b := bases[bi]
						region := append(append([]byte{}, b.gen...), b.payload...)
						k := x.Choose(len(region))
						x.State(bi, k)
						for bit := 0; bit < 8; bit++ {
							for _, which := range recomputes {
								nr := append([]byte{}, region...)
								nr[k] ^= 1 << bit
								gen, payload := nr[:len(b.gen)], nr[len(b.gen):]
								nb := assemble(b.raw[:96], refresh(b.sigTags, gen, payload, which), hdrOpt{region: sigRegion, sig: true}, &built{gen: gen, payload: payload})
								checkVerify(x, nb.raw, trusted, false, fmt.Sprintf("base %d, bit %d of byte %d flipped, recompute %d", bi, bit, k, which))
							}
						}
						x.Logf("base %d byte %d", bi, k)
					},
				},
				{
					Name: "resize",
					Desc: "each signed package with its payload cut at every byte or extended by 1..8 bytes, or a byte deleted or duplicated anywhere in header and payload, digests left, recomputed or dropped",
					Run: func(x *X) {
						bi := x.Choose(len(bases))
						b := bases[bi]
						region := append(append([]byte{}, b.gen...), b.payload...)
						var nr []byte
						genLen := len(b.gen)
						op := x.Choose(4)
						switch op {
						case 0:
							nr = region[:genLen+x.Choose(len(b.payload))]
						case 1:
							nr = append(append([]byte{}, region...), make([]byte, 1+x.Choose(8))...)
						case 2:
							k := x.Choose(len(region))
							nr = append(append([]byte{}, region[:k]...), region[k+1:]...)
							if k < genLen {
								genLen--
							}
						case 3:
							k := x.Choose(len(region))
							nr = append(append(append([]byte{}, region[:k]...), region[k]), region[k:]...)
							if k < genLen {
								genLen++
							}
						}
						for _, which := range recomputes {
							gen, payload := nr[:genLen], nr[genLen:]
							nb := assemble(b.raw[:96], refresh(b.sigTags, gen, payload, which), hdrOpt{region: sigRegion, sig: true}, &built{gen: gen, payload: payload})
							checkVerify(x, nb.raw, trusted, false, fmt.Sprintf("base %d resized (%d), recompute %d", bi, op, which))
						}
						x.State(x.prefix())
					},
				},
				{
					Name: "payload-digest",
					Desc: "payload replaced and the payload digest inside the general header recomputed too, general header of another package, all recombinations of lead, signature header, general header and payload of 3 packages, digests left, recomputed or dropped",
					Run: func(x *X) {
						var ps []*built
						for i := 0; i < 3; i++ {
							p := c07pkg([]byte(fmt.Sprintf("payload %d", i)), []int{digSHA256, digSHA256, digLegacy}[i])
							p.gen[0] = tStr(1000, fmt.Sprintf("pkg%d", i))
							ps = append(ps, p.signed(slot{sigRSA, spec("eddsa", issBoth)}, slot{sigPGP, spec("eddsa", issBoth)}))
						}
						s, g, pl := x.Choose(3), x.Choose(4), x.Choose(3)
						gen := ps[g%3].gen
						if g == 3 { // a general header that fits the payload
							p := c07pkg(ps[pl].payload, digSHA256)
							gen, _ = p.genHeader()
						}
						which := x.Choose(16)
						nb := assemble(ps[x.Choose(2)].raw[:96], refresh(ps[s].sigTags, gen, ps[pl].payload, which), hdrOpt{region: sigRegion, sig: true}, &built{gen: gen, payload: ps[pl].payload})
						for _, l := range []openpgp.EntityList{trusted, nil} {
							checkVerify(x, nb.raw, l, true, fmt.Sprintf("signatures of %d, header of %d, payload of %d, recompute %d", s, g, pl, which))
						}
						x.State(x.prefix())
						x.Logf("sig %d gen %d payload %d recompute %d", s, g, pl, which)
					},
				},
				{
					Name: "slots",
					Desc: "each of the 4 signature slots holds nothing or one of 9 blobs (header-only or header-and-payload signature of this package by the trusted key, by its subkey, by another known key or an unknown key, of another package; garbage; another type), against 5 keyrings",
					Run: func(x *X) {
						p := c07pkg([]byte("the payload"), digSHA256)
						gen, gt := p.genHeader()
						blobs := c08blobs(x, gen, p.payload)
						tags := p.digestTags(gen)
						for _, id := range sigTagIDs {
							k := x.Choose(len(blobs) + 2)
							switch {
							case k == 0:
							case k == len(blobs)+1:
								tags = append(tags, tStr(id, "text"))
							default:
								tags = append(tags, tBytes(id, blobs[k-1]))
							}
						}
						b := assemble(p.lead, tags, hdrOpt{region: sigRegion, sig: true}, &built{gen: gen, genTags: gt, payload: p.payload})
						for i, l := range []openpgp.EntityList{ring("sub"), ring("eddsa", "sub"), ring("eddsa"), {}, nil} {
							checkVerify(x, b.raw, l, true, fmt.Sprintf("slots %v, keyring %d", x.cs, i))
						}
						x.State(x.prefix())
						x.Logf("%v", x.cs)
					},
				},
				{
					Name: "signature-bits",
					Desc: "every bit of every signature packet flipped and every truncation of it, EdDSA, RSA, ECDSA and DSA keys, header-only and header-and-payload",
					Run: func(x *X) {
						name := []string{"eddsa", "rsa", "ecdsa", "dsa"}[x.Choose(4)]
						id := sigTagIDs[x.Choose(4)]
						iss := x.Choose(nIss - 1)
						p := c07pkg([]byte("the payload"), digSHA256)
						b := cached(x, fmt.Sprint("sb", name, id, iss), func() *built { return p.signed(slot{id, spec(name, iss)}) })
						var blob []byte
						for _, t := range b.sigTags {
							if t.tag == id {
								blob = t.data
							}
						}
						k := x.Choose(len(blob))
						x.State(name, id, iss, k)
						try := func(nb []byte, what string) {
							var ts []tagv
							for _, t := range b.sigTags {
								if t.tag == id {
									t = tBytes(id, nb)
								}
								ts = append(ts, t)
							}
							a := assemble(p.lead, ts, hdrOpt{region: sigRegion, sig: true}, &built{gen: b.gen, payload: b.payload})
							checkVerify(x, a.raw, ring(name), false, fmt.Sprintf("%s %d: %s", name, id, what))
						}
						for bit := 0; bit < 8; bit++ {
							nb := append([]byte{}, blob...)
							nb[k] ^= 1 << bit
							try(nb, fmt.Sprintf("bit %d of byte %d flipped", bit, k))
						}
						try(blob[:k], fmt.Sprintf("cut at %d", k))
					},
				},
				{
					Name: "header-digest",
					Desc: "reading alone (ReadHeader, ReadRpm, Verify without keyring): every bit of the general header flipped in packages recording SHA-256 and SHA-1, SHA-1 only: refused",
					Run: func(x *X) {
						dig := []int{digSHA256, digSHA1Only, digLegacy}[x.Choose(3)]
						p := c07pkg([]byte("the payload"), dig)
						if dig == digSHA256 && x.Bool() {
							p.noSHA1 = true
						}
						b := p.build()
						k := x.Choose(len(b.gen))
						for bit := 0; bit < 8; bit++ {
							raw := append([]byte{}, b.raw...)
							raw[b.sigEnd+k] ^= 1 << bit
							for fn := 0; fn < 2; fn++ {
								if h, err := c03read(x, fn, bytes.NewReader(raw)); err == nil || h != nil {
									x.Fail("digests %d: bit %d of header byte %d flipped and the header is accepted", dig, bit, k)
								}
							}
							x.Step()
							if h, s, err := rpmutils.Verify(bytes.NewReader(raw), nil); err == nil || h != nil || s != nil {
								x.Fail("digests %d: bit %d of header byte %d flipped and Verify accepts", dig, bit, k)
							}
							x.Validated()
						}
						x.State(x.prefix())
					},
				},
				{
					Name: "recorded-digests",
					Desc: "the record is wrong instead of the data: each character of the recorded SHA-256, SHA-1, payload digest (MD5, SHA-1, SHA-224..512, inside a validly signed general header) and legacy MD5 changed, and every truncation and extension of the record; with and without valid signatures",
					Run: func(x *X) {
						kind := x.Choose(3 + len(payAlgos))
						signed := x.Bool()
						p := c07pkg([]byte("the payload"), digSHA256)
						var dig []byte
						var n int
						payHash := func(id int) string {
							h := pgpHash[id].New()
							h.Write(p.payload)
							return hex.EncodeToString(h.Sum(nil))
						}
						switch {
						case kind == 0:
							p.noSHA1 = x.Bool()
							n = 64
						case kind == 1:
							p.noSHA256 = true
							n = 40
						case kind == 2:
							p.setDigests(digLegacy)
							n = 16
						default:
							n = len(payHash(payAlgos[kind-3]))
						}
						op := x.Choose(4)
						k := x.Choose(n)
						alter := func(d []byte, text bool) []byte {
							d = append([]byte{}, d...)
							switch op {
							case 0: // another digit
								if text {
									d[k] = "0123456789abcdef"[(bytes.IndexByte([]byte("0123456789abcdef"), d[k])+1)%16]
								} else {
									d[k] ^= 1
								}
							case 1:
								d = d[:k]
							case 2:
								d = append(d[:k], d[k+1:]...)
							case 3:
								d = append(append(append([]byte{}, d[:k]...), '0'), d[k:]...)
							}
							return d
						}
						if kind >= 3 {
							p.noPayDigest = true
							p.gen = append(p.gen, tStrs(tagPayDigest, tStrArray, string(alter([]byte(payHash(payAlgos[kind-3])), true))), tU32(tagPayAlgo, uint32(payAlgos[kind-3])))
						}
						gen, gt := p.genHeader()
						tags := p.digestTags(gen)
						for i, t := range tags {
							switch {
							case kind == 0 && t.tag == sigSHA256 || kind == 1 && t.tag == sigSHA1:
								dig = alter(t.data[:len(t.data)-1], true)
								tags[i] = tStr(t.tag, string(dig))
							case kind == 2 && t.tag == sigMD5:
								tags[i] = tBytes(t.tag, alter(t.data, false))
							}
						}
						if signed {
							blobs := cached(x, "rd"+string(gen), func() [][]byte {
								return [][]byte{makeSig(spec("eddsa", issBoth), gen), makeSig(spec("eddsa", issBoth), gen, p.payload)}
							})
							tags = append(tags, tBytes(sigRSA, blobs[0]), tBytes(sigPGP, blobs[1]))
						}
						b := assemble(p.lead, tags, hdrOpt{region: sigRegion, sig: true}, &built{gen: gen, genTags: gt, payload: p.payload})
						x.State(x.prefix())
						what := fmt.Sprintf("record %d altered (%d at %d), signed %v", kind, op, k, signed)
						x.Logf("%s", what)
						checkVerify(x, b.raw, trusted, true, what)
						checkVerify(x, b.raw, nil, true, what)
						if kind < 2 && len(dig) > 0 {
							for fn := 0; fn < 2; fn++ {
								if h, err := c03read(x, fn, bytes.NewReader(b.raw)); err == nil || h != nil {
									x.Fail("%s: the header is accepted though its digest is recorded as %q", what, dig)
								}
							}
							x.Step()
							if _, err := rpmutils.SignRpmStream(bytes.NewReader(b.raw), signerNamed("eddsa").priv, nil); err == nil {
								x.Fail("%s: the package is signed", what)
							}
						}
					},
				},
				{
					Name: "stream-end",
					Desc: "each signed package ending or failing at every byte, error with or after the last bytes: never verified",
					Run: func(x *X) {
						b := bases[x.Choose(len(bases))]
						k := x.Choose(len(b.raw) + 1)
						c := &chunkReader{data: b.raw, failAt: k, withEOF: x.Bool()}
						if x.Bool() {
							c.err = errInjected
						} else if k == len(b.raw) {
							return
						}
						for _, l := range []openpgp.EntityList{trusted, nil} {
							c.pos = 0
							x.Step()
							if h, s, err := rpmutils.Verify(c, l); err == nil || h != nil || s != nil {
								// a legacy package's payload cannot be checked beyond its digest
								x.Fail("ends at %d of %d and verifies", k, len(b.raw))
							}
							x.Validated()
						}
						x.State(x.prefix())
					},
				},
			}
		},
	})
}

var payAlgos = []int{1, 2, 8, 9, 10, 11}

func cached[T any](x *X, key string, mk func() T) T {
	if v, ok := x.w.mem[key]; ok {
		return v.(T)
	}
	v := mk()
	x.w.mem[key] = v
	return v
}

// c08blobs are signatures to put into slots; "sub" is the trusted entity.
func c08blobs(x *X, gen, payload []byte) [][]byte {
	return cached(x, "c08blobs", func() [][]byte {
		s := spec("sub", issBoth)
		sk := spec("sub.subkey0", issKeyID)
		if signers[len(signers)-2].name == "" {
			panic("signers")
		}
		o := spec("eddsa", issFP)
		u := spec("ecdsa", issBoth)
		return [][]byte{
			makeSig(s, gen),
			makeSig(s, gen, payload),
			makeSig(sk, gen),
			makeSig(sk, gen, payload),
			makeSig(s, gen, []byte("another payload")),
			makeSig(o, gen, payload),
			makeSig(u, gen, payload),
			{0x88, 0},
		}
	})
}
