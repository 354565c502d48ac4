package main

import (
	"bytes"
	"crypto"
	"fmt"
	"slices"
	"sync"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"

	"github.com/sassoftware/go-rpmutils"
)

func withBlob(p *pkg, id int, blob []byte) *built {
	gen, gt := p.genHeader()
	tags := append(p.digestTags(gen), tBytes(id, blob))
	return assemble(p.lead, tags, p.sigOpt, &built{gen: gen, genTags: gt, payload: p.payload})
}

func sigData(b *built, id int) [][]byte {
	if id == sigPGP || id == sigGPG {
		return [][]byte{b.gen, b.payload}
	}
	return [][]byte{b.gen}
}

// rings to verify with, relative to the signer's entity
func ringsFor(e *openpgp.Entity) []openpgp.EntityList {
	var others openpgp.EntityList
	for _, n := range keyNames {
		if entities[n] != e {
			others = append(others, entities[n])
		}
	}
	first := append(openpgp.EntityList{e}, others...)
	last := append(append(openpgp.EntityList{}, others...), e)
	mid := append(append(append(openpgp.EntityList{}, others[:3]...), e), others[3:]...)
	return []openpgp.EntityList{{e}, first, last, mid, others, others[:1], {}, nil}
}

// publicOnly drops the private parts, and optionally the identities.
func publicOnly(e *openpgp.Entity, ids bool) *openpgp.Entity {
	n := &openpgp.Entity{PrimaryKey: e.PrimaryKey, Identities: map[string]*openpgp.Identity{}}
	if ids {
		n.Identities = e.Identities
	}
	for _, s := range e.Subkeys {
		s.PrivateKey = nil
		n.Subkeys = append(n.Subkeys, s)
	}
	return n
}

// moreSubpackets say nothing about who signed.
var moreSubpackets = [][]byte{
	subpkt(3, be(0, 4)), subpkt(3, be(1<<32-1, 4)), subpkt(4, []byte{1}), subpkt(7, []byte{1}),
	subpkt(20, append([]byte{0x80, 0, 0, 0, 0, 3, 0, 2}, "a@bcd"...)),
	subpkt(26, []byte("http://example.com/")), subpkt(28, []byte("someone else <a@b>")),
	subpkt(25, []byte{1}), subpkt(27, []byte{4}), subpkt(60, []byte("own")), subpkt(24, []byte("ks")), subpkt(31, make([]byte, 22)),
}

var fillerKeys openpgp.EntityList
var fillerOnce sync.Once

// fillers gives a new list of n distinct keys that sign nothing.
func fillers(n int) openpgp.EntityList {
	fillerOnce.Do(func() {
		for i := range 600 {
			e, err := openpgp.NewEntity(fmt.Sprint("Filler", i), "", "f@example.com", &packet.Config{Algorithm: packet.PubKeyAlgoEdDSA, Time: func() time.Time { return time.Unix(1500000000, 0) }})
			if err != nil {
				panic(err)
			}
			e.PrivateKey, e.Subkeys = nil, nil
			fillerKeys = append(fillerKeys, e)
		}
	})
	return append(openpgp.EntityList{}, fillerKeys[:n]...)
}

// variantEntity copies the signer's entity with other attributes.
func variantEntity(s signer, own, others, life, order, ids int, private bool) *openpgp.Entity {
	flags := func(sig *packet.Signature, k int) *packet.Signature {
		if sig == nil || k == 0 {
			return sig
		}
		k--
		c := *sig
		c.FlagsValid = k&1 != 0
		c.FlagSign, c.FlagEncryptCommunications, c.FlagEncryptStorage, c.FlagCertify = k&2 != 0, k&4 != 0, k&4 != 0, k&8 != 0
		c.FlagAuthenticate = k&16 != 0
		return &c
	}
	lived := func(sig *packet.Signature) *packet.Signature {
		if sig == nil || life == 0 {
			return sig
		}
		c := *sig
		v := []uint32{0, 1, 1<<32 - 1}[life-1]
		c.KeyLifetimeSecs = &v
		return &c
	}
	n := &openpgp.Entity{PrimaryKey: s.ent.PrimaryKey, Identities: map[string]*openpgp.Identity{}, Revocations: s.ent.Revocations}
	if private {
		n.PrivateKey = s.ent.PrivateKey
	}
	k := others
	if s.priv.KeyId == s.ent.PrimaryKey.KeyId {
		k = own
	}
	var first *openpgp.Identity
	for _, i := range s.ent.Identities {
		c := *i
		c.SelfSignature = lived(flags(i.SelfSignature, k))
		n.Identities[i.Name] = &c
		first = &c
	}
	switch ids {
	case 1:
		clear(n.Identities)
	case 2, 3, 4, 5:
		c := *first
		c.Name = "Second <second@example.com>"
		c.UserId = packet.NewUserId("Second", "", "second@example.com")
		if ids > 2 && c.SelfSignature != nil {
			a, b := *c.SelfSignature, *first.SelfSignature
			yes, no := true, false
			a.IsPrimaryId, b.IsPrimaryId = &yes, &no
			if ids == 4 {
				a.IsPrimaryId, b.IsPrimaryId = &no, &yes
			}
			if ids == 5 {
				a.IsPrimaryId, b.IsPrimaryId = nil, nil
				a.CreationTime = a.CreationTime.Add(1 << 32)
			}
			c.SelfSignature, first.SelfSignature = &a, &b
		}
		if c.SelfSignature != nil && ids == 2 {
			a := *c.SelfSignature
			a.CreationTime = a.CreationTime.Add(-1 << 32)
			c.SelfSignature = &a
		}
		n.Identities[c.Name] = &c
	}
	for _, sub := range s.ent.Subkeys {
		k := others
		if sub.PublicKey.KeyId == s.priv.KeyId {
			k = own
		}
		sub.Sig = lived(flags(sub.Sig, k))
		if !private {
			sub.PrivateKey = nil
		}
		n.Subkeys = append(n.Subkeys, sub)
	}
	if order&1 != 0 {
		slices.Reverse(n.Subkeys)
	}
	if order&2 != 0 {
		// more subkeys before its own
		var more []openpgp.Subkey
		for _, name := range []string{"sub", "rsasub"} {
			for _, sub := range entities[name].Subkeys {
				if entities[name] != s.ent {
					more = append(more, sub)
				}
			}
		}
		n.Subkeys = append(more, n.Subkeys...)
	}
	return n
}

func init() {
	register(&Prop{
		ID:          "C09",
		Bits32:      func(part string) bool { return part != "key-attributes" && part != "subpackets" },
		Assumptions: []string{"the keys of a keyring count whatever their flags and lifetime (revoked keys are not tried)", "where a signature's unhashed key ID contradicts its hashed fingerprint either may be reported as KeyId; Signer and KeyFingerprint must be the verified key's"},
		Parts: func(tier string) []*Part {
			budget := 2
			if tier == "thorough" {
				budget = 3
			}
			hashes := []crypto.Hash{crypto.SHA256, crypto.SHA1, crypto.SHA224, crypto.SHA384, crypto.SHA512}
			times := []uint32{1600000000, 1, 1<<31 + 5, 1<<32 - 1}
			p := c07pkg([]byte("the payload"), digSHA256)
			return []*Part{
				{
					Name: "attribution", Budget: budget,
					Desc: fmt.Sprintf("signatures by %d primary keys and subkeys x %d issuer forms x 4 slots, up to %d of: other hash (%d), creation time (%d), packet format; against 8 keyrings (alone, first, middle, last, absent, empty, nil)", len(signers), nIss, budget, len(hashes), len(times)),
					Run: func(x *X) {
						s := signers[x.Choose(len(signers))]
						id := sigTagIDs[x.Choose(4)]
						sp := sigSpec{key: s.priv, hash: hashes[x.Dev(len(hashes))], created: times[x.Dev(len(times))], newFmt: x.Dev(2) == 1, issuer: x.Choose(nIss)}
						b := p.build()
						b = withBlob(p, id, makeSig(sp, sigData(b, id)...))
						what := fmt.Sprintf("key %s in tag %d, issuer form %d, hash %v, time %d, new format %v", s.name, id, sp.issuer, sp.hash, sp.created, sp.newFmt)
						x.Logf("%s", what)
						for i, l := range ringsFor(s.ent) {
							checkVerify(x, b.raw, l, true, fmt.Sprintf("%s, keyring %d", what, i))
							x.State(x.prefix(), i)
						}
						for _, ids := range []bool{true, false} {
							checkVerify(x, b.raw, openpgp.EntityList{publicOnly(s.ent, ids)}, true, what+", public keyring")
						}
					},
				},
				{
					Name: "claims",
					Desc: "every pair of keys: signature by one naming the other as issuer, or naming one by fingerprint and the other by unhashed key ID, in each issuer form, against 8 keyrings",
					Run: func(x *X) {
						s := signers[x.Choose(len(signers))]
						o := signers[x.Choose(len(signers))]
						id := []int{sigRSA, sigPGP}[x.Choose(2)]
						sp := sigSpec{key: s.priv, hash: crypto.SHA256, created: 5, issuer: x.Choose(nIss + 1)}
						b := p.build()
						var blob []byte
						if sp.issuer == nIss {
							// contradicting: hashed fingerprint of the signer, unhashed key ID of the other
							sp.issuer = issBoth
							blob = makeSig(sp, sigData(b, id)...)
							own, oth := be(s.priv.KeyId, 8), be(o.priv.KeyId, 8)
							i := bytes.LastIndex(blob, append([]byte{9, 16}, own...))
							if i < 0 {
								panic("no issuer subpacket")
							}
							copy(blob[i+2:], oth)
						} else {
							sp.claim = &o.priv.PublicKey
							blob = makeSig(sp, sigData(b, id)...)
						}
						b = withBlob(p, id, blob)
						for i, l := range ringsFor(s.ent) {
							checkVerify(x, b.raw, l, true, fmt.Sprintf("signed by %s, claims %s (form %d), keyring %d", s.name, o.name, sp.issuer, i))
						}
						x.State(x.prefix())
						x.Logf("signed by %s claims %s", s.name, o.name)
					},
				},
				{
					Name: "several",
					Desc: "signatures in every subset of the four slots, each by one of 4 keys, against every subset of the 4 keys as keyring",
					Run: func(x *X) {
						names := []string{"eddsa", "sub.subkey1", "rsasub", "sub"}
						gen, gt := p.genHeader()
						tags := p.digestTags(gen)
						bb := &built{gen: gen, genTags: gt, payload: p.payload}
						for _, id := range sigTagIDs {
							if k := x.Choose(len(names) + 1); k > 0 {
								k--
								tags = append(tags, tBytes(id, cached(x, fmt.Sprint("sv", k, len(sigData(bb, id))), func() []byte {
									return makeSig(spec(names[k], k%5), sigData(bb, id)...)
								})))
							}
						}
						b := assemble(p.lead, tags, p.sigOpt, bb)
						for m := 0; m < 8; m++ {
							l := openpgp.EntityList{}
							for i, n := range []string{"rsasub", "eddsa", "sub"} {
								if m>>i&1 != 0 {
									l = append(l, entities[n])
								}
							}
							checkVerify(x, b.raw, l, true, fmt.Sprintf("slots %v keyring %d", x.cs, m))
						}
						checkVerify(x, b.raw, nil, true, fmt.Sprintf("slots %v without keyring", x.cs))
						x.State(x.prefix())
					},
				},
				{
					Name: "key-attributes", Budget: budget,
					Desc: fmt.Sprintf("signatures by %d keys, up to %d departures in the keyring: key flags (32 sets) of the issuing key, of the other keys of the entity, lifetime, order and number of subkeys, identities (none, one, two, which is the primary one), private parts or not: found all the same", len(signers), budget),
					Run: func(x *X) {
						s := signers[x.Choose(len(signers))]
						id := []int{sigRSA, sigPGP}[x.Choose(2)]
						sp := spec(s.name, []int{issKeyID, issBoth}[x.Choose(2)])
						b := withBlob(p, id, cached(x, fmt.Sprint("ka", s.name, id, sp.issuer), func() []byte {
							return makeSig(sp, sigData(p.build(), id)...)
						}))
						own, others := x.Dev(33), x.Dev(33)
						life := x.Dev(4)
						order := x.Dev(4)
						ids := x.Dev(6)
						private := x.Dev(2) == 0
						e := variantEntity(s, own, others, life, order, ids, private)
						what := fmt.Sprintf("key %s, flags %d, others' flags %d, lifetime %d, order %d, identities %d, private %v", s.name, own, others, life, order, ids, private)
						x.Logf("%s", what)
						for i, l := range []openpgp.EntityList{{e}, {entities["dsa"], e}, {e, entities["dsa"]}} {
							if s.name != "dsa" || i == 0 {
								checkVerify(x, b.raw, l, true, what)
							}
						}
						x.State(x.prefix())
					},
				},
				{
					Name: "large-keyrings",
					Desc: "keyrings of 1 to 40, 63 to 65, 127 to 129, 255 to 257 and 600 distinct keys or keys repeated, with the issuing key (4 keys and subkeys) at each position (in large ones first, in the middle, last or next to them), twice, or not at all",
					Run: func(x *X) {
						s := []signer{signerNamed("eddsa"), signerNamed("rsa"), signerNamed("sub.subkey1"), signerNamed("rsasub")}[x.Choose(4)]
						sizes := []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 600}
						n := 1 + x.Choose(40+len(sizes))
						pos := []int{0, 1, n / 2, n - 2, n - 1, -1}
						if n > 40 {
							n = sizes[n-41]
							pos = []int{0, 1, n / 2, n - 2, n - 1, -1}[x.Choose(6):][:1]
						} else {
							pos = []int{x.Choose(n+1) - 1}
						}
						twice := x.Bool()
						fill := fillers(n)
						if x.Bool() { // the same few again and again
							for i := range fill {
								fill[i] = fill[i%3]
							}
						}
						if pos[0] >= 0 && pos[0] < n {
							fill[pos[0]] = s.ent
						}
						if twice {
							fill = append(fill, s.ent)
						}
						b := p.build()
						b = withBlob(p, sigRSA, cached(x, "lk"+s.name, func() []byte { return makeSig(spec(s.name, issKeyID), sigData(p.build(), sigRSA)...) }))
						x.State(x.prefix())
						checkVerify(x, b.raw, fill, true, fmt.Sprintf("key %s at %d of a keyring of %d, twice %v", s.name, pos[0], n, twice))
					},
				},
				{
					Name: "subpackets", Budget: budget,
					Desc: fmt.Sprintf("signatures by %d keys in each issuer form, with up to %d of %d more subpackets (lifetime, notation, policy, signer's user ID, unknown, other issuer-like ones), hashed or not: attributed all the same", len(signers), budget, len(moreSubpackets)),
					Run: func(x *X) {
						s := signers[x.Choose(len(signers))]
						id := []int{sigRSA, sigPGP}[x.Choose(2)]
						sp := spec(s.name, x.Choose(nIss-1))
						for _, m := range moreSubpackets {
							switch x.Dev(3) {
							case 1:
								sp.hashed = append(sp.hashed, m...)
							case 2:
								sp.plain = append(sp.plain, m...)
							}
						}
						b := p.build()
						b = withBlob(p, id, makeSig(sp, sigData(b, id)...))
						what := fmt.Sprintf("key %s, issuer form %d, subpackets %x, %x", s.name, sp.issuer, sp.hashed, sp.plain)
						x.Logf("%s", what)
						for _, l := range []openpgp.EntityList{{s.ent}, ring("dsa"), {}, nil} {
							checkVerify(x, b.raw, l, true, what)
						}
						x.State(x.prefix())
					},
				},
				{
					Name: "malformed",
					Desc: "blobs that are not exactly one signature naming an issuer: empty, every truncation, 1..8 trailing bytes of 3 kinds, two packets, other packets, no issuer, v3; in each slot, with and without keyring: rejected",
					Run: func(x *X) {
						id := sigTagIDs[x.Choose(4)]
						b := p.build()
						good := makeSig(spec("eddsa", issBoth), sigData(b, id)...)
						other := makeSig(spec("sub", issKeyID), sigData(b, id)...)
						none := makeSig(spec("eddsa", issNone), sigData(b, id)...)
						var pub bytes.Buffer
						entities["eddsa"].PrimaryKey.Serialize(&pub)
						uid := wrapPacket(13, []byte("someone"), false)
						lit := wrapPacket(11, append([]byte{'b', 0, 0, 0, 0, 0}, good...), false)
						v3 := wrapPacket(2, []byte{3, 5, 0, 1, 2, 3, 4, 1, 2, 3, 4, 5, 6, 7, 8, 1, 8, 0, 0, 0, 1, 1}, false)
						fixed := [][]byte{
							{}, none, pub.Bytes(), uid, lit, v3,
							append(append([]byte{}, good...), good...), append(append([]byte{}, good...), other...), append(append([]byte{}, good...), uid...),
							append(append([]byte{}, uid...), good...), wrapPacket(2, nil, false), wrapPacket(2, []byte{4}, true), {0}, {0xff}, {0x80}, []byte("-----BEGIN PGP SIGNATURE-----"),
							append(append([]byte{}, none...), good...), append(append([]byte{}, good...), none...),
						}
						k := x.Choose(len(fixed) + len(good) + 24)
						var blob []byte
						switch {
						case k < len(fixed):
							blob = fixed[k]
						case k < len(fixed)+len(good):
							blob = good[:k-len(fixed)]
						default:
							k -= len(fixed) + len(good)
							blob = append(append([]byte{}, good...), bytes.Repeat([]byte{[]byte{0, 0xff, 0x88}[k/8]}, k%8+1)...)
						}
						raw := withBlob(p, id, blob).raw
						for _, l := range []openpgp.EntityList{ring("eddsa", "sub"), {}, nil} {
							x.Step()
							if h, s, err := rpmutils.Verify(bytes.NewReader(raw), l); err == nil || h != nil || s != nil {
								x.Fail("tag %d: blob %x is accepted (keyring of %d): %v", id, blob, len(l), s)
							}
							x.Validated()
						}
						x.State(x.prefix())
						x.Logf("%x", blob)
					},
				},
				{
					Name: "fields",
					Desc: "a valid signature with its version, type, key algorithm or hash algorithm byte set to every value, or any of its length bytes changed: never attributed wrongly, never a crash",
					Run: func(x *X) {
						id := []int{sigRSA, sigPGP}[x.Choose(2)]
						iss := x.Choose(nIss - 1)
						b := p.build()
						good := makeSig(spec("eddsa", iss), sigData(b, id)...)
						off := x.Choose(14)
						v := x.Choose(256)
						blob := append([]byte{}, good...)
						blob[off] = byte(v)
						raw := withBlob(p, id, blob).raw
						for _, l := range []openpgp.EntityList{ring("eddsa"), {}} {
							checkVerify(x, raw, l, false, fmt.Sprintf("byte %d set to %d", off, v))
						}
						// without a keyring it is only reported
						x.Step()
						h, s, err := rpmutils.Verify(bytes.NewReader(raw), nil)
						if (err == nil) != (h != nil) || err == nil && (len(s) != 1 || s[0].Signer != nil) {
							x.Fail("byte %d set to %d, no keyring: %v %v", off, v, s, err)
						}
						x.State(x.prefix())
					},
				},
			}
		},
	})
}

var _ packet.Packet
