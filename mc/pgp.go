package main

// Test keys and an independent OpenPGP v4 signature writer, parser and verifier.

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/rand"
	"crypto/rsa"
	"embed"
	"encoding/binary"
	"fmt"
	"math/big"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/ecdsa"
	"github.com/ProtonMail/go-crypto/openpgp/eddsa"
	"github.com/ProtonMail/go-crypto/openpgp/packet"

	_ "crypto/md5"
	_ "crypto/sha1"
	_ "crypto/sha256"
	_ "crypto/sha512"
)

//go:embed keys/*.asc
var keyFiles embed.FS

var keyNames = []string{"rsa", "eddsa", "ecdsa", "dsa", "sub", "rsasub", "rsa2"}

var entities = func() map[string]*openpgp.Entity {
	m := map[string]*openpgp.Entity{}
	for _, n := range keyNames {
		b, err := keyFiles.ReadFile("keys/" + n + ".asc")
		if err != nil {
			panic(err)
		}
		l, err := openpgp.ReadArmoredKeyRing(bytes.NewReader(b))
		if err != nil || len(l) != 1 {
			panic(fmt.Sprint(n, err))
		}
		m[n] = l[0]
	}
	return m
}()

func ring(names ...string) openpgp.EntityList {
	l := openpgp.EntityList{}
	for _, n := range names {
		l = append(l, entities[n])
	}
	return l
}

// signer is a key that can sign, with the entity that holds it.
type signer struct {
	name string
	ent  *openpgp.Entity
	priv *packet.PrivateKey
}

// signingSubkeys gives the subkeys meant for signing.
func signingSubkeys(e *openpgp.Entity) (out []*packet.PrivateKey) {
	for _, s := range e.Subkeys {
		if s.PublicKey.PubKeyAlgo.CanSign() {
			out = append(out, s.PrivateKey)
		}
	}
	return
}

var signers = func() (out []signer) {
	for _, n := range keyNames {
		e := entities[n]
		out = append(out, signer{n, e, e.PrivateKey})
	}
	for _, n := range []string{"sub", "rsasub"} {
		for i, k := range signingSubkeys(entities[n]) {
			if n == "rsasub" && i == 0 {
				// the first subkey of an RSA entity is for encryption, but RSA can sign
				if len(signingSubkeys(entities[n])) > 1 {
					continue
				}
			}
			out = append(out, signer{fmt.Sprintf("%s.subkey%d", n, i), entities[n], k})
		}
	}
	return
}()

func signerNamed(name string) signer {
	for _, s := range signers {
		if s.name == name {
			return s
		}
	}
	panic("no signer " + name)
}

var pgpHash = map[int]crypto.Hash{1: crypto.MD5, 2: crypto.SHA1, 8: crypto.SHA256, 9: crypto.SHA384, 10: crypto.SHA512, 11: crypto.SHA224, 12: crypto.SHA3_256, 14: crypto.SHA3_512}

func hashID(h crypto.Hash) int {
	for id, c := range pgpHash {
		if c == h {
			return id
		}
	}
	return 0
}

func subpkt(typ byte, data []byte) []byte {
	return append([]byte{byte(len(data) + 1), typ}, data...)
}

func mpi(b []byte) []byte {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	n := new(big.Int).SetBytes(b)
	return append(be(uint64(n.BitLen()), 2), b...)
}

// issuer forms
const (
	issKeyID       = iota // key ID, unhashed
	issKeyIDHashed        // key ID, hashed
	issFP                 // fingerprint, hashed
	issFPUnhashed         // fingerprint, unhashed
	issBoth               // fingerprint hashed, key ID unhashed
	issNone
	nIss
)

type sigSpec struct {
	key     *packet.PrivateKey
	hash    crypto.Hash
	created uint32
	issuer  int
	sigType byte
	newFmt  bool
	claim   *packet.PublicKey // issuer named, if not the key itself
	hashed  []byte            // more subpackets
	plain   []byte
}

func fpOf(pk *packet.PublicKey) []byte { return pk.Fingerprint }

// makeSig makes a detached v4 signature packet over data.
func makeSig(s sigSpec, data ...[]byte) []byte {
	pub := &s.key.PublicKey
	if s.claim != nil {
		pub = s.claim
	}
	hashed := subpkt(2, be(uint64(s.created), 4))
	hashed = append(hashed, s.hashed...)
	unhashed := append([]byte{}, s.plain...)
	id := subpkt(16, be(pub.KeyId, 8))
	fp := subpkt(33, append([]byte{4}, fpOf(pub)...))
	switch s.issuer {
	case issKeyID:
		unhashed = append(unhashed, id...)
	case issKeyIDHashed:
		hashed = append(hashed, id...)
	case issFP:
		hashed = append(hashed, fp...)
	case issFPUnhashed:
		unhashed = append(unhashed, fp...)
	case issBoth:
		hashed = append(hashed, fp...)
		unhashed = append(unhashed, id...)
	}
	head := []byte{4, s.sigType, byte(s.key.PubKeyAlgo), byte(hashID(s.hash))}
	head = append(head, be(uint64(len(hashed)), 2)...)
	head = append(head, hashed...)
	h := s.hash.New()
	for _, d := range data {
		h.Write(d)
	}
	h.Write(head)
	h.Write([]byte{4, 0xff})
	h.Write(be(uint64(len(head)), 4))
	digest := h.Sum(nil)
	body := append([]byte{}, head...)
	body = append(body, be(uint64(len(unhashed)), 2)...)
	body = append(body, unhashed...)
	body = append(body, digest[:2]...)
	switch k := s.key.PrivateKey.(type) {
	case *rsa.PrivateKey:
		b, err := rsa.SignPKCS1v15(nil, k, s.hash, digest)
		if err != nil {
			panic(err)
		}
		body = append(body, mpi(b)...)
	case *eddsa.PrivateKey:
		r, ss, err := eddsa.Sign(k, digest)
		if err != nil {
			panic(err)
		}
		body = append(append(body, mpi(r)...), mpi(ss)...)
	case *ecdsa.PrivateKey:
		r, ss, err := ecdsa.Sign(rand.Reader, k, digest)
		for err == nil && (r.BitLen() != 256 || ss.BitLen() != 256) { // same length every time
			r, ss, err = ecdsa.Sign(rand.Reader, k, digest)
		}
		if err != nil {
			panic(err)
		}
		body = append(append(body, mpi(r.Bytes())...), mpi(ss.Bytes())...)
	case *dsa.PrivateKey:
		n := (k.Q.BitLen() + 7) / 8
		if len(digest) > n {
			digest = digest[:n]
		}
		r, ss, err := dsa.Sign(rand.Reader, k, digest)
		for err == nil && (r.BitLen() != k.Q.BitLen() || ss.BitLen() != k.Q.BitLen()) {
			r, ss, err = dsa.Sign(rand.Reader, k, digest)
		}
		if err != nil {
			panic(err)
		}
		body = append(append(body, mpi(r.Bytes())...), mpi(ss.Bytes())...)
	default:
		panic(fmt.Sprintf("%T", k))
	}
	return wrapPacket(2, body, s.newFmt)
}

// wrapPacket adds a packet header.
func wrapPacket(tag byte, body []byte, newFmt bool) []byte {
	var out []byte
	if newFmt {
		out = append(out, 0xc0|tag)
		switch n := len(body); {
		case n < 192:
			out = append(out, byte(n))
		case n < 8384:
			out = append(out, byte((n-192)>>8+192), byte(n-192))
		default:
			out = append(append(out, 0xff), be(uint64(n), 4)...)
		}
	} else {
		if n := len(body); n < 256 {
			out = append(out, 0x80|tag<<2, byte(n))
		} else {
			out = append(append(out, 0x80|tag<<2|1), be(uint64(n), 2)...)
		}
	}
	return append(out, body...)
}

// refSig is a signature packet as read by the reference parser.
type refSig struct {
	sigType byte
	algo    byte
	hash    crypto.Hash
	hashed  []byte // version up to the end of the hashed subpackets
	mpis    [][]byte
	keyid   uint64
	hasID   bool
	fp      []byte
	created time.Time
}

func refSubpackets(s *refSig, b []byte, hashed bool) error {
	for len(b) > 0 {
		n := int(b[0])
		b = b[1:]
		switch {
		case n >= 255:
			if len(b) < 4 {
				return fmt.Errorf("short subpacket length")
			}
			n = int(binary.BigEndian.Uint32(b))
			b = b[4:]
		case n >= 192:
			if len(b) < 1 {
				return fmt.Errorf("short subpacket length")
			}
			n = (n-192)<<8 + int(b[0]) + 192
			b = b[1:]
		}
		if n < 1 || n > len(b) {
			return fmt.Errorf("bad subpacket length %d", n)
		}
		d := b[1:n]
		switch b[0] & 0x7f {
		case 2:
			if hashed && len(d) == 4 {
				s.created = time.Unix(int64(binary.BigEndian.Uint32(d)), 0)
			}
		case 16:
			if len(d) == 8 {
				s.keyid, s.hasID = binary.BigEndian.Uint64(d), true
			}
		case 33:
			if len(d) == 21 {
				s.fp = d[1:]
			}
		}
		b = b[n:]
	}
	return nil
}

// parseSig reads a blob holding exactly one v4 signature packet.
func parseSig(blob []byte) (*refSig, error) {
	if len(blob) < 2 || blob[0]&0x80 == 0 {
		return nil, fmt.Errorf("not a packet")
	}
	var tag byte
	var n, off int
	if blob[0]&0x40 != 0 {
		tag = blob[0] & 0x3f
		switch l := int(blob[1]); {
		case l < 192:
			n, off = l, 2
		case l < 224 && len(blob) > 2:
			n, off = (l-192)<<8+int(blob[2])+192, 3
		case l == 255 && len(blob) > 5:
			n, off = int(binary.BigEndian.Uint32(blob[2:])), 6
		default:
			return nil, fmt.Errorf("packet length form")
		}
	} else {
		tag = blob[0] >> 2 & 15
		switch blob[0] & 3 {
		case 0:
			n, off = int(blob[1]), 2
		case 1:
			if len(blob) < 3 {
				return nil, fmt.Errorf("short")
			}
			n, off = int(binary.BigEndian.Uint16(blob[1:])), 3
		case 2:
			if len(blob) < 5 {
				return nil, fmt.Errorf("short")
			}
			n, off = int(binary.BigEndian.Uint32(blob[1:])), 5
		default:
			n, off = len(blob)-1, 1
		}
	}
	if tag != 2 || off > len(blob) || off+n < len(blob) {
		// a length beyond the end of the blob is tolerated, as long as the
		// signature itself is complete
		return nil, fmt.Errorf("tag %d, %d of %d bytes", tag, off+n, len(blob))
	}
	b := blob[off:]
	if len(b) < 6 || b[0] != 4 {
		return nil, fmt.Errorf("version")
	}
	s := &refSig{sigType: b[1], algo: b[2], hash: pgpHash[int(b[3])]}
	hl := int(binary.BigEndian.Uint16(b[4:]))
	if len(b) < 6+hl+2 {
		return nil, fmt.Errorf("short")
	}
	s.hashed = b[:6+hl]
	if err := refSubpackets(s, b[6:6+hl], true); err != nil {
		return nil, err
	}
	b = b[6+hl:]
	ul := int(binary.BigEndian.Uint16(b))
	if len(b) < 2+ul+2 {
		return nil, fmt.Errorf("short")
	}
	if err := refSubpackets(s, b[2:2+ul], false); err != nil {
		return nil, err
	}
	b = b[2+ul+2:]
	for len(b) >= 2 {
		l := (int(binary.BigEndian.Uint16(b)) + 7) / 8
		if len(b) < 2+l {
			return nil, fmt.Errorf("short")
		}
		s.mpis = append(s.mpis, b[2:2+l])
		b = b[2+l:]
	}
	return s, nil
}

// valid tells whether the signature was made by the key over data.
func (s *refSig) valid(pk *packet.PublicKey, data ...[]byte) bool {
	if s.hash == 0 || byte(pk.PubKeyAlgo) != s.algo {
		return false
	}
	h := s.hash.New()
	for _, d := range data {
		h.Write(d)
	}
	h.Write(s.hashed)
	h.Write([]byte{4, 0xff})
	h.Write(be(uint64(len(s.hashed)), 4))
	digest := h.Sum(nil)
	two := func() bool { return len(s.mpis) >= 2 }
	switch k := pk.PublicKey.(type) {
	case *rsa.PublicKey:
		if len(s.mpis) < 1 {
			return false
		}
		m := s.mpis[0]
		if n := k.Size() - len(m); n > 0 {
			m = append(make([]byte, n), m...)
		}
		return rsa.VerifyPKCS1v15(k, s.hash, digest, m) == nil
	case *eddsa.PublicKey:
		return two() && eddsa.Verify(k, digest, s.mpis[0], s.mpis[1])
	case *ecdsa.PublicKey:
		return two() && ecdsa.Verify(k, digest, new(big.Int).SetBytes(s.mpis[0]), new(big.Int).SetBytes(s.mpis[1]))
	case *dsa.PublicKey:
		n := (k.Q.BitLen() + 7) / 8
		if len(digest) > n {
			digest = digest[:n]
		}
		return two() && dsa.Verify(k, digest, new(big.Int).SetBytes(s.mpis[0]), new(big.Int).SetBytes(s.mpis[1]))
	}
	return false
}

// findIssuer looks for the key the signature names.
func (s *refSig) findIssuer(l openpgp.EntityList) (*openpgp.Entity, *packet.PublicKey) {
	match := func(pk *packet.PublicKey) bool {
		if s.fp != nil {
			return bytes.Equal(pk.Fingerprint, s.fp)
		}
		return s.hasID && pk.KeyId == s.keyid
	}
	for _, e := range l {
		if match(e.PrimaryKey) {
			return e, e.PrimaryKey
		}
		for i := range e.Subkeys {
			if match(e.Subkeys[i].PublicKey) {
				return e, e.Subkeys[i].PublicKey
			}
		}
	}
	return nil, nil
}
