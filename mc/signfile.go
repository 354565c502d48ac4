package main

import (
	"bytes"
	"fmt"
	"os"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// signOp is one way of writing a signed package to a file.
type signOp struct {
	sign     bool // SignRpmFile, or else RewriteWithSignatures
	pgp, rsa []byte
	signer   signer
}

func (o signOp) run(in *os.File, out string) error {
	var err error
	var h *rpmutils.RpmHeader
	if o.sign {
		h, err = rpmutils.SignRpmFile(in, out, o.signer.priv, &rpmutils.SignatureOptions{CreationTime: fixedTime})
	} else {
		h, err = rpmutils.RewriteWithSignatures(in, out, o.pgp, o.rsa)
	}
	if err == nil && h == nil {
		err = fmt.Errorf("neither a header nor an error")
	}
	return err
}

// check tells whether got is the complete package b with the new signatures,
// without using the library.
func (o signOp) check(b *built, got []byte) error {
	if len(got) < 96 || !bytes.Equal(got[:96], b.raw[:96]) {
		return fmt.Errorf("%d bytes with another lead", len(got))
	}
	p, err := parseHdr(got[96:], true, true)
	if err != nil {
		return fmt.Errorf("signature header: %v", err)
	}
	if !bytes.Equal(got[96+p.end:], b.raw[b.sigEnd:]) {
		return fmt.Errorf("what follows the signature header differs (%d bytes, want %d)", len(got)-96-p.end, len(b.raw)-b.sigEnd)
	}
	var want []tagv
	for _, t := range b.sigTags {
		if t.tag != sigRSA && t.tag != sigDSA && t.tag != sigPGP && t.tag != sigGPG {
			want = append(want, t)
		}
	}
	if o.sign {
		for _, id := range []int{sigRSA, sigPGP} {
			t, ok := p.get(id)
			if !ok {
				return fmt.Errorf("signature %d is missing", id)
			}
			rs, err := parseSig(t.data)
			if err != nil {
				return err
			}
			data := [][]byte{b.gen}
			if id == sigPGP {
				data = append(data, b.payload)
			}
			if !rs.valid(&o.signer.priv.PublicKey, data...) {
				return fmt.Errorf("signature %d is not valid", id)
			}
			want = append(want, t)
		}
	} else {
		want = append(want, tBytes(sigRSA, o.rsa), tBytes(sigPGP, o.pgp))
	}
	return sameTags(want, p.tags, sigReserved)
}

// after gives the package that check has accepted.
func (o signOp) after(b *built, got []byte) *built {
	p, err := parseHdr(got[96:], true, true)
	if err != nil {
		panic("harness: " + err.Error())
	}
	c := *b
	c.raw = got
	c.sigEnd = 96 + p.end
	c.genEnd = c.sigEnd + len(b.gen)
	c.sigTags = nil
	for _, t := range p.tags {
		if t.tag != sigRegion {
			c.sigTags = append(c.sigTags, t)
		}
	}
	return &c
}
