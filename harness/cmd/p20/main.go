// P20: signatures and keys.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"log"
	"math/big"
	"time"

	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/wallet"

	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main("P20", mc.Options{Exhaustive: true, QuickBudget: 400 * time.Second, FullBudget: 3000 * time.Second,
		Assumptions: []string{
			"bounds: 10 (quick) / 24 (thorough) private keys including 1, 2, n-1, n-2 and keys with leading zero bytes; 6 / 12 digests including all-zero-but-one, all-ones and short ones; every byte position of digest, signature and key altered in 2 (quick) / 8 (thorough) ways; every input length 0..70; degenerate scalars",
			"oracle: an independent affine big-integer implementation of secp256k1 (harness/ref/ec.go) of key derivation, recovery and verification",
			"the crafted signatures whose recovery ends in the point at infinity are left out (a limit of the external curve library)",
			"signatures use a random nonce, so signature bytes differ between runs; every judgement is on relations that hold for every nonce",
		}}, body)
}

var order, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

func pad(v *big.Int) []byte {
	b := make([]byte, 32)
	vb := v.Bytes()
	copy(b[32-len(vb):], vb)
	return b
}

func keys(n int) [][]byte {
	var ks [][]byte
	for _, i := range []int64{1, 2, 3} {
		ks = append(ks, pad(big.NewInt(i)))
	}
	for _, i := range []int64{1, 2} {
		ks = append(ks, pad(new(big.Int).Sub(order, big.NewInt(i))))
	}
	ks = append(ks, pad(new(big.Int).Lsh(big.NewInt(1), 128)), pad(new(big.Int).Lsh(big.NewInt(0x1234567), 200)))
	for i := byte(0); len(ks) < n; i++ {
		ks = append(ks, crypto.SHA3Sum256([]byte{i}))
	}
	return ks[:n]
}

func digests(n int) [][]byte {
	d := [][]byte{append(make([]byte, 31), 1), bytes.Repeat([]byte{0xff}, 32), crypto.SHA3Sum256([]byte("a")), {7}, bytes.Repeat([]byte{9}, 20), append([]byte{0x80}, make([]byte, 31)...)}
	for i := byte(0); len(d) < n; i++ {
		d = append(d, crypto.SHA3Sum256([]byte{i, i}))
	}
	return d[:n]
}

func body(r *mc.R) {
	log.SetOutput(io.Discard) // the secp256k1 library logs through the standard logger
	nk, nd, na := 10, 6, 2
	if r.Thorough() {
		nk, nd, na = 24, 12, 8
	}
	alt := []byte{0x01, 0x80, 0xff, 0x10, 0x02, 0x40, 0x55, 0x0f}[:na]
	ks, ds := keys(nk), digests(nd)
	for ki, kb := range ks {
		ki, kb := ki, kb
		r.Case(fmt.Sprintf("key %d", ki), func(c *mc.C) {
			sk, err := crypto.ParsePrivateKey(kb)
			if err != nil {
				c.Fail("key-refused", "valid key %x refused: %v", kb, err)
			}
			if !bytes.Equal(sk.Bytes(), kb) || sk.String() != "0x"+hex.EncodeToString(kb) {
				c.Fail("key-bytes", "key %x comes back as %x %s", kb, sk.Bytes(), sk)
			}
			b := sk.Bytes()
			b[0] ^= 0xff
			if !bytes.Equal(sk.Bytes(), kb) {
				c.Fail("key-alias", "changing the returned bytes changes the key")
			}
			pk := sk.PublicKey()
			q := ref.G.Mul(new(big.Int).SetBytes(kb))
			unc, comp := q.Uncompressed(), q.Compressed()
			if !bytes.Equal(pk.SerializeCompressed(), comp) || !bytes.Equal(pk.SerializeUncompressed(), unc) {
				c.Fail("public-key", "public key of %x is %x / %x, expected %x / %x", kb, pk.SerializeCompressed(), pk.SerializeUncompressed(), comp, unc)
			}
			for _, form := range [][]byte{comp, unc} {
				p2, err := crypto.ParsePublicKey(append([]byte{}, form...))
				if err != nil || !p2.Equal(pk) || !pk.Equal(p2) || !bytes.Equal(p2.SerializeUncompressed(), unc) || p2.String() != "0x"+hex.EncodeToString(comp) {
					c.Fail("public-key-form", "public key does not survive its form %x: %v", form, err)
				}
				for i := range form {
					for _, a := range alt {
						m := append([]byte{}, form...)
						m[i] ^= a
						p3, err := crypto.ParsePublicKey(m)
						if err == nil {
							if p3.Equal(pk) {
								c.Fail("public-key-altered", "altered public key %x parses as the original", m)
							}
							if site, p := mc.Try(func() { p3.SerializeUncompressed() }); p != nil {
								c.Fail("public-key-panic:"+site, "accepted public key %x cannot be serialised: %v", m, p)
							}
						}
						r.Trans(1)
						r.Validated(1)
					}
				}
			}
			// address from key
			ad := common.NewAccountAddressFromPublicKey(pk)
			if want := crypto.SHA3Sum256(unc[1:])[12:]; !bytes.Equal(ad.ID(), want) || ad.IsContract() {
				c.Fail("address", "address of %x is %s", kb, ad)
			}
			w, err := wallet.NewIcxWalletFromPrivateKey(sk)
			if err != nil || w.Address() != ad.String() || !bytes.Equal(w.PublicKey(), comp) {
				c.Fail("wallet", "wallet of %x: %v", kb, err)
			}
			for di, d := range ds {
				sigs(c, sk, pk, w, d, alt, ks, di)
			}
			// ECDH agrees on both sides
			for _, ob := range ks {
				osk, _ := crypto.ParsePrivateKey(ob)
				s1, s2 := sk.ECDH(osk.PublicKey()), osk.ECDH(pk)
				if len(s1) == 0 || !bytes.Equal(s1, s2) {
					c.Fail("ecdh", "shared secrets differ: %x %x", s1, s2)
				}
				r.Trans(2)
			}
			for n := 0; n <= 70; n++ {
				if n == 33 || n == 65 {
					continue
				}
				for _, f := range []byte{0, 2, 3, 4} {
					if _, err := w.ECDH(bytes.Repeat([]byte{f}, n)); err == nil {
						c.Fail("ecdh-accepts", "ECDH accepts a key of %d bytes", n)
					}
				}
			}
			r.State("key", ki)
		})
	}
	degenerate(r)
}

func flip(b []byte, i int, a byte) []byte {
	m := append([]byte{}, b...)
	m[i] ^= a
	return m
}

func sigs(c *mc.C, sk *crypto.PrivateKey, pk *crypto.PublicKey, w wallet.Wallet, d []byte, alt []byte, ks [][]byte, di int) {
	r := c.R
	for src := 0; src < 2; src++ {
		var sig *crypto.Signature
		var err error
		if src == 0 {
			sig, err = crypto.NewSignature(d, sk)
		} else {
			var b []byte
			if b, err = w.Sign(d); err == nil {
				sig, err = crypto.ParseSignature(b)
			}
		}
		if err != nil {
			c.Fail("sign", "signing %x: %v", d, err)
		}
		rsv, err := sig.SerializeRSV()
		if err != nil || len(rsv) != 65 || !sig.HasV() {
			c.Fail("rsv", "signature has no RSV form: %v", err)
		}
		rsv = append([]byte{}, rsv...)
		rs, _ := sig.SerializeRS()
		vrs, _ := sig.SerializeVRS()
		if !bytes.Equal(rs, rsv[:64]) || len(vrs) != 65 || vrs[0] != rsv[64] || !bytes.Equal(vrs[1:], rsv[:64]) || sig.String() != "0x"+hex.EncodeToString(rsv) {
			c.Fail("forms", "forms disagree: rsv %x rs %x vrs %x", rsv, rs, vrs)
		}
		// independent implementation
		d32 := append(make([]byte, 32-len(d)), d...)
		gp, err := ref.Recover(d, rsv)
		if err != nil || !bytes.Equal(gp.Uncompressed(), pk.SerializeUncompressed()) || !ref.Verify(gp, d, rsv[:64]) {
			c.Fail("sign-wrong", "signature %x over %x does not verify with the independent implementation: %v", rsv, d, err)
		}
		ok := func(s *crypto.Signature) {
			if !s.Verify(d, pk) {
				c.Fail("verify", "signature %s over %x does not verify", s, d)
			}
			p, err := s.RecoverPublicKey(d)
			if err != nil || !p.Equal(pk) {
				c.Fail("recover", "signature %s over %x recovers %v err %v", s, d, p, err)
			}
			r.Validated(2)
			r.Trans(2)
		}
		ok(sig)
		s2, err := crypto.ParseSignature(append([]byte{}, rsv...))
		if err != nil {
			c.Fail("parse", "%v", err)
		}
		ok(s2)
		s3, err := crypto.ParseSignatureVRS(append([]byte{}, vrs...))
		if err != nil {
			c.Fail("parse-vrs", "%v", err)
		}
		ok(s3)
		if v, err := s3.SerializeVRS(); err != nil || !bytes.Equal(v, vrs) {
			c.Fail("vrs", "VRS form does not survive: %x %x %v", v, vrs, err)
		}
		s4, err := crypto.ParseSignature(rsv[:64])
		if err != nil || s4.HasV() {
			c.Fail("parse-rs", "RS form: %v", err)
		}
		if _, err := s4.RecoverPublicKey(d); err == nil {
			c.Fail("recover-no-v", "recovery without V succeeds")
		}
		if _, err := s4.SerializeRSV(); err == nil {
			c.Fail("rsv-no-v", "RSV form without V")
		}
		if _, err := s4.SerializeVRS(); err == nil {
			c.Fail("vrs-no-v", "VRS form without V")
		}
		if b, err := s4.SerializeRS(); err != nil || !bytes.Equal(b, rsv[:64]) {
			c.Fail("rs", "RS form does not survive")
		}
		if !bytes.Equal(rsv, mustRSV(sig)) {
			c.Fail("mutated", "verification changed the signature")
		}
		not := func(what string, s *crypto.Signature, dg []byte, p *crypto.PublicKey) {
			if s.Verify(dg, p) {
				c.Fail("verify-altered:"+what, "signature %s verifies over %x with altered %s", s, dg, what)
			}
			r.Validated(1)
			r.Trans(1)
		}
		notRec := func(what string, s *crypto.Signature, dg []byte) {
			p, err := s.RecoverPublicKey(dg)
			if err == nil && p.Equal(pk) {
				c.Fail("recover-altered:"+what, "signature %s over %x recovers the signer with altered %s", s, dg, what)
			}
			if err == nil {
				if site, pn := mc.Try(func() { p.SerializeUncompressed() }); pn != nil {
					c.Fail("recover-invalid:"+site, "recovered key %s is invalid: %v", p, pn)
				}
				// agree with the independent implementation
				gp, gerr := ref.Recover(dg, mustRSV(s))
				if gerr != nil || !bytes.Equal(gp.Uncompressed(), p.SerializeUncompressed()) {
					c.Fail("recover-differs", "signature %s over %x recovers %s, independent implementation %v %v", s, dg, p, gp, gerr)
				}
			}
			r.Validated(1)
			r.Trans(1)
		}
		for i := range d {
			for _, a := range alt {
				m := flip(d, i, a)
				not("digest", sig, m, pk)
				notRec("digest", sig, m)
			}
		}
		for i := range rsv {
			for _, a := range alt {
				m, err := crypto.ParseSignature(flip(rsv, i, a))
				if err != nil {
					continue
				}
				not("signature", m, d, pk)
				notRec("signature", m, d)
			}
		}
		for v := 0; v < 256; v++ {
			if byte(v) == rsv[64] {
				continue
			}
			m := append([]byte{}, rsv...)
			m[64] = byte(v)
			s, _ := crypto.ParseSignature(m)
			not("V", s, d, pk)
			notRec("V", s, d)
		}
		for _, ob := range ks {
			if bytes.Equal(ob, sk.Bytes()) {
				continue
			}
			o, _ := crypto.ParsePrivateKey(ob)
			not("key", sig, d, o.PublicKey())
		}
		not("nil key", sig, d, nil)
		not("empty digest", sig, nil, pk)
		not("empty digest", sig, []byte{}, pk)
		not("long digest", sig, append(append([]byte{}, d32...), 0), pk)
		if _, err := sig.RecoverPublicKey(nil); err == nil {
			c.Fail("recover-empty", "recovery over an empty digest succeeds")
		}
		if _, err := sig.RecoverPublicKey(append(append([]byte{}, d32...), 0)); err == nil {
			c.Fail("recover-long", "recovery over a 33-byte digest succeeds")
		}
		r.Exec(1)
		r.State("sig", di, src, sk.String())
	}
	for n := 0; n <= 70; n++ {
		if n >= 1 && n <= 32 {
			continue
		}
		if _, err := crypto.NewSignature(make([]byte, n), sk); err == nil {
			c.Fail("sign-length", "signing a digest of %d bytes succeeds", n)
		}
	}
	if _, err := crypto.NewSignature(d, nil); err == nil {
		c.Fail("sign-nil", "signing without key succeeds")
	}
}

func mustRSV(s *crypto.Signature) []byte { b, _ := s.SerializeRSV(); return b }

func degenerate(r *mc.R) {
	zero := make([]byte, 32)
	n := pad(order)
	n1 := pad(new(big.Int).Add(order, big.NewInt(1)))
	ff := bytes.Repeat([]byte{0xff}, 32)
	nm1 := pad(new(big.Int).Sub(order, big.NewInt(1)))
	one := pad(big.NewInt(1))
	gx := pad(ref.G.X)
	r.Case("bad private keys", func(c *mc.C) {
		for _, k := range [][]byte{zero, n, n1, ff} {
			sk, err := crypto.ParsePrivateKey(k)
			if err == nil {
				c.Report("private-key-accepted", "invalid private key %x accepted (%v)", k, sk)
			}
		}
		for l := 0; l <= 70; l++ {
			if _, err := crypto.ParsePrivateKey(bytes.Repeat([]byte{1}, l)); (err == nil) != (l == 32) {
				c.Report("private-key-length", "private key of %d bytes: %v", l, err)
			}
		}
	})
	r.Case("lengths", func(c *mc.C) {
		for l := 0; l <= 70; l++ {
			for _, f := range []byte{0, 1, 2, 3, 4, 0xff} {
				b := bytes.Repeat([]byte{f}, l)
				if _, err := crypto.ParseSignature(b); (err == nil) != (l == 64 || l == 65) {
					c.Report("signature-length", "signature of %d bytes: %v", l, err)
				}
				if s, err := crypto.ParseSignatureVRS(b); (err == nil) != (l == 65) {
					c.Report("signature-vrs-length", "VRS signature of %d bytes: %v", l, err)
				} else if err == nil {
					if v, err := s.SerializeVRS(); err != nil || !bytes.Equal(v, b) {
						c.Report("signature-vrs", "VRS form %x comes back as %x %v", b, v, err)
					}
				}
				if p, err := crypto.ParsePublicKey(b); err == nil {
					if l != 33 && l != 65 {
						c.Report("public-key-length", "public key of %d bytes accepted", l)
					}
					if _, ok := ref.ParsePoint(p.SerializeCompressed()); !ok {
						c.Report("public-key-invalid", "invalid public key %x accepted", b)
					}
				} else if l == 33 {
					if _, ok := ref.ParsePoint(b); ok {
						c.Report("public-key-refused", "valid public key %x refused: %v", b, err)
					}
				}
			}
		}
	})
	sk, _ := crypto.ParsePrivateKey(crypto.SHA3Sum256([]byte("k")))
	pk := sk.PublicKey()
	r.Case("degenerate scalars", func(c *mc.C) {
		scal := [][]byte{zero, one, n, n1, nm1, ff, gx}
		for _, rr := range scal {
			for _, ss := range append(scal, crypto.SHA3Sum256([]byte("a"))) {
				for v := 0; v < 5; v++ {
					for _, d := range [][]byte{one, ff, n, crypto.SHA3Sum256([]byte("a"))} {
						b := append(append(append([]byte{}, rr...), ss...), byte(v))
						s, err := crypto.ParseSignature(b)
						if err != nil {
							continue
						}
						if s.Verify(d, pk) {
							c.Report("degenerate-verify", "signature %x verifies over %x", b, d)
						}
						var p *crypto.PublicKey
						site, pn := mc.Try(func() { p, err = s.RecoverPublicKey(d) })
						if pn != nil {
							c.Report("degenerate-panic:"+site, "recovering from %x over %x panics: %v", b, d, pn)
							continue
						}
						gp, gerr := ref.Recover(d, b)
						if gerr == ref.ErrInfinity {
							continue // the external library has no answer of its own here
						}
						if (gerr == nil) != (err == nil) {
							c.Report("degenerate-recover", "recovering from %x over %x: %v, independent implementation: %v", b, d, err, gerr)
						} else if err == nil && !bytes.Equal(gp.Uncompressed(), p.SerializeUncompressed()) {
							c.Report("degenerate-differs", "recovering from %x over %x gives another key", b, d)
						}
						r.Trans(2)
						r.Exec(1)
						r.Validated(2)
					}
				}
			}
		}
	})
}
