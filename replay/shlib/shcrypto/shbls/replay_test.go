package shbls

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

	"github.com/shutter-network/shutter/shlib/zzverif"
)

func zzKey(h *zzverif.H) *big.Int {
	switch h.R.Intn(5) {
	case 0:
		return big.NewInt(int64(h.R.Intn(4)))
	case 1:
		return new(big.Int).Sub(bn256.Order, big.NewInt(int64(1+h.R.Intn(3))))
	}
	return new(big.Int).Rand(h.R, bn256.Order)
}

func zzPub(k *big.Int) *PublicKey { return (*PublicKey)(new(bn256.G1).ScalarBaseMult(k)) }

func zzSig(k *big.Int, m []byte) *Signature {
	e := new(big.Int).Mul(crypto.Keccak256Hash(m).Big(), k)
	return (*Signature)(new(bn256.G2).ScalarBaseMult(e.Mod(e, bn256.Order)))
}

func zzEqG2(a, b *Signature) bool {
	return bytes.Equal((*bn256.G2)(a).Marshal(), (*bn256.G2)(b).Marshal())
}

func zzEqG1(a, b *PublicKey) bool {
	return bytes.Equal((*bn256.G1)(a).Marshal(), (*bn256.G1)(b).Marshal())
}

func TestReplay_S11_signatures(t *testing.T) {
	h := zzverif.New(t, "signatures, keys and aggregates", "to 5 signers")
	for i := 0; i < h.N(12); i++ {
		k, m := zzKey(h), h.Bytes(h.R.Intn(70))
		sk := SecretKey(*k)
		desc := fmt.Sprintf("secret %v, message %x", k, m)
		h.Case(desc)
		h.NoPanic(desc, func() {
			pub := SecretToPublicKey(&sk)
			h.Check(zzEqG1(pub, zzPub(k)), "public key wrong: %s", desc)
			sig := Sign(m, &sk)
			h.Check(zzEqG2(sig, zzSig(k, m)), "signature wrong: %s", desc)
			h.Check((*big.Int)(&sk).Cmp(k) == 0, "secret changed: %s", desc)
			h.Check(Verify(sig, pub, m), "signature does not verify: %s", desc)
			o := zzKey(h)
			h.Check(Verify(zzSig(o, m), zzPub(k), m) == (o.Cmp(k) == 0), "signature of %v: %s", o, desc)
			h.Check(Verify(zzSig(k, m), zzPub(o), m) == (o.Cmp(k) == 0), "under the key of %v: %s", o, desc)
			m2 := append(append([]byte{}, m...), byte(i))
			h.Check(Verify(zzSig(k, m), zzPub(k), m2) == (k.Sign() == 0), "over message %x: %s", m2, desc)
			neg := new(big.Int).Sub(bn256.Order, k)
			neg.Mod(neg, bn256.Order)
			h.Check(Verify(zzSig(neg, m), zzPub(k), m) == (k.Sign() == 0), "negated signature: %s", desc)
			sk2 := SecretKey(*o)
			h.Check(sk.Equal(&sk2) == (o.Cmp(k) == 0), "Equal of secrets %v: %s", o, desc)
			h.Check(zzPub(k).Equal(zzPub(o)) == (o.Cmp(k) == 0), "Equal of keys of %v: %s", o, desc)
			h.Check(zzSig(k, m).Equal(zzSig(o, m)) == (o.Cmp(k) == 0), "Equal of signatures of %v: %s", o, desc)
			h.Check(zzSig(k, m).Equal(zzSig(k, m)) && zzPub(k).Equal(zzPub(k)), "not equal to itself: %s", desc)
		})
		// aggregates
		n := h.R.Intn(6)
		var sigs []*Signature
		var pubs []*PublicKey
		sum := new(big.Int)
		ks := []*big.Int{}
		for j := 0; j < n; j++ {
			kj := zzKey(h)
			if j > 0 && h.R.Intn(3) == 0 {
				kj = ks[h.R.Intn(j)]
			}
			if j > 0 && h.R.Intn(5) == 0 {
				kj = new(big.Int).Mod(new(big.Int).Neg(ks[j-1]), bn256.Order)
			}
			ks = append(ks, kj)
			sum.Add(sum, kj)
			sigs = append(sigs, zzSig(kj, m))
			pubs = append(pubs, zzPub(kj))
		}
		sum.Mod(sum, bn256.Order)
		desc = fmt.Sprintf("secrets %v, message %x", ks, m)
		h.Case(desc)
		h.NoPanic(desc, func() {
			as, ap := AggregateSignatures(sigs), AggregatePublicKeys(pubs)
			h.Check(zzEqG2(as, zzSig(sum, m)), "aggregate signature is not the sum: %s", desc)
			h.Check(zzEqG1(ap, zzPub(sum)), "aggregate key is not the sum: %s", desc)
			h.Check(Verify(as, ap, m), "aggregate does not verify: %s", desc)
			for j := range ks {
				h.Check(zzEqG2(sigs[j], zzSig(ks[j], m)) && zzEqG1(pubs[j], zzPub(ks[j])), "aggregating changed input %d: %s", j, desc)
			}
		})
	}
}

func TestReplay_S11_codec(t *testing.T) {
	h := zzverif.New(t, "encodings and malformed bytes", "")
	garbage := func(valid []byte) []byte {
		switch h.R.Intn(6) {
		case 0:
			return h.Bytes(h.R.Intn(2 * len(valid)))
		case 1:
			return valid[:h.R.Intn(len(valid))]
		case 2:
			return append(append([]byte{}, valid...), h.Bytes(1+h.R.Intn(70))...)
		case 3:
			b := append([]byte{}, valid...)
			b[h.R.Intn(len(b))] ^= byte(1 << uint(h.R.Intn(8)))
			return b
		case 4:
			return bytes.Repeat([]byte{255}, len(valid))
		}
		return make([]byte, len(valid))
	}
	for i := 0; i < h.N(30); i++ {
		k, m := zzKey(h), h.Bytes(8)
		sk := SecretKey(*k)
		desc := fmt.Sprintf("secret %v", k)
		h.Case(desc)
		h.NoPanic(desc, func() {
			b := sk.Marshal()
			h.Check(len(b) == 32 && new(big.Int).SetBytes(b).Cmp(k) == 0, "secret key encoding %x: %s", b, desc)
			x := SecretKey(*zzKey(h))
			h.Check(x.Unmarshal(b) == nil && (*big.Int)(&x).Cmp(k) == 0, "secret key round trip: %s", desc)
			pb := zzPub(k).Marshal()
			p := zzPub(zzKey(h))
			h.Check(len(pb) == 64 && p.Unmarshal(pb) == nil && zzEqG1(p, zzPub(k)), "public key round trip: %s", desc)
			sb := zzSig(k, m).Marshal()
			s := zzSig(zzKey(h), m)
			h.Check(len(sb) == 128 && s.Unmarshal(sb) == nil && zzEqG2(s, zzSig(k, m)), "signature round trip: %s", desc)
			p, s = new(PublicKey), new(Signature)
			h.Check(p.Unmarshal(pb) == nil && zzEqG1(p, zzPub(k)), "public key round trip: %s", desc)
			h.Check(s.Unmarshal(sb) == nil && zzEqG2(s, zzSig(k, m)), "signature round trip: %s", desc)
		})
		g := garbage(zzPub(k).Marshal())
		_, err := new(bn256.G1).Unmarshal(g)
		ok := err == nil && len(g) == 64
		h.NoPanic(fmt.Sprintf("public key from %x", g), func() {
			p := new(PublicKey)
			err := p.Unmarshal(g)
			h.Check((err == nil) == ok, "public key from %x: error %v, valid %v", g, err, ok)
			if err == nil {
				h.Check(bytes.Equal(p.Marshal(), g), "public key from %x is another value", g)
			}
		})
		g = garbage(zzSig(k, m).Marshal())
		_, err = new(bn256.G2).Unmarshal(g)
		ok = err == nil && len(g) == 128
		h.NoPanic(fmt.Sprintf("signature from %x", g), func() {
			s := new(Signature)
			err := s.Unmarshal(g)
			h.Check((err == nil) == ok, "signature from %x: error %v, valid %v", g, err, ok)
			if err == nil {
				h.Check(bytes.Equal(s.Marshal(), g), "signature from %x is another value", g)
			}
		})
		g = garbage(sk.Marshal())
		if i < 5 {
			g = new(big.Int).Add(bn256.Order, big.NewInt(int64(i-2))).FillBytes(make([]byte, 32))
		}
		ok = len(g) == 32 && new(big.Int).SetBytes(g).Cmp(bn256.Order) < 0
		h.NoPanic(fmt.Sprintf("secret key from %x", g), func() {
			x := new(SecretKey)
			err := x.Unmarshal(g)
			h.Check((err == nil) == ok, "secret key from %x: error %v", g, err)
			if err == nil {
				h.Check((*big.Int)(x).Cmp(new(big.Int).SetBytes(g)) == 0, "secret key from %x is another value", g)
			}
		})
	}
}
