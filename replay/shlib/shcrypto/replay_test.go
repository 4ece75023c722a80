package shcrypto

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"encoding/hex"
	"fmt"
	"math/big"
	"testing"

	blst "github.com/supranational/blst/bindings/go"
	"golang.org/x/crypto/sha3"

	"github.com/shutter-network/shutter/shlib/zzverif"
)

var zzOrder, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)

func zzKeccak(ds ...[]byte) []byte {
	k := sha3.NewLegacyKeccak256()
	for _, d := range ds {
		k.Write(d)
	}
	return k.Sum(nil)
}

func zzScalar(i *big.Int) *blst.Scalar {
	b := make([]byte, 32)
	new(big.Int).Mod(i, zzOrder).FillBytes(b)
	s := new(blst.Scalar)
	s.FromBEndian(b) // nil for zero, although the value is set
	return s
}

// zzMult: n*p for every n including 0
func zzP1(p *blst.P1Affine, n *big.Int) *blst.P1Affine {
	q := new(blst.P1)
	q.FromAffine(p)
	return q.Mult(zzScalar(n)).ToAffine()
}

func zzP2(n *big.Int) *blst.P2Affine { return blst.P2Generator().Mult(zzScalar(n)).ToAffine() }

func zzInt(h *zzverif.H) *big.Int {
	switch h.R.Intn(8) {
	case 0:
		return big.NewInt(int64(h.R.Intn(4)))
	case 1:
		return new(big.Int).Sub(zzOrder, big.NewInt(int64(1+h.R.Intn(4))))
	case 2:
		return big.NewInt(int64(h.R.Intn(1 << 20)))
	}
	return new(big.Int).Rand(h.R, zzOrder)
}

func zzBlock(h *zzverif.H) (b Block) {
	h.R.Read(b[:])
	return
}

func zzBlockKey(sigma Block, i uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, i)
	for len(b) > 1 && b[0] == 0 {
		b = b[1:]
	}
	return zzKeccak([]byte{4}, sigma[:], b)
}

func zzUnpad(p []byte) ([]byte, bool) {
	if len(p) == 0 {
		return []byte{}, true
	}
	n := int(p[len(p)-1])
	if n == 0 || n > 32 {
		return nil, false
	}
	return p[:len(p)-n], true
}

func zzSigma(m *EncryptedMessage, key *EpochSecretKey) (s Block) {
	p := blst.Fp12MillerLoop(m.C1, (*blst.P1Affine)(key))
	p.FinalExp()
	k := zzKeccak([]byte{2}, p.ToBendian())
	for i := range s {
		s[i] = m.C2[i] ^ k[i]
	}
	return
}

// zzDecrypt decides independently what a ciphertext decrypts to.
func zzDecrypt(m *EncryptedMessage, key *EpochSecretKey) ([]byte, bool) {
	sigma := zzSigma(m, key)
	var plain []byte
	for i, c := range m.C3 {
		k := zzBlockKey(sigma, uint64(i))
		for j := range c {
			plain = append(plain, c[j]^k[j])
		}
	}
	msg, ok := zzUnpad(plain)
	if !ok {
		return nil, false
	}
	r := new(big.Int).SetBytes(zzKeccak([]byte{3}, sigma[:], msg))
	r.Mod(r, zzOrder)
	return msg, zzP2(r).Equals(m.C1)
}

type zzKeys struct {
	sk  *big.Int
	pk  *EonPublicKey
	id  *EpochID
	key *EpochSecretKey
}

func zzMakeKeys(h *zzverif.H) zzKeys {
	sk := zzInt(h)
	id := ComputeEpochID(h.Bytes(h.R.Intn(20)))
	pk := EonPublicKey(*zzP2(sk))
	key := EpochSecretKey(*zzP1((*blst.P1Affine)(id), sk))
	return zzKeys{sk, &pk, id, &key}
}

func zzLen(h *zzverif.H) int {
	switch h.R.Intn(3) {
	case 0:
		return 32*h.R.Intn(5) + h.R.Intn(3) - 1 + 1
	case 1:
		return h.R.Intn(40)
	}
	return h.R.Intn(400)
}

func TestReplay_S01_roundtrip(t *testing.T) {
	h := zzverif.New(t, "random messages, keys and seeds", "lengths to 400 and a few long ones")
	try := func(n int) {
		k, sigma := zzMakeKeys(h), zzBlock(h)
		buf := h.Bytes(n + 70)
		orig := append([]byte{}, buf...)
		m := buf[:n]
		desc := fmt.Sprintf("message of %d bytes, sigma %x, secret %v", n, sigma, k.sk)
		h.Case(desc)
		h.NoPanic(desc, func() {
			c := Encrypt(m, k.pk, k.id, sigma)
			h.Check(bytes.Equal(buf, orig), "Encrypt changed the caller's data: %s", desc)
			enc := c.Marshal()
			got, err := c.Decrypt(k.key)
			h.Check(err == nil && bytes.Equal(got, orig[:n]), "decryption of the encryption differs (%v): %s", err, desc)
			h.Check(bytes.Equal(enc, c.Marshal()), "Decrypt changed the ciphertext: %s", desc)
			got2, err := c.Decrypt(k.key)
			h.Check(err == nil && bytes.Equal(got2, orig[:n]), "second decryption differs (%v): %s", err, desc)
		})
	}
	for n := 0; n <= 100; n++ {
		try(n)
	}
	for i := 0; i < h.N(40); i++ {
		try(zzLen(h))
	}
	for _, n := range []int{255 * 32, 256 * 32, 256*32 + 1, 257 * 32, 258 * 32, 300 * 32, 8191, 65535, 65536, 65537, 100000, 32*65536 + 40} {
		try(n)
	}
}

func TestReplay_S01_padding(t *testing.T) {
	h := zzverif.New(t, "padding against its definition", "lengths to 400, all padding bytes")
	for n := 0; n < 400; n++ {
		buf := h.Bytes(n + 70)
		orig := append([]byte{}, buf...)
		desc := fmt.Sprintf("message of %d bytes: %x", n, orig[:n])
		h.Case(desc)
		h.NoPanic(desc, func() {
			bs := PadMessage(buf[:n])
			h.Check(bytes.Equal(buf, orig), "PadMessage changed the caller's data: %s", desc)
			var flat []byte
			for _, b := range bs {
				flat = append(flat, b[:]...)
			}
			pad := 32 - n%32
			want := append(append([]byte{}, orig[:n]...), bytes.Repeat([]byte{byte(pad)}, pad)...)
			h.Check(bytes.Equal(flat, want), "PadMessage gives %x: %s", flat, desc)
			cp := append([]Block{}, bs...)
			m, err := UnpadMessage(bs)
			h.Check(err == nil && bytes.Equal(m, orig[:n]), "UnpadMessage(PadMessage(m)) = %x, %v: %s", m, err, desc)
			for i := range cp {
				h.Check(cp[i] == bs[i], "UnpadMessage changed its argument: %s", desc)
			}
			// the returned message is the caller's own
			if len(m) > 0 {
				m[0] ^= 1
				for i := range cp {
					h.Check(cp[i] == bs[i], "UnpadMessage shares memory with its argument: %s", desc)
				}
			}
		})
	}
	for last := 0; last < 256; last++ {
		for nb := 1; nb < 4; nb++ {
			bs := make([]Block, nb)
			var flat []byte
			for i := range bs {
				bs[i] = zzBlock(h)
				if i == nb-1 {
					bs[i][31] = byte(last)
				}
				flat = append(flat, bs[i][:]...)
			}
			desc := fmt.Sprintf("%d blocks with padding byte %d", nb, last)
			h.Case(desc)
			h.NoPanic(desc, func() {
				m, err := UnpadMessage(bs)
				want, ok := zzUnpad(flat)
				h.Check((err == nil) == ok, "UnpadMessage error %v: %s", err, desc)
				if ok && err == nil {
					h.Check(bytes.Equal(m, want), "UnpadMessage gives %x instead of %x: %s", m, want, desc)
				}
			})
		}
	}
}

func TestReplay_S01_blocks(t *testing.T) {
	h := zzverif.New(t, "block encryption and its inverse, xor", "")
	for i := 0; i < h.N(40); i++ {
		n := h.R.Intn(6)
		if i%10 == 0 {
			n = 250 + h.R.Intn(20)
		}
		sigma := zzBlock(h)
		bs := make([]Block, n)
		for j := range bs {
			bs[j] = zzBlock(h)
		}
		cp := append([]Block{}, bs...)
		desc := fmt.Sprintf("%d blocks, sigma %x", n, sigma)
		h.Case(desc)
		h.NoPanic(desc, func() {
			out := DecryptBlocks(bs, sigma)
			h.Check(len(out) == n, "DecryptBlocks gives %d blocks: %s", len(out), desc)
			for j := range cp {
				h.Check(cp[j] == bs[j], "DecryptBlocks changed its argument: %s", desc)
				k := zzBlockKey(sigma, uint64(j))
				for b := 0; j < len(out) && b < 32; b++ {
					if out[j][b] != cp[j][b]^k[b] {
						h.Fail("block %d is not the ciphertext xor its key: %s", j, desc)
						return
					}
				}
			}
		})
		a, b := zzBlock(h), zzBlock(h)
		x := XORBlocks(a, b)
		for j := range x {
			h.Check(x[j] == a[j]^b[j], "XORBlocks(%x, %x) = %x", a, b, x)
		}
	}
}

func TestReplay_S02_tampered(t *testing.T) {
	h := zzverif.New(t, "tampered ciphertexts against an independent decision", "")
	for i := 0; i < h.N(120); i++ {
		k, sigma := zzMakeKeys(h), zzBlock(h)
		m := h.Bytes(zzLen(h) % 130)
		if i%9 == 0 {
			m = nil
		}
		r := new(big.Int).SetBytes(zzKeccak([]byte{3}, sigma[:], m))
		r.Mod(r, zzOrder)
		p := blst.Fp12MillerLoop((*blst.P2Affine)(k.pk), (*blst.P1Affine)(k.id))
		_ = p
		c := Encrypt(m, k.pk, k.id, sigma)
		what := ""
		switch h.R.Intn(12) {
		case 0:
			what = "untouched"
		case 1:
			what = "first component replaced"
			c.C1 = zzP2(zzInt(h))
		case 2:
			what = "seed block changed"
			c.C2[h.R.Intn(32)] ^= byte(1 << uint(h.R.Intn(8)))
		case 3:
			what = "last block dropped"
			c.C3 = c.C3[:len(c.C3)-1]
		case 4:
			what = "all blocks dropped"
			c.C3 = nil
			if h.R.Intn(2) == 0 {
				c.C3 = []Block{}
			}
		case 5:
			what = "block appended"
			c.C3 = append(c.C3, zzBlock(h))
		case 6:
			what = "blocks swapped"
			a, b := h.R.Intn(len(c.C3)), h.R.Intn(len(c.C3))
			c.C3[a], c.C3[b] = c.C3[b], c.C3[a]
		case 7:
			j, q := len(c.C3)-1, h.R.Intn(256)
			what = fmt.Sprintf("padding byte changed by xor %d", q)
			c.C3[j][31] ^= byte(q)
		case 8:
			what = "padding byte set to a chosen length"
			j := len(c.C3) - 1
			kk := zzBlockKey(sigma, uint64(j))
			c.C3[j][31] = kk[31] ^ byte(h.R.Intn(40))
		case 9:
			what = "padding byte before the last changed"
			j := len(c.C3) - 1
			c.C3[j][30] ^= byte(1 + h.R.Intn(255))
		case 10:
			what = "first component at infinity"
			c.C1 = new(blst.P2Affine)
		default:
			j, b := h.R.Intn(len(c.C3)), h.R.Intn(32)
			what = fmt.Sprintf("byte %d of block %d changed", b, j)
			c.C3[j][b] ^= byte(1 << uint(h.R.Intn(8)))
		}
		desc := fmt.Sprintf("%s: message %x, sigma %x, secret %v", what, m, sigma, k.sk)
		h.Case(desc)
		want, ok := zzDecrypt(c, k.key)
		h.NoPanic(desc, func() {
			got, err := c.Decrypt(k.key)
			h.Check((err == nil) == ok, "Decrypt error %v, consistent %v: %s", err, ok, desc)
			if ok && err == nil {
				h.Check(bytes.Equal(got, want), "Decrypt gives %x instead of %x: %s", got, want, desc)
			}
			h.Check(c.Sigma(k.key) == zzSigma(c, k.key), "Sigma wrong: %s", desc)
		})
	}
}

// ---- codec

type zzCodec interface {
	Marshal() []byte
	Unmarshal([]byte) error
}

func zzOutside(h *zzverif.H, g2 bool) []byte {
	for {
		n := 48
		if g2 {
			n = 96
		}
		b := h.Bytes(n)
		b[0] = b[0]&0x1f | 0x80
		if h.R.Intn(2) == 0 {
			for i := 1; i < n-1; i++ {
				b[i] = 0
			}
			b[0] = 0x80
		}
		if g2 {
			if p := new(blst.P2Affine).Uncompress(b); p != nil && !p.InG2() {
				return b
			}
		} else if p := new(blst.P1Affine).Uncompress(b); p != nil && !p.InG1() {
			return b
		}
	}
}

func zzGarbage(h *zzverif.H, valid []byte, g2 bool) []byte {
	n := len(valid)
	switch h.R.Intn(9) {
	case 0:
		return h.Bytes(h.R.Intn(2*n + 2))
	case 1:
		return valid[:h.R.Intn(n)]
	case 2:
		return append(append([]byte{}, valid...), h.Bytes(1+h.R.Intn(97))...)
	case 3:
		return zzOutside(h, g2)
	case 4:
		b := append([]byte{}, valid...)
		b[h.R.Intn(n)] ^= byte(1 << uint(h.R.Intn(8)))
		return b
	case 5:
		return make([]byte, n)
	case 6:
		b := make([]byte, n)
		b[0] = 0xc0
		return b
	case 7:
		b := make([]byte, n)
		b[0] = 0x40
		return b
	}
	if g2 {
		return new(blst.P2Affine).Serialize()
	}
	return new(blst.P1Affine).Serialize()
}

func zzValidG1(b []byte) bool {
	if len(b) != 48 || b[0]&0x80 == 0 {
		return false
	}
	p := new(blst.P1Affine).Uncompress(b)
	return p != nil && p.InG1()
}

func zzValidG2(b []byte) bool {
	if len(b) != 96 || b[0]&0x80 == 0 {
		return false
	}
	p := new(blst.P2Affine).Uncompress(b)
	return p != nil && p.InG2()
}

func TestReplay_S03_points(t *testing.T) {
	h := zzverif.New(t, "round trips, garbage and points outside the group", "")
	kinds := []struct {
		name string
		g2   bool
		mk   func(k zzKeys) zzCodec
		zero func() zzCodec
		eq   func(a, b zzCodec) bool
	}{
		{"eon public key", true, func(k zzKeys) zzCodec { return k.pk }, func() zzCodec { return new(EonPublicKey) }, func(a, b zzCodec) bool { return a.(*EonPublicKey).Equal(b.(*EonPublicKey)) }},
		{"eon public key share", true, func(k zzKeys) zzCodec { return (*EonPublicKeyShare)(k.pk) }, func() zzCodec { return new(EonPublicKeyShare) }, func(a, b zzCodec) bool { return a.(*EonPublicKeyShare).Equal(b.(*EonPublicKeyShare)) }},
		{"epoch id", false, func(k zzKeys) zzCodec { return k.id }, func() zzCodec { return new(EpochID) }, func(a, b zzCodec) bool { return a.(*EpochID).Equal(b.(*EpochID)) }},
		{"epoch key", false, func(k zzKeys) zzCodec { return k.key }, func() zzCodec { return new(EpochSecretKey) }, func(a, b zzCodec) bool { return a.(*EpochSecretKey).Equal(b.(*EpochSecretKey)) }},
		{"epoch key share", false, func(k zzKeys) zzCodec { return (*EpochSecretKeyShare)(k.key) }, func() zzCodec { return new(EpochSecretKeyShare) }, func(a, b zzCodec) bool { return a.(*EpochSecretKeyShare).Equal(b.(*EpochSecretKeyShare)) }},
	}
	for _, kd := range kinds {
		for i := 0; i < h.N(30); i++ {
			v := kd.mk(zzMakeKeys(h))
			b := v.Marshal()
			desc := fmt.Sprintf("%s %x", kd.name, b)
			h.Case(desc)
			h.NoPanic(desc, func() {
				for r := 0; r < 2; r++ {
					x := kd.zero()
					if r == 1 {
						x = kd.mk(zzMakeKeys(h)) // an object in use
					}
					err := x.Unmarshal(append([]byte{}, b...))
					h.Check(err == nil && kd.eq(x, v) && bytes.Equal(x.Marshal(), b), "round trip fails (%v): %s", err, desc)
				}
				// gob
				var buf bytes.Buffer
				x := kd.zero()
				err := gob.NewEncoder(&buf).Encode(v)
				if err == nil {
					err = gob.NewDecoder(&buf).Decode(x)
				}
				h.Check(err == nil && kd.eq(x, v), "gob round trip fails (%v): %s", err, desc)
			})
			g := zzGarbage(h, b, kd.g2)
			if i == 0 {
				g = nil
			}
			if i == 1 {
				g = zzOutside(h, kd.g2)
			}
			ok := zzValidG1(g)
			if kd.g2 {
				ok = zzValidG2(g)
			}
			desc = fmt.Sprintf("%s from bytes %x", kd.name, g)
			h.Case(desc)
			h.NoPanic(desc, func() {
				for r := 0; r < 3; r++ {
					x := kd.zero()
					var err error
					if r == 1 {
						x = kd.mk(zzMakeKeys(h))
					}
					if r == 2 {
						err = x.(gob.GobDecoder).GobDecode(g)
					} else {
						err = x.Unmarshal(g)
					}
					h.Check((err == nil) == ok, "decoding error %v, valid encoding %v: %s", err, ok, desc)
					if err == nil {
						h.Check(bytes.Equal(x.Marshal(), g), "decoded to another value: %s", desc)
					}
				}
			})
		}
	}
}

func TestReplay_S03_scalars(t *testing.T) {
	h := zzverif.New(t, "eon secret key shares and blocks", "")
	for i := 0; i < h.N(60); i++ {
		v := zzInt(h)
		s := EonSecretKeyShare(*v)
		b := s.Marshal()
		desc := fmt.Sprintf("eon secret key share %v", v)
		h.Case(desc)
		h.NoPanic(desc, func() {
			x := EonSecretKeyShare(*zzInt(h))
			err := x.Unmarshal(b)
			h.Check(err == nil && x.Equal(&s), "round trip fails (%v): %s", err, desc)
		})
		g := h.Bytes(h.R.Intn(40))
		if i < 3 {
			g = new(big.Int).Add(zzOrder, big.NewInt(int64(i-1))).Bytes()
		}
		desc = fmt.Sprintf("eon secret key share from %x", g)
		h.NoPanic(desc, func() {
			x := new(EonSecretKeyShare)
			err := x.Unmarshal(g)
			n := new(big.Int).SetBytes(g)
			h.Check((err == nil) == (n.Cmp(zzOrder) < 0), "error %v: %s", err, desc)
			if err == nil {
				h.Check((*big.Int)(x).Cmp(n) == 0, "decoded to %v: %s", (*big.Int)(x), desc)
			}
		})
		bl := zzBlock(h)
		txt, err := bl.MarshalText()
		y := zzBlock(h)
		h.NoPanic("block text", func() {
			h.Check(err == nil && y.UnmarshalText(txt) == nil && y == bl, "block %x does not survive text encoding", bl)
		})
		gt := []byte("0x" + hex.EncodeToString(h.Bytes(h.R.Intn(70))))
		if h.R.Intn(4) == 0 {
			gt = h.Bytes(h.R.Intn(70))
		}
		desc = fmt.Sprintf("block from text %q", gt)
		h.Case(desc)
		h.NoPanic(desc, func() {
			z := zzBlock(h)
			err := z.UnmarshalText(gt)
			raw, herr := []byte(nil), fmt.Errorf("no prefix")
			if len(gt) >= 2 && gt[0] == '0' && (gt[1] == 'x' || gt[1] == 'X') {
				raw, herr = hex.DecodeString(string(gt[2:]))
			}
			ok := herr == nil && len(raw) == 32
			h.Check((err == nil) == ok, "error %v: %s", err, desc)
			if err == nil {
				h.Check(bytes.Equal(z[:], raw), "decoded to %x: %s", z, desc)
			}
		})
	}
}

func TestReplay_S03_messages(t *testing.T) {
	h := zzverif.New(t, "ciphertexts: round trips and malformed bytes", "")
	eq := func(a, b *EncryptedMessage) bool {
		if !a.C1.Equals(b.C1) || a.C2 != b.C2 || len(a.C3) != len(b.C3) {
			return false
		}
		for i := range a.C3 {
			if a.C3[i] != b.C3[i] {
				return false
			}
		}
		return true
	}
	for i := 0; i < h.N(80); i++ {
		mk := func() *EncryptedMessage {
			m := &EncryptedMessage{C1: zzP2(zzInt(h)), C2: zzBlock(h)}
			for n := h.R.Intn(5); n > 0; n-- {
				m.C3 = append(m.C3, zzBlock(h))
			}
			return m
		}
		v := mk()
		b := v.Marshal()
		desc := fmt.Sprintf("ciphertext %x", b)
		h.Case(desc)
		h.NoPanic(desc, func() {
			for r := 0; r < 3; r++ {
				x := new(EncryptedMessage)
				if r == 1 {
					x = mk()
				}
				var err error
				if r == 2 {
					var txt []byte
					txt, err = v.MarshalText()
					if err == nil {
						err = x.UnmarshalText(txt)
					}
				} else {
					err = x.Unmarshal(append([]byte{}, b...))
				}
				h.Check(err == nil && eq(x, v), "round trip fails (%v): %s", err, desc)
			}
		})
		g := append([]byte{}, b...)
		switch h.R.Intn(8) {
		case 0:
			g = h.Bytes(h.R.Intn(300))
		case 1:
			g = g[:h.R.Intn(len(g))]
		case 2:
			g = append(g, h.Bytes(1+h.R.Intn(33))...)
		case 3:
			copy(g[1:97], zzOutside(h, true))
		case 4:
			g[0] = byte(h.R.Intn(256))
		case 5:
			g[1+h.R.Intn(96)] ^= byte(1 << uint(h.R.Intn(8)))
		case 6:
			g = nil
		default:
			copy(g[1:97], h.Bytes(96))
			g[1] |= 0x80
		}
		if i == 0 {
			g = append([]byte{VersionIdentifier}, append(zzOutside(h, true), h.Bytes(32)...)...)
		}
		if i == 1 {
			g = append([]byte{VersionIdentifier}, append(zzOutside(h, true), h.Bytes(64)...)...)
		}
		if i == 2 {
			g = []byte{VersionIdentifier}
		}
		ok := len(g) >= 129 && (len(g)-129)%32 == 0 && g[0] == VersionIdentifier && zzValidG2(g[1:97])
		desc = fmt.Sprintf("ciphertext from bytes %x", g)
		h.Case(desc)
		h.NoPanic(desc, func() {
			for r := 0; r < 2; r++ {
				x := new(EncryptedMessage)
				if r == 1 {
					x = mk()
				}
				err := x.Unmarshal(g)
				h.Check((err == nil) == ok, "decoding error %v, valid %v: %s", err, ok, desc)
				if err == nil {
					h.Check(bytes.Equal(x.Marshal(), g), "decoded to another value: %s", desc)
				}
			}
		})
	}
}

func TestReplay_S03_gammas(t *testing.T) {
	h := zzverif.New(t, "commitments: round trips and malformed bytes", "")
	for i := 0; i < h.N(40); i++ {
		mk := func() *Gammas {
			g := Gammas{}
			for n := 1 + h.R.Intn(4); n > 0; n-- {
				g = append(g, zzP2(zzInt(h)))
			}
			return &g
		}
		v := mk()
		b := v.Marshal()
		desc := fmt.Sprintf("gammas %x", b)
		h.Case(desc)
		h.NoPanic(desc, func() {
			h.Check(len(b) == 96*len(*v), "%d bytes: %s", len(b), desc)
			for r := 0; r < 4; r++ {
				x := new(Gammas)
				if r%2 == 1 {
					x = mk()
				}
				var err error
				switch r {
				case 0, 1:
					err = x.Unmarshal(b)
				case 2:
					var gb []byte
					gb, err = v.GobEncode()
					if err == nil {
						err = x.GobDecode(gb)
					}
				default:
					var txt []byte
					txt, err = v.MarshalText()
					if err == nil {
						err = x.UnmarshalText(txt)
					}
				}
				h.Check(err == nil && x.Equal(*v), "round trip %d fails (%v): %s", r, err, desc)
			}
		})
		g := append([]byte{}, b...)
		switch h.R.Intn(6) {
		case 0:
			g = h.Bytes(h.R.Intn(300))
		case 1:
			g = g[:h.R.Intn(len(g))]
		case 2:
			g = append(g, h.Bytes(1+h.R.Intn(100))...)
		case 3:
			copy(g[96*h.R.Intn(len(g)/96):], zzOutside(h, true))
		case 4:
			g[h.R.Intn(len(g))] ^= byte(1 << uint(h.R.Intn(8)))
		default:
			copy(g[len(g)-96:], make([]byte, 96))
		}
		ok := len(g)%96 == 0
		for j := 0; ok && j < len(g)/96; j++ {
			ok = zzValidG2(g[96*j : 96*j+96])
		}
		desc = fmt.Sprintf("gammas from bytes %x", g)
		h.Case(desc)
		h.NoPanic(desc, func() {
			for r := 0; r < 3; r++ {
				x := new(Gammas)
				if r == 1 {
					x = mk()
				}
				var err error
				if r == 2 {
					err = x.GobDecode(g)
				} else {
					err = x.Unmarshal(g)
				}
				h.Check((err == nil) == ok, "decoding error %v, valid %v: %s", err, ok, desc)
				if err == nil {
					h.Check(bytes.Equal(x.Marshal(), g), "decoded to another value: %s", desc)
				}
			}
		})
	}
}

// ---- polynomials, keys

func zzPoly(h *zzverif.H, n int) (*Polynomial, []*big.Int) {
	var cs, cp []*big.Int
	for i := 0; i < n; i++ {
		c := zzInt(h)
		cs, cp = append(cs, c), append(cp, new(big.Int).Set(c))
	}
	p, err := NewPolynomial(cs)
	if err != nil {
		h.Fail("NewPolynomial refuses %v: %v", cp, err)
		return nil, nil
	}
	return p, cp
}

func zzEval(cs []*big.Int, x *big.Int) *big.Int {
	r := new(big.Int)
	pw := big.NewInt(1)
	for _, c := range cs {
		r.Add(r, new(big.Int).Mul(c, pw))
		pw = new(big.Int).Mul(pw, x)
	}
	return r.Mod(r, zzOrder)
}

func TestReplay_S07_polynomials(t *testing.T) {
	h := zzverif.New(t, "polynomials and commitments against their definition", "")
	for i := 0; i < h.N(40); i++ {
		n := 1 + h.R.Intn(5)
		if i%20 == 7 {
			n = 40
		}
		p, cs := zzPoly(h, n)
		if p == nil {
			return
		}
		ki := h.R.Intn(12)
		x := big.NewInt(int64(ki + 1))
		desc := fmt.Sprintf("coefficients %v, keyper %d", cs, ki)
		h.Case(desc)
		h.NoPanic(desc, func() {
			h.Check(KeyperX(ki).Cmp(x) == 0, "KeyperX(%d) = %v", ki, KeyperX(ki))
			v := p.EvalForKeyper(ki)
			want := zzEval(cs, x)
			h.Check(v.Cmp(want) == 0, "value %v instead of %v: %s", v, want, desc)
			z := zzInt(h)
			h.Check(p.Eval(z).Cmp(zzEval(cs, z)) == 0, "value at %v wrong: %s", z, desc)
			h.Check(p.Degree() == uint64(n-1), "degree %d: %s", p.Degree(), desc)
			g := p.Gammas()
			h.Check(len(*g) == n && g.Degree() == uint64(n-1), "%d gammas: %s", len(*g), desc)
			for j := range cs {
				if j < len(*g) {
					h.Check((*g)[j].Equals(zzP2(cs[j])), "gamma %d wrong: %s", j, desc)
				}
				h.Check((*p)[j].Cmp(cs[j]) == 0, "coefficient %d changed: %s", j, desc)
			}
			xx := new(big.Int).Set(x)
			h.Check(g.Pi(xx).Equals(zzP2(want)), "commitment at the keyper's point is not the generator raised to the value: %s", desc)
			h.Check(xx.Cmp(x) == 0, "Pi changed its argument")
			for th := 0; th < n+3; th++ {
				h.Check(VerifyPolyEval(ki, new(big.Int).Set(want), g, uint64(th)) == (th == n), "VerifyPolyEval with threshold %d is %v: %s", th, th != n, desc)
			}
			for _, bad := range []*big.Int{new(big.Int).Add(want, big.NewInt(1)), new(big.Int).Xor(want, big.NewInt(1<<40)), zzInt(h), big.NewInt(0), cs[0]} {
				bad = new(big.Int).Mod(bad, zzOrder)
				h.Check(VerifyPolyEval(ki, bad, g, uint64(n)) == (bad.Cmp(want) == 0), "VerifyPolyEval of %v wrong (value %v): %s", bad, want, desc)
			}
			zg := ZeroGammas(uint64(n - 1))
			h.Check(len(*zg) == n && zg.Pi(x).Equals(new(blst.P2Affine)), "ZeroGammas(%d) wrong", n-1)
		})
	}
	for _, d := range []int64{-3, -1, 0, 1, 2, 1 << 40} {
		v := new(big.Int).Add(zzOrder, big.NewInt(d))
		h.Check(ValidEval(v) == (d < 0), "ValidEval(order%+d)", d)
		h.Check(ValidEval(big.NewInt(d)) == (d >= 0), "ValidEval(%d)", d)
		_, err := NewPolynomial([]*big.Int{big.NewInt(1), v})
		h.Check((err == nil) == (d < 0), "NewPolynomial with coefficient order%+d: %v", d, err)
		_, err = NewPolynomial([]*big.Int{big.NewInt(d)})
		h.Check((err == nil) == (d >= 0), "NewPolynomial with coefficient %d: %v", d, err)
	}
	_, err := NewPolynomial(nil)
	h.Check(err != nil, "NewPolynomial of nothing succeeds")
}

func TestReplay_S08_reconstruction(t *testing.T) {
	h := zzverif.New(t, "epoch keys from random subsets and orders of shares", "")
	for i := 0; i < h.N(30); i++ {
		th := 1 + h.R.Intn(5)
		_, cs := zzPoly(h, th)
		if cs == nil {
			return
		}
		id := ComputeEpochID(h.Bytes(8))
		want := zzP1((*blst.P1Affine)(id), cs[0])
		perm := h.R.Perm(th + h.R.Intn(6))[:th]
		if h.R.Intn(4) == 0 {
			perm[0] = 1000 + h.R.Intn(1000)
		}
		run := func(perm []int, desc string) {
			var shares []*EpochSecretKeyShare
			for _, k := range perm {
				s := EonSecretKeyShare(*zzEval(cs, big.NewInt(int64(k+1))))
				sh := ComputeEpochSecretKeyShare(&s, id)
				h.Check((*blst.P1Affine)(sh).Equals(zzP1((*blst.P1Affine)(id), (*big.Int)(&s))), "share is not the epoch id raised to the secret share %v", (*big.Int)(&s))
				shares = append(shares, sh)
			}
			idx := append([]int{}, perm...)
			key, err := ComputeEpochSecretKey(idx, shares, uint64(th))
			h.Check(err == nil && (*blst.P1Affine)(key).Equals(want), "key is not the epoch id raised to the secret (%v): %s", err, desc)
			for j := range idx {
				h.Check(idx[j] == perm[j], "indices changed: %s", desc)
			}
			for _, q := range []uint64{uint64(th + 1), uint64(th - 1), 0, ^uint64(0)} {
				if q == uint64(th) {
					continue
				}
				_, err = ComputeEpochSecretKey(idx, shares, q)
				h.Check(err != nil, "%d shares accepted for threshold %d", th, q)
			}
			_, err = ComputeEpochSecretKey(idx[:th-1], shares, uint64(th))
			h.Check(err != nil, "%d indices, %d shares accepted", th-1, th)
			_, err = ComputeEpochSecretKey(idx[:th-1], shares, uint64(th-1))
			h.Check(err != nil, "%d indices, %d shares accepted for threshold %d", th-1, th, th-1)
			_, err = ComputeEpochSecretKey(idx, shares[:th-1], uint64(th))
			h.Check(err != nil, "%d indices, %d shares accepted", th, th-1)
			lc := NewLagrangeCoeffs(idx)
			k2, err := lc.ComputeEpochSecretKey(shares)
			h.Check(err == nil && (*blst.P1Affine)(k2).Equals(want), "key from coefficients is wrong (%v): %s", err, desc)
			_, err = lc.ComputeEpochSecretKey(shares[:th-1])
			h.Check(err != nil, "coefficients accept too few shares: %s", desc)
			_, err = lc.ComputeEpochSecretKey(append(append([]*EpochSecretKeyShare{}, shares...), shares[0]))
			h.Check(err != nil, "coefficients accept too many shares: %s", desc)
		}
		desc := fmt.Sprintf("keypers %v, polynomial %v", perm, cs)
		h.Case(desc)
		h.NoPanic(desc, func() {
			run(perm, desc)
			rev := make([]int, th)
			for j := range perm {
				rev[th-1-j] = perm[j]
			}
			run(rev, desc+" reversed")
			_, cs = zzPoly(h, th)
			want = zzP1((*blst.P1Affine)(id), cs[0])
			run(rev, fmt.Sprintf("keypers %v, polynomial %v", rev, cs))
		})
	}
}

func TestReplay_S09_verification(t *testing.T) {
	h := zzverif.New(t, "right and wrong shares and keys", "")
	for i := 0; i < h.N(40); i++ {
		sk := zzInt(h)
		idb := h.Bytes(h.R.Intn(12))
		id := ComputeEpochID(idb)
		pub := EonPublicKeyShare(*zzP2(sk))
		other := zzInt(h)
		if h.R.Intn(3) == 0 {
			other = new(big.Int).Mod(new(big.Int).Neg(sk), zzOrder)
		}
		desc := fmt.Sprintf("secret %v, epoch id of %x", sk, idb)
		h.Case(desc)
		h.NoPanic(desc, func() {
			s := EpochSecretKeyShare(*zzP1((*blst.P1Affine)(id), sk))
			h.Check(VerifyEpochSecretKeyShare(&s, &pub, id), "right share refused: %s", desc)
			b := EpochSecretKeyShare(*zzP1((*blst.P1Affine)(id), other))
			h.Check(VerifyEpochSecretKeyShare(&b, &pub, id) == (other.Cmp(sk) == 0), "share made with %v: %s", other, desc)
			id2 := ComputeEpochID(append(append([]byte{}, idb...), 1))
			h.Check(VerifyEpochSecretKeyShare(&s, &pub, id2) == (sk.Sign() == 0), "share of another epoch: %s", desc)
			z := EpochSecretKeyShare{}
			h.Check(VerifyEpochSecretKeyShare(&z, &pub, id) == (sk.Sign() == 0), "point at infinity: %s", desc)
			q := EonPublicKeyShare(*zzP2(other))
			h.Check(VerifyEpochSecretKeyShare(&s, &q, id) == (other.Cmp(sk) == 0), "under the key of %v: %s", other, desc)

			pk := EonPublicKey(*zzP2(sk))
			key := EpochSecretKey(s)
			ok, err := VerifyEpochSecretKey(&key, &pk, idb)
			h.Check(err == nil && ok, "right epoch key refused (%v): %s", err, desc)
			sigma, m := zzBlock(h), h.Bytes(h.R.Intn(70))
			ok, err = VerifyEpochSecretKeyDeterministic(&key, &pk, idb, sigma, m)
			h.Check(err == nil && ok, "right epoch key refused for message %x (%v): %s", m, err, desc)
			bad := EpochSecretKey(b)
			c := Encrypt(m, &pk, id, sigma)
			ok, err = VerifyEpochSecretKeyDeterministic(&bad, &pk, idb, sigma, m)
			want, dec := zzDecrypt(c, &bad)
			h.Check(err == nil && ok == (dec && bytes.Equal(want, m)), "epoch key made with %v gives %v, %v: %s", other, ok, err, desc)
			ok, err = VerifyEpochSecretKey(&bad, &pk, idb)
			h.Check(err == nil && ok == (sk.Cmp(other) == 0 || sk.Sign() == 0 && dec), "epoch key made with %v gives %v, %v: %s", other, ok, err, desc)
		})
	}
}

func TestReplay_S10_permutation(t *testing.T) {
	h := zzverif.New(t, "shuffles of random batches", "to 300 transactions, and some of 5000 and 70000")
	for i := 0; i < h.N(60); i++ {
		n := h.R.Intn(20)
		switch {
		case i < 12:
			n = i
		case i%15 == 0:
			n = 5000
		case i == 16:
			n = 70000
		case i%7 == 0:
			n = h.R.Intn(300)
		}
		k := zzMakeKeys(h)
		txs := make([][]byte, n, n+3)
		for j := range txs {
			txs[j] = []byte(fmt.Sprint(j))
			if h.R.Intn(5) == 0 {
				txs[j] = []byte{byte(h.R.Intn(2))}
			}
		}
		orig := make([]string, n)
		cnt := map[string]int{}
		for j := range txs {
			orig[j] = string(txs[j])
			cnt[orig[j]]++
		}
		desc := fmt.Sprintf("%d transactions, secret %v", n, k.sk)
		h.Case(desc)
		h.NoPanic(desc, func() {
			a := Shuffle(txs, k.key)
			for j := range txs {
				if string(txs[j]) != orig[j] {
					h.Fail("the caller's list changed at %d: %s", j, desc)
					return
				}
			}
			h.Check(len(a) == n, "%d transactions returned: %s", len(a), desc)
			for _, x := range a {
				cnt[string(x)]--
			}
			for x, c := range cnt {
				if c != 0 {
					h.Fail("transaction %q lost or repeated (%d): %s", x, c, desc)
					return
				}
			}
			if n > 0 {
				a0 := string(a[0])
				sh := a[0]
				a[0] = nil
				if string(txs[0]) != orig[0] {
					h.Fail("the result shares its list with the caller: %s", desc)
				}
				a[0] = sh
				_ = a0
			}
			b := Shuffle(append(make([][]byte, 0, n+40), txs...), k.key)
			for j := range b {
				if len(a) == len(b) && !bytes.Equal(a[j], b[j]) {
					h.Fail("a second shuffle of the same batch differs at %d: %s", j, desc)
					return
				}
			}
		})
	}
}
