package shmsg

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/ethereum/go-ethereum/crypto"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shuttermint/zzverif"
)

func TestReplay_K14_messages(t *testing.T) {
	h := zzverif.New(t, "random messages, altered and cut", "to 200000 bytes")
	for n := 0; n < h.N(60); n++ {
		kb := h.Bytes(32)
		kb[0] = 1
		key, err := crypto.ToECDSA(kb)
		if err != nil {
			continue
		}
		me := crypto.PubkeyToAddress(key.PublicKey)
		size := []int{0, 1, 30, 300, 5000, 70000, 200000}[h.R.Intn(7)]
		m := &MessageWithNonce{ChainId: h.Bytes(size), RandomNonce: h.U64()}
		if h.R.Intn(2) == 0 {
			m.Msg = NewDecryptionSignature(h.U64(), h.Bytes(h.R.Intn(70)))
		}
		desc := fmt.Sprintf("key %x nonce %d chain id of %d bytes", kb, m.RandomNonce, size)
		h.Case(desc)
		h.NoPanic(desc, func() {
			s, err := SignMessage(m, key)
			if err != nil {
				h.Fail("signing: %v; %s", err, desc)
				return
			}
			keep := append([]byte{}, s...)
			who, err := GetSigner(s)
			h.Check(err == nil && who == me, "signer %x, %v; %s", who, err, desc)
			got, err := GetMessage(s)
			h.Check(err == nil && proto.Equal(got, m), "the message comes back different (%v); %s", err, desc)
			raw, _ := proto.Marshal(m)
			h.Check(bytes.Equal(s[65:], raw), "the signed bytes are not the message; %s", desc)
			h.Check(bytes.Equal(s, keep), "reading changes the signed message; %s", desc)
			for k := 0; k < 12; k++ {
				b := append([]byte{}, s...)
				i := h.R.Intn(len(b))
				if h.R.Intn(3) == 0 {
					i = len(b) - 1 - h.R.Intn(3)
				}
				switch h.R.Intn(4) {
				case 0:
					b = append(b, byte(h.R.Intn(256)))
				case 1:
					if len(b) == 65 {
						continue
					}
					b = b[:len(b)-1]
				case 2:
					if i == 64 {
						continue
					}
					b = append(b[:i], b[i+1:]...)
				default:
					b[i] ^= byte(1 + h.R.Intn(255))
				}
				if bytes.Equal(b, s) {
					continue
				}
				who, err := GetSigner(b)
				h.Check(err != nil || who != me, "changed at byte %d of %d it still has the signer; %s", i, len(s), desc)
			}
			for l := 0; l < 65; l += 1 + h.R.Intn(9) {
				_, err := GetSigner(s[:l])
				h.Check(err != nil, "%d bytes are taken for a signed message", l)
			}
		})
	}
}
