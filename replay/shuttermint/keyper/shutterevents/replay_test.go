package shutterevents

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/zzverif"
)

func zzAddrs(h *zzverif.H, n int) (r []common.Address) {
	for i := 0; i < n; i++ {
		var a common.Address
		a[19] = byte(h.R.Intn(6))
		if h.R.Intn(4) == 0 {
			copy(a[:], h.Bytes(20))
		}
		r = append(r, a)
	}
	return
}

func TestReplay_K02_membership(t *testing.T) {
	h := zzverif.New(t, "random keyper lists against a plain search", "to 7 keypers")
	for n := 0; n < h.N(20000); n++ {
		bc := BatchConfig{Keypers: zzAddrs(h, h.R.Intn(8)), Threshold: uint64(h.R.Intn(9))}
		a := zzAddrs(h, 1)[0]
		if len(bc.Keypers) > 0 && h.R.Intn(2) == 0 {
			a = bc.Keypers[h.R.Intn(len(bc.Keypers))]
		}
		first := -1
		for i, k := range bc.Keypers {
			if k == a && first < 0 {
				first = i
			}
		}
		desc := fmt.Sprintf("keypers %x address %x threshold %d", bc.Keypers, a, bc.Threshold)
		h.Case(desc)
		h.NoPanic(desc, func() {
			i, ok := bc.KeyperIndex(a)
			h.Check(ok == (first >= 0) && (!ok || i < uint64(len(bc.Keypers)) && bc.Keypers[i] == a && int(i) == first), "index %d found %v; %s", i, ok, desc)
			h.Check(bc.IsKeyper(a) == (first >= 0), "IsKeyper %v; %s", bc.IsKeyper(a), desc)
		})
	}
}

func TestReplay_A03_valid(t *testing.T) {
	h := zzverif.New(t, "keyper counts and thresholds", "to 7 keypers")
	for n := 0; n < 8; n++ {
		for th := uint64(0); th < 10; th++ {
			for _, x := range []uint64{th, ^uint64(0) - th, 1<<63 - 2 + th} {
				bc := BatchConfig{Keypers: zzAddrs(h, n), Threshold: x}
				desc := fmt.Sprintf("%d keypers threshold %d", n, x)
				h.Case(desc)
				err := bc.EnsureValid()
				h.Check((err == nil) == (n > 0 && x > 0 && x <= uint64(n)), "error %v for %s", err, desc)
			}
		}
	}
}

func TestReplay_A06_config(t *testing.T) {
	h := zzverif.New(t, "random configuration messages against the wire rules", "to 6 keypers")
	for n := 0; n < h.N(20000); n++ {
		m := &shmsg.BatchConfig{
			StartBatchIndex: h.U64(), Threshold: h.U64(), ConfigIndex: h.U64(), Started: h.R.Intn(2) == 0, ValidatorsUpdated: h.R.Intn(2) == 0,
			ConfigContractAddress: h.Bytes(20),
		}
		ok := true
		seen := map[string]bool{}
		for i := h.R.Intn(7); i > 0; i-- {
			b := zzAddrs(h, 1)[0].Bytes()
			b[18] = byte(h.R.Intn(9))
			if h.R.Intn(20) == 0 {
				b = h.Bytes(h.R.Intn(42))
			}
			m.Keypers = append(m.Keypers, b)
			ok = ok && len(b) == 20 && !seen[string(b)]
			seen[string(b)] = true
		}
		if h.R.Intn(10) == 0 {
			m.ConfigContractAddress = h.Bytes(18 + h.R.Intn(5))
		}
		ok = ok && len(m.ConfigContractAddress) == 20
		desc := fmt.Sprintf("%+v keypers %x contract %x", m, m.Keypers, m.ConfigContractAddress)
		h.Case(desc)
		h.NoPanic(desc, func() {
			bc, err := BatchConfigFromMessage(m)
			h.Check(ok == (err == nil), "error %v although well formed is %v; %s", err, ok, desc)
			if err != nil || !ok {
				return
			}
			good := len(bc.Keypers) == len(m.Keypers) && bc.StartBatchIndex == m.StartBatchIndex && bc.Threshold == m.Threshold && bc.ConfigIndex == m.ConfigIndex &&
				bc.Started == m.Started && bc.ValidatorsUpdated == m.ValidatorsUpdated && string(bc.ConfigContractAddress[:]) == string(m.ConfigContractAddress) && bc.Height == 0
			for i := range m.Keypers {
				good = good && string(bc.Keypers[i][:]) == string(m.Keypers[i])
			}
			h.Check(good, "content changed: %+v; %s", bc, desc)
		})
	}
}

func zzShow(e IEvent) string {
	switch x := e.(type) {
	case *CheckIn:
		return fmt.Sprintf("checkin %d %x %x", x.Height, x.Sender, ethcrypto.FromECDSAPub(x.EncryptionPublicKey.ExportECDSA()))
	case *PolyCommitment:
		s := fmt.Sprintf("commitment %d %d %x", x.Height, x.Eon, x.Sender)
		for _, g := range *x.Gammas {
			s += fmt.Sprintf(" %x", g.Marshal())
		}
		return s
	case *EpochSecretKeyShare:
		return fmt.Sprintf("share %d %x %d %d %x", x.Height, x.Sender, x.Eon, x.Epoch, (*bn256.G1)(x.Share).Marshal())
	case *Apology:
		return fmt.Sprintf("apology %d %d %x %x %v", x.Height, x.Eon, x.Sender, x.Accusers, x.PolyEval)
	case *DecryptionSignature:
		return fmt.Sprintf("signature %d %d %x %x", x.Height, x.BatchIndex, x.Sender, x.Signature)
	case *PolyEval:
		return fmt.Sprintf("eval %d %d %x %x %x", x.Height, x.Eon, x.Sender, x.Receivers, x.EncryptedEvals)
	case *Accusation:
		return fmt.Sprintf("accusation %d %d %x %x", x.Height, x.Eon, x.Sender, x.Accused)
	case *BatchConfig:
		return fmt.Sprintf("config %d %x %d %d %d", x.Height, x.Keypers, x.StartBatchIndex, x.Threshold, x.ConfigIndex)
	}
	return fmt.Sprintf("%T %+v", e, e)
}

func zzEvent(h *zzverif.H, height int64) IEvent {
	a := zzAddrs(h, 1)[0]
	n := h.R.Intn(4)
	var evals [][]byte
	var ints []*big.Int
	for i := 0; i < n; i++ {
		evals = append(evals, h.Bytes(h.R.Intn(40)))
		ints = append(ints, new(big.Int).SetBytes(h.Bytes(h.R.Intn(33))))
	}
	switch h.R.Intn(9) {
	case 0:
		for {
			k, err := ethcrypto.ToECDSA(h.Bytes(32))
			if err == nil {
				return &CheckIn{Height: height, Sender: a, EncryptionPublicKey: ecies.ImportECDSAPublic(&k.PublicKey)}
			}
		}
	case 1:
		return &BatchConfig{Height: height, Keypers: zzAddrs(h, n), StartBatchIndex: h.U64(), Threshold: h.U64(), ConfigIndex: h.U64()}
	case 2:
		return &DecryptionSignature{Height: height, BatchIndex: h.U64(), Sender: a, Signature: h.Bytes(h.R.Intn(70))}
	case 3:
		return &EonStarted{Height: height, Eon: h.U64(), BatchIndex: h.U64()}
	case 4:
		g := shcrypto.Gammas{new(bn256.G2).ScalarBaseMult(big.NewInt(int64(h.R.Intn(9))))}
		for i := 0; i < n; i++ {
			g = append(g, new(bn256.G2).ScalarBaseMult(new(big.Int).SetBytes(h.Bytes(20))))
		}
		return &PolyCommitment{Height: height, Eon: h.U64(), Sender: a, Gammas: &g}
	case 5:
		return &PolyEval{Height: height, Eon: h.U64(), Sender: a, Receivers: zzAddrs(h, n), EncryptedEvals: evals}
	case 6:
		return &Accusation{Height: height, Eon: h.U64(), Sender: a, Accused: zzAddrs(h, n)}
	case 7:
		return &Apology{Height: height, Eon: h.U64(), Sender: a, Accusers: zzAddrs(h, n), PolyEval: ints}
	}
	s := shcrypto.EpochSecretKeyShare(*new(bn256.G1).ScalarBaseMult(new(big.Int).SetBytes(h.Bytes(20))))
	return &EpochSecretKeyShare{Height: height, Eon: h.U64(), Epoch: h.U64(), Sender: a, Share: &s}
}

func TestReplay_K13_roundtrips(t *testing.T) {
	h := zzverif.New(t, "random events encoded and decoded, and spoiled encodings", "to 4 list items")
	for n := 0; n < h.N(3000); n++ {
		height := int64(h.R.Intn(1 << 30))
		e := zzEvent(h, height)
		desc := zzShow(e)
		h.Case(desc)
		h.NoPanic(desc, func() {
			enc := e.MakeABCIEvent()
			got, err := MakeEvent(enc, height)
			if err != nil {
				h.Fail("decoding gives error %v; %s", err, desc)
				return
			}
			h.Check(zzShow(got) == desc, "decoded %s, encoded %s", zzShow(got), desc)
			// a spoiled encoding is refused or decodes to what it says
			bad := enc
			bad.Attributes = append([]abcitypes.EventAttribute(nil), enc.Attributes...)
			i := h.R.Intn(len(bad.Attributes))
			switch h.R.Intn(6) {
			case 0:
				bad.Attributes = bad.Attributes[:i]
			case 1:
				bad.Attributes[i].Key = append([]byte("x"), bad.Attributes[i].Key...)
			case 2:
				bad.Type += "x"
			case 3:
				bad.Attributes[i].Value = append([]byte("!"), bad.Attributes[i].Value...)
			case 4:
				if len(bad.Attributes[i].Value) == 0 {
					return
				}
				bad.Attributes[i].Value = append(append([]byte(nil), bad.Attributes[i].Value...), '/')
			default:
				bad.Attributes[i].Value = []byte("\x00")
			}
			ev, err := MakeEvent(bad, height)
			h.Check(err != nil, "malformed event %+v is decoded to %s", bad, func() string {
				if err != nil {
					return ""
				}
				return zzShow(ev)
			}())
		})
	}
}
