package epochkg

import (
	"fmt"
	"math/big"
	"testing"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/zzverif"
)

func TestReplay_K05_histories(t *testing.T) {
	h := zzverif.New(t, "random share histories against an independent record", "to 5 keypers, three epochs, 25 shares")
	for n := 0; n < h.N(25); n++ {
		num := 1 + h.R.Intn(5)
		th := 1 + h.R.Intn(num)
		var cs []*big.Int
		for i := 0; i < th; i++ {
			cs = append(cs, new(big.Int).Rand(h.R, bn256.Order))
		}
		poly, err := shcrypto.NewPolynomial(cs)
		if err != nil {
			t.Fatal(err)
		}
		gs := []*shcrypto.Gammas{poly.Gammas()}
		var pub []*shcrypto.EonPublicKeyShare
		for i := 0; i < num; i++ {
			pub = append(pub, shcrypto.ComputeEonPublicKeyShare(i, gs))
		}
		kg := NewEpochKG(&puredkg.Result{
			Eon: 1, NumKeypers: uint64(num), Threshold: uint64(th), Keyper: 0,
			SecretKeyShare: shcrypto.ComputeEonSecretKeyShare([]*big.Int{poly.EvalForKeyper(0)}),
			PublicKey:      shcrypto.ComputeEonPublicKey(gs), PublicKeyShares: pub,
		})
		idOf := func(e uint64) *shcrypto.EpochID {
			b := make([]byte, 8)
			for i := range b {
				b[i] = byte(e >> uint(56-8*i))
			}
			return shcrypto.ComputeEpochID(b)
		}
		secret := shcrypto.ComputeEonSecretKeyShare([]*big.Int{cs[0]})
		share := func(i int, e uint64) *shcrypto.EpochSecretKeyShare {
			return shcrypto.ComputeEpochSecretKeyShare(shcrypto.ComputeEonSecretKeyShare([]*big.Int{poly.EvalForKeyper(i)}), idOf(e))
		}
		counted := map[uint64]map[int]bool{}
		done := map[uint64]bool{}
		log := fmt.Sprintf("%d keypers threshold %d secret %v", num, th, cs)
		h.NoPanic(log, func() {
			for s := 0; s < 25; s++ {
				e := uint64(7 + h.R.Intn(3))
				if e == 9 {
					e = 1 << 40
				}
				from := h.R.Intn(num)
				if own := kg.ComputeEpochSecretKeyShare(e); !own.Equal(share(0, e)) {
					h.Fail("own share of epoch %d is wrong; %s", e, log)
				}
				good := h.R.Intn(5) > 0
				sh := share(from, e)
				if !good {
					switch kind := h.R.Intn(3); {
					case kind == 0:
						sh = (*shcrypto.EpochSecretKeyShare)(new(bn256.G1).ScalarBaseMult(big.NewInt(int64(3 + h.R.Intn(9)))))
					case kind == 1 || th == 1:
						sh = share(from, e+1)
					default:
						sh = share(from+1, e)
					}
				}
				log += fmt.Sprintf("; share of %d for epoch %d valid %v", from, e, good)
				err := kg.HandleEpochSecretKeyShare(&EpochSecretKeyShare{Eon: 1, Epoch: e, Sender: uint64(from), Share: sh})
				if counted[e] == nil {
					counted[e] = map[int]bool{}
				}
				if !done[e] {
					ok := good && !counted[e][from]
					h.Check((err == nil) == ok, "error %v, should count: %v; %s", err, ok, log)
					if ok {
						counted[e][from] = true
						done[e] = len(counted[e]) == th
					}
				}
				for ep := range counted {
					k, have := kg.SecretKeys[ep]
					h.Check(have == done[ep], "key of epoch %d known: %v; %s", ep, have, log)
					if have && done[ep] {
						want := (*shcrypto.EpochSecretKey)(shcrypto.ComputeEpochSecretKeyShare(secret, idOf(ep)))
						h.Check(k != nil && k.Equal(want), "wrong key of epoch %d; %s", ep, log)
					}
				}
			}
		})
		h.Case(log)
	}
}
