package contract

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/zzverif"
)

func zzPanics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func TestReplay_K01_periods(t *testing.T) {
	h := zzverif.New(t, "random configurations and blocks, compared with exact integers", "values without wrap-around")
	for n := 0; n < h.N(20000); n++ {
		small := func() uint64 {
			if h.R.Intn(3) == 0 {
				return uint64(h.R.Int63()) >> 2
			}
			return uint64(h.R.Intn(50))
		}
		bc := BatchConfig{StartBatchIndex: small(), StartBlockNumber: small(), BatchSpan: 1 + small(), ExecutionTimeout: small()}
		if h.R.Intn(10) == 0 {
			bc.BatchSpan = 0
		}
		var b uint64
		switch h.R.Intn(4) {
		case 0:
			b = h.U64()
		case 1:
			if bc.BatchSpan > 0 && bc.BatchSpan < 1<<20 {
				b = bc.StartBlockNumber + bc.BatchSpan*uint64(h.R.Intn(40)) - uint64(h.R.Intn(2))
			}
		default:
			b = bc.StartBlockNumber + uint64(h.R.Intn(300)) - uint64(h.R.Intn(3))
		}
		desc := fmt.Sprintf("start batch %d start block %d span %d block %d", bc.StartBatchIndex, bc.StartBlockNumber, bc.BatchSpan, b)
		h.Case(desc)
		var k uint64
		p := zzPanics(func() { k = bc.BatchIndex(b) })
		h.Check(p == (b < bc.StartBlockNumber), "batch of a block panics: %v; %s", p, desc)
		if p {
			continue
		}
		z := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
		if bc.BatchSpan == 0 {
			h.Check(k == bc.StartBatchIndex, "inactive configuration gives batch %d; %s", k, desc)
		} else {
			q := new(big.Int).Div(new(big.Int).Sub(z(b), z(bc.StartBlockNumber)), z(bc.BatchSpan))
			q.Add(q, z(bc.StartBatchIndex))
			if q.IsUint64() {
				h.Check(k == q.Uint64(), "block belongs to batch %d instead of %v; %s", k, q, desc)
			}
		}
		i := bc.StartBatchIndex + uint64(h.R.Intn(40)) - uint64(h.R.Intn(3))
		if h.R.Intn(5) == 0 {
			i = k
		}
		desc += fmt.Sprintf(" batch %d", i)
		var s, e uint64
		p = zzPanics(func() { s, e = bc.BatchStartBlock(i), bc.BatchEndBlock(i) })
		h.Check(p == (i < bc.StartBatchIndex), "period of a batch panics: %v; %s", p, desc)
		if p {
			continue
		}
		ws := new(big.Int).Mul(new(big.Int).Sub(z(i), z(bc.StartBatchIndex)), z(bc.BatchSpan))
		ws.Add(ws, z(bc.StartBlockNumber))
		we := new(big.Int).Add(ws, z(bc.BatchSpan))
		if we.IsUint64() {
			h.Check(s == ws.Uint64() && e == we.Uint64(), "period is %d..%d instead of %v..%v; %s", s, e, ws, we, desc)
		}
	}
}

func TestReplay_K02_keypers(t *testing.T) {
	h := zzverif.New(t, "random keyper lists", "to 8 keypers")
	for n := 0; n < h.N(3000); n++ {
		var bc BatchConfig
		mk := func(i int) (a common.Address) { a[i%20] = byte(1 + i); return }
		for i := 0; i < h.R.Intn(9); i++ {
			bc.Keypers = append(bc.Keypers, mk(h.R.Intn(10)))
		}
		a := mk(h.R.Intn(11))
		want, ok := uint64(0), false
		for i := len(bc.Keypers) - 1; i >= 0; i-- {
			if bc.Keypers[i] == a {
				want, ok = uint64(i), true
			}
		}
		desc := fmt.Sprintf("%x in %x", a, bc.Keypers)
		h.Case(desc)
		i, found := bc.KeyperIndex(a)
		h.Check(found == ok && (!ok || i == want), "index %d, %v; %s", i, found, desc)
		h.Check(bc.IsKeyper(a) == ok, "membership %v; %s", bc.IsKeyper(a), desc)
	}
}

func TestReplay_K08_format(t *testing.T) {
	h := zzverif.New(t, "random signature lists", "to 5 signatures")
	for n := 0; n < h.N(1000); n++ {
		var sigs [][]byte
		for i := 0; i < h.R.Intn(6); i++ {
			s := make([]byte, 65, 65+h.R.Intn(3))
			h.R.Read(s)
			s[64] = byte(h.R.Intn(2))
			sigs = append(sigs, s)
		}
		desc := fmt.Sprintf("%x", sigs)
		h.Case(desc)
		h.NoPanic(desc, func() {
			for rep := 0; rep < 2; rep++ {
				got := SignaturesToContractFormat(sigs)
				h.Check(len(got) == len(sigs), "%d signatures; %s", len(got), desc)
				for i := range sigs {
					if i >= len(got) {
						break
					}
					w := append([]byte{}, sigs[i]...)
					w[64] += 27
					h.Check(bytes.Equal(w, got[i]), "signature %d is %x; %s", i, got[i], desc)
					one := SignatureToContractFormat(sigs[i])
					h.Check(bytes.Equal(w, one), "signature %d alone is %x; %s", i, one, desc)
				}
				h.Check(fmt.Sprintf("%x", sigs) == desc, "the signatures were changed to %x; %s", sigs, desc)
			}
		})
	}
}
