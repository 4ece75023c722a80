package observe

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/zzverif"
)

func zzStarts(h *zzverif.H, n int) []uint64 {
	var r []uint64
	x := uint64(h.R.Intn(3))
	for i := 0; i < n; i++ {
		r = append(r, x)
		if h.R.Intn(3) > 0 {
			x += uint64(h.R.Intn(4))
		}
	}
	return r
}

func TestReplay_K02_shutter(t *testing.T) {
	h := zzverif.New(t, "random ordered configuration lists against a reference search", "to 6 configurations")
	for n := 0; n < h.N(5000); n++ {
		num := h.R.Intn(6)
		sh := NewShutter()
		for i, s := range zzStarts(h, num) {
			bc := shutterevents.BatchConfig{StartBatchIndex: s, ConfigIndex: uint64(i) * 2, Height: int64(i) + 1}
			for k := 0; k < h.R.Intn(3); k++ {
				bc.Keypers = append(bc.Keypers, common.BigToAddress(common.Big1))
				bc.Keypers[k][3] = byte(h.R.Intn(4))
			}
			sh.BatchConfigs = append(sh.BatchConfigs, bc)
		}
		b := uint64(h.R.Intn(12))
		desc := fmt.Sprintf("configurations %+v batch %d", sh.BatchConfigs, b)
		h.Case(desc)
		want := shutterevents.BatchConfig{}
		for _, c := range sh.BatchConfigs {
			if c.StartBatchIndex <= b {
				want = c
			}
		}
		h.NoPanic(desc, func() {
			h.Check(reflect.DeepEqual(sh.FindBatchConfigByBatchIndex(b), want), "not the last configuration that started; %s", desc)
			ci := uint64(h.R.Intn(2*num + 3))
			got, err := sh.FindBatchConfigByConfigIndex(ci)
			found := false
			for _, c := range sh.BatchConfigs {
				if c.ConfigIndex == ci {
					found = true
					h.Check(err == nil && reflect.DeepEqual(got, c), "configuration with index %d is not the one found; %s", ci, desc)
				}
			}
			h.Check(found == (err == nil), "configuration index %d: found %v error %v; %s", ci, found, err, desc)
			var a common.Address
			a[3], a[19] = byte(h.R.Intn(4)), 1
			is := false
			for _, c := range sh.BatchConfigs {
				for _, k := range c.Keypers {
					is = is || k == a
				}
			}
			h.Check(sh.IsKeyper(a) == is, "IsKeyper(%v) should be %v; %s", a, is, desc)
		})
	}
}

func TestReplay_K02_mainchain(t *testing.T) {
	h := zzverif.New(t, "random ordered configuration lists against a reference search", "to 6 configurations")
	for n := 0; n < h.N(5000); n++ {
		m := NewMainChain(0)
		sb, sx := zzStarts(h, 1+h.R.Intn(5)), []uint64(nil)
		sx = zzStarts(h, len(sb))
		for i := range sb {
			bc := contract.BatchConfig{StartBlockNumber: sb[i], StartBatchIndex: sx[i], Threshold: uint64(i), BatchSpan: uint64(h.R.Intn(3))}
			if h.R.Intn(2) == 0 {
				bc.Keypers = []common.Address{{byte(h.R.Intn(3))}}
			}
			m.BatchConfigs = append(m.BatchConfigs, bc)
		}
		b := uint64(h.R.Intn(12))
		m.CurrentBlock = b
		desc := fmt.Sprintf("configurations %+v number %d", m.BatchConfigs, b)
		h.Case(desc)
		lastBlock, lastBatch := -1, -1
		for i := range sb {
			if sb[i] <= b {
				lastBlock = i
			}
			if sx[i] <= b {
				lastBatch = i
			}
		}
		if lastBlock >= 0 {
			h.NoPanic(desc, func() {
				h.Check(m.ActiveConfigIndex(b) == lastBlock, "active configuration %d instead of %d; %s", m.ActiveConfigIndex(b), lastBlock, desc)
				h.Check(reflect.DeepEqual(m.ActiveConfig(b), m.BatchConfigs[lastBlock]), "wrong active configuration; %s", desc)
				h.Check(reflect.DeepEqual(m.CurrentConfig(), m.BatchConfigs[lastBlock]), "wrong current configuration; %s", desc)
				h.Check(reflect.DeepEqual(m.ActiveConfigs(), m.BatchConfigs[lastBlock:]), "wrong active configurations; %s", desc)
				a := common.Address{byte(h.R.Intn(4))}
				is := false
				for _, c := range m.BatchConfigs[lastBlock:] {
					for _, k := range c.Keypers {
						is = is || k == a
					}
				}
				h.Check(m.IsActiveKeyper(a) == is, "IsActiveKeyper(%v) should be %v; %s", a, is, desc)
			})
		}
		if lastBatch >= 0 {
			h.NoPanic(desc, func() {
				i, ok := m.ConfigIndexForBatchIndex(b)
				c, ok2 := m.ConfigForBatchIndex(b)
				act := m.BatchConfigs[lastBatch].BatchSpan != 0
				h.Check(ok == act && ok2 == act && (!act || i == lastBatch && reflect.DeepEqual(c, m.BatchConfigs[lastBatch])), "configuration %d found %v for the batch instead of %d found %v; %s", i, ok, lastBatch, act, desc)
			})
		}
	}
}

func zzCopy(s *Shutter) *Shutter {
	r := *s
	r.KeyperEncryptionKeys = map[common.Address]*EncryptionPublicKey{}
	for k, v := range s.KeyperEncryptionKeys {
		r.KeyperEncryptionKeys[k] = v
	}
	r.BatchConfigs = append([]shutterevents.BatchConfig(nil), s.BatchConfigs...)
	r.Batches = map[uint64]*BatchData{}
	for k, v := range s.Batches {
		r.Batches[k] = &BatchData{v.BatchIndex, append([]shutterevents.DecryptionSignature(nil), v.DecryptionSignatures...)}
	}
	r.Eons = nil
	for _, e := range s.Eons {
		r.Eons = append(r.Eons, *zzFilter(&e, -1))
	}
	return &r
}

// zzFilter is a plain filter of all event lists.
func zzFilter(e *Eon, height int64) *Eon {
	r := &Eon{Eon: e.Eon, StartHeight: e.StartHeight, StartEvent: e.StartEvent}
	for _, x := range e.Commitments {
		if x.Height >= height {
			r.Commitments = append(r.Commitments, x)
		}
	}
	for _, x := range e.PolyEvals {
		if x.Height >= height {
			r.PolyEvals = append(r.PolyEvals, x)
		}
	}
	for _, x := range e.Accusations {
		if x.Height >= height {
			r.Accusations = append(r.Accusations, x)
		}
	}
	for _, x := range e.Apologies {
		if x.Height >= height {
			r.Apologies = append(r.Apologies, x)
		}
	}
	for _, x := range e.EpochSecretKeyShares {
		if x.Height >= height {
			r.EpochSecretKeyShares = append(r.EpochSecretKeyShares, x)
		}
	}
	return r
}

func zzEqual(a, b *Shutter) bool {
	return fmt.Sprintf("%+v", zzPlain(a)) == fmt.Sprintf("%+v", zzPlain(b))
}

func zzPlain(s *Shutter) interface{} {
	c := map[uint64]BatchData{}
	for k, v := range s.Batches {
		c[k] = *v
	}
	keys := map[common.Address]string{}
	for k, v := range s.KeyperEncryptionKeys {
		keys[k] = fmt.Sprintf("%p", v)
	}
	return []interface{}{s.CurrentBlock, s.LastCommittedHeight, keys, s.BatchConfigs, c, s.Eons, s.Filter}
}

func TestReplay_K11_events(t *testing.T) {
	h := zzverif.New(t, "random event histories and filters against a plain record", "40 events, four eons")
	for n := 0; n < h.N(150); n++ {
		sh, ref := NewShutter(), NewShutter()
		height := int64(1)
		log := ""
		eon := func(e uint64) *Eon {
			for i := range ref.Eons {
				if ref.Eons[i].Eon == e {
					return &ref.Eons[i]
				}
			}
			return nil
		}
		for s := 0; s < 40; s++ {
			height += int64(h.R.Intn(2))
			e := uint64(1+h.R.Intn(4)) * 2
			if h.R.Intn(8) == 0 {
				e--
			}
			a := common.Address{byte(h.R.Intn(5))}
			var ev shutterevents.IEvent
			switch h.R.Intn(10) {
			case 0:
				x := &shutterevents.CheckIn{Height: height, Sender: a}
				ev = x
				ref.KeyperEncryptionKeys[a] = nil
			case 1:
				x := &shutterevents.BatchConfig{Height: height, StartBatchIndex: uint64(s), ConfigIndex: uint64(h.R.Intn(4))}
				ev = x
				ref.BatchConfigs = append(ref.BatchConfigs, *x)
			case 2:
				x := &shutterevents.DecryptionSignature{Height: height, BatchIndex: uint64(h.R.Intn(3)), Sender: a, Signature: h.Bytes(2)}
				ev = x
				if ref.Batches[x.BatchIndex] == nil {
					ref.Batches[x.BatchIndex] = &BatchData{BatchIndex: x.BatchIndex}
				}
				b := ref.Batches[x.BatchIndex]
				b.DecryptionSignatures = append(b.DecryptionSignatures, *x)
			case 3, 4:
				x := &shutterevents.EonStarted{Height: height, Eon: e, BatchIndex: uint64(h.R.Intn(6))}
				ev = x
				if len(ref.Eons) == 0 || ref.Eons[len(ref.Eons)-1].Eon < e {
					ref.Eons = append(ref.Eons, Eon{Eon: e, StartEvent: *x, StartHeight: height})
				}
			case 5:
				x := &shutterevents.PolyCommitment{Height: height, Eon: e, Sender: a}
				ev = x
				if r := eon(e); r != nil {
					r.Commitments = append(r.Commitments, *x)
				}
			case 6:
				x := &shutterevents.PolyEval{Height: height, Eon: e, Sender: a, EncryptedEvals: [][]byte{h.Bytes(1)}}
				ev = x
				if r := eon(e); r != nil {
					r.PolyEvals = append(r.PolyEvals, *x)
				}
			case 7:
				x := &shutterevents.Accusation{Height: height, Eon: e, Sender: a}
				ev = x
				if r := eon(e); r != nil {
					r.Accusations = append(r.Accusations, *x)
				}
			case 8:
				x := &shutterevents.Apology{Height: height, Eon: e, Sender: a}
				ev = x
				if r := eon(e); r != nil {
					r.Apologies = append(r.Apologies, *x)
				}
			default:
				x := &shutterevents.EpochSecretKeyShare{Height: height, Eon: e, Sender: a, Epoch: uint64(s)}
				ev = x
				if r := eon(e); r != nil {
					r.EpochSecretKeyShares = append(r.EpochSecretKeyShares, *x)
				}
			}
			log += fmt.Sprintf("; %T%+v", ev, ev)
			h.NoPanic(log, func() { sh.applyEvent(ev) })
			h.Case(log)
			h.Check(zzEqual(sh, ref), "after%s: state %+v, expected %+v", log, zzPlain(sh), zzPlain(ref))
			b := uint64(h.R.Intn(7))
			h.NoPanic(log, func() {
				got, err := sh.FindEonByBatchIndex(b)
				var want *Eon
				for i := range ref.Eons {
					if ref.Eons[i].StartEvent.BatchIndex <= b {
						want = &ref.Eons[i]
					}
				}
				h.Check((err == nil) == (want != nil) && (err != nil || got.Eon == want.Eon), "eon of batch %d: %+v %v, expected %+v; %s", b, got, err, want, log)
				got, err = sh.FindEon(e)
				h.Check((err == nil) == (eon(e) != nil) && (err != nil || got.Eon == e), "lookup of eon %d: %+v %v; %s", e, got, err, log)
				h.Check((err == nil) == (eon(e) != nil) && (err != nil || got == &sh.Eons[sh.searchEon(e)]), "lookup of eon %d; %s", e, log)
				if err == nil {
					fh := int64(h.R.Intn(int(height) + 2))
					w := zzFilter(got, fh)
					g := &Eon{
						Eon: w.Eon, StartHeight: w.StartHeight, StartEvent: w.StartEvent,
						Commitments: got.GetPolyCommitments(fh), PolyEvals: got.GetPolyEvals(fh), Accusations: got.GetAccusations(fh),
						Apologies: got.GetApologies(fh), EpochSecretKeyShares: got.GetEpochSecretKeyShares(fh),
					}
					h.Check(fmt.Sprint(g) == fmt.Sprint(w), "events of eon %d from height %d: %+v, expected %+v; %s", e, fh, g, w, log)
				}
			})
			if h.R.Intn(6) == 0 {
				f := ShutterFilter{SyncHeight: int64(h.R.Intn(int(height) + 3)), BatchIndex: uint64(h.R.Intn(4))}
				before := zzCopy(sh)
				var out *Shutter
				log += fmt.Sprintf("; filter %+v", f)
				h.NoPanic(log, func() { out = sh.ApplyFilter(f) })
				want := zzCopy(before)
				if f.SyncHeight > before.Filter.SyncHeight || f.BatchIndex > before.Filter.BatchIndex {
					want.Filter = f
					for i := range want.Eons {
						want.Eons[i] = *zzFilter(&want.Eons[i], f.SyncHeight)
					}
					for k := range want.Batches {
						if k < f.BatchIndex {
							delete(want.Batches, k)
						}
					}
				}
				h.Check(zzEqual(out, want), "filtered state %+v, expected %+v; %s", zzPlain(out), zzPlain(want), log)
				h.Check(zzEqual(sh, before), "filtering changed its input: %+v was %+v; %s", zzPlain(sh), zzPlain(before), log)
				if h.R.Intn(2) == 0 {
					sh = zzCopy(out)
					ref = zzCopy(want)
				}
			}
		}
	}
}
