package keyper

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/ed25519"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/zzverif"
)

func zzKeys(h *zzverif.H, n int) (keys []*ecdsa.PrivateKey, addrs []common.Address) {
	for len(keys) < n {
		k, err := crypto.ToECDSA(h.Bytes(32))
		if err == nil {
			keys, addrs = append(keys, k), append(addrs, crypto.PubkeyToAddress(k.PublicKey))
		}
	}
	return
}

func TestReplay_K03_phases(t *testing.T) {
	h := zzverif.New(t, "phase schedules and heights against the definition", "cumulative lengths up to 60")
	for n := 0; n < h.N(4000); n++ {
		off := int64(h.R.Intn(4))
		p := PhaseLength{Off: off, Dealing: off + int64(h.R.Intn(20)), Accusing: 0, Apologizing: 0}
		p.Accusing = p.Dealing + int64(h.R.Intn(20))
		p.Apologizing = p.Accusing + int64(h.R.Intn(20))
		if n%3 == 0 {
			l := int64(h.R.Intn(30))
			p = NewConstantPhaseLength(l)
			h.Check(p == PhaseLength{0, l, 2 * l, 3 * l}, "constant schedule of length %d is %+v", l, p)
		}
		start := int64(h.R.Intn(1000))
		last := puredkg.Off
		for d := int64(-3); d < p.Apologizing+5; d++ {
			want := puredkg.Finalized
			switch {
			case d < p.Off:
				want = puredkg.Off
			case d < p.Dealing:
				want = puredkg.Dealing
			case d < p.Accusing:
				want = puredkg.Accusing
			case d < p.Apologizing:
				want = puredkg.Apologizing
			}
			got := p.getPhaseAtHeight(start+d, start)
			h.Casef("%+v %d %d", p, start, d)
			h.Check(got == want, "phase %v instead of %v at height %d, eon start %d, schedule %+v", got, want, start+d, start, p)
			h.Check(got >= last, "phase goes back at height %d, eon start %d, schedule %+v", start+d, start, p)
			last = got
		}
	}
}

func zzHash(parts ...[]byte) []byte { return crypto.Keccak256(parts...) }

func TestReplay_K15_hashes(t *testing.T) {
	h := zzverif.New(t, "random transaction lists and hash fields against the definition", "to 6 transactions of 80 bytes")
	for n := 0; n < h.N(3000); n++ {
		var txs [][]byte
		want := make([]byte, 32)
		for i := h.R.Intn(6); i > 0; i-- {
			var tx []byte
			switch h.R.Intn(4) {
			case 0:
				tx = []byte{}
			case 1:
				tx = bytes.Repeat([]byte{1}, h.R.Intn(3))
			default:
				tx = h.Bytes(h.R.Intn(80))
			}
			if h.R.Intn(4) == 0 && len(txs) > 0 {
				tx = txs[0]
			}
			txs = append(txs, tx)
			want = zzHash(tx, want)
		}
		h.Casef("%x", txs)
		h.NoPanic(fmt.Sprintf("transactions %x", txs), func() {
			got := transactionsHash(txs)
			h.Check(bytes.Equal(got, want), "hash of %x is %x instead of %x", txs, got, want)
			d := &Decider{State: NewState(), MainChain: observe.NewMainChain(0)}
			copy(d.Config.BatcherContractAddress[:], h.Bytes(20))
			b, c := h.U64(), h.Bytes(32)
			var be [8]byte
			binary.BigEndian.PutUint64(be[:], b)
			w := zzHash(hashPrefix, d.Config.BatcherContractAddress[:], be[:], c, want)
			g := d.computeDecryptionSignatureHash(b, c, want)
			h.Check(bytes.Equal(g, w), "hash for batcher %x batch %d cipher hash %x batch hash %x is %x instead of %x", d.Config.BatcherContractAddress, b, c, want, g, w)
		})
	}
}

// zzWorld is a random main chain with one keyper's view of its batches.
func zzWorld(h *zzverif.H) (d *Decider, keys []*ecdsa.PrivateKey, desc string) {
	num := 1 + h.R.Intn(5)
	keys, addrs := zzKeys(h, num+2)
	d = &Decider{State: NewState(), MainChain: observe.NewMainChain(0), Shutter: observe.NewShutter()}
	d.Config.SigningKey = keys[h.R.Intn(num)]
	d.MainChain.BatchConfigs = []contract.BatchConfig{
		{BatchSpan: 5, Keypers: addrs[:num], Threshold: uint64(1 + h.R.Intn(num))},
	}
	if h.R.Intn(2) == 0 {
		p := h.R.Perm(num + 1)
		var other []common.Address
		for _, i := range p {
			other = append(other, addrs[i])
		}
		d.MainChain.BatchConfigs = append(d.MainChain.BatchConfigs, contract.BatchConfig{
			StartBatchIndex: 2, StartBlockNumber: 10, BatchSpan: 5, Keypers: other, Threshold: uint64(1 + h.R.Intn(num+1)),
		})
	}
	d.MainChain.NumExecutionHalfSteps = uint64(h.R.Intn(9))
	d.State.HalfStepsChecked = uint64(h.R.Intn(3))
	d.Actions = append(d.Actions, &fx.SkipCipherBatch{BatchIndex: 1234})
	desc = fmt.Sprintf("configurations %+v, %d half steps, %d checked", d.MainChain.BatchConfigs, d.MainChain.NumExecutionHalfSteps, d.State.HalfStepsChecked)
	for b := uint64(0); b < 4; b++ {
		bh := h.Bytes(32)
		if h.R.Intn(6) > 0 {
			sb := &Batch{BatchIndex: b, DecryptionSignatureHash: h.Bytes(32), DecryptedBatchHash: bh}
			d.State.Batches[b] = sb
			var evs []shutterevents.DecryptionSignature
			for i := h.R.Intn(9); i > 0; i-- {
				k := h.R.Intn(len(keys))
				msg := sb.DecryptionSignatureHash
				bad := h.R.Intn(4) == 0
				if bad {
					msg = h.Bytes(32)
				}
				sig, err := crypto.Sign(msg, keys[k])
				if err != nil {
					continue
				}
				if h.R.Intn(10) == 0 {
					bad = true
					sig[64] += 27
				}
				from := addrs[k]
				if h.R.Intn(8) == 0 {
					from = addrs[h.R.Intn(len(addrs))]
				}
				evs = append(evs, shutterevents.DecryptionSignature{BatchIndex: b, Sender: from, Signature: sig})
				desc += fmt.Sprintf("; batch %d: signature of %x sent by %x spoiled %v", b, addrs[k], from, bad)
			}
			d.Shutter.Batches[b] = &observe.BatchData{BatchIndex: b, DecryptionSignatures: evs}
		}
		if h.R.Intn(4) > 0 {
			r := &contract.CipherExecutionReceipt{Executed: true, HalfStep: 2 * b}
			copy(r.BatchHash[:], bh)
			same := h.R.Intn(2) == 0
			if !same {
				copy(r.BatchHash[h.R.Intn(31):], []byte{77, 78}[:1+h.R.Intn(1)])
			}
			d.MainChain.CipherExecutionReceipts[2*b] = r
			desc += fmt.Sprintf("; receipt for half step %d with same hash %v", 2*b, bytes.Equal(r.BatchHash[:], bh))
		}
		if h.R.Intn(2) == 0 {
			a := &observe.Accusation{HalfStep: 2 * b, Appealed: h.R.Intn(4) == 0}
			d.MainChain.Accusations[2*b] = a
			desc += fmt.Sprintf("; accusation for half step %d appealed %v", 2*b, a.Appealed)
		}
		if h.R.Intn(6) == 0 {
			d.State.PendingAppeals[2*b] = struct{}{}
			desc += fmt.Sprintf("; appeal pending for half step %d", 2*b)
		}
	}
	return d, keys, desc
}

func zzConfig(d *Decider, b uint64) contract.BatchConfig {
	var c contract.BatchConfig
	for _, x := range d.MainChain.BatchConfigs {
		if x.StartBatchIndex <= b {
			c = x
		}
	}
	return c
}

func TestReplay_K08_decisions(t *testing.T) {
	h := zzverif.New(t, "random chains with receipts, accusations and signatures against the rules for appeals and accusations", "to 6 keypers, four batches")
	for n := 0; n < h.N(500); n++ {
		d, _, desc := zzWorld(h)
		h.Case(desc)
		orig := map[string]string{}
		for b, x := range d.Shutter.Batches {
			orig[fmt.Sprint(b)] = fmt.Sprintf("%x", x.DecryptionSignatures)
		}
		h.NoPanic(desc, func() {
			for b, sb := range d.State.Batches {
				d.syncBatch(sb)
				c := zzConfig(d, b)
				for a, sig := range sb.VerifiedSignatures {
					pk, err := crypto.SigToPub(sb.DecryptionSignatureHash, sig)
					h.Check(err == nil && crypto.PubkeyToAddress(*pk) == a, "collected a signature for batch %d that %x did not give: %x; %s", b, a, sig, desc)
					listed := false
					for _, k := range c.Keypers {
						listed = listed || k == a
					}
					h.Check(listed, "collected a signature for batch %d by %x, not a keyper; %s", b, a, desc)
				}
			}
			pending := map[uint64]bool{}
			for x := range d.State.PendingAppeals {
				pending[x] = true
			}
			before := append([]fx.IAction(nil), d.Actions...)
			d.maybeAppeal()
			h.Check(len(d.Actions) >= len(before) && reflect.DeepEqual(d.Actions[:len(before)], before), "earlier actions changed; %s", desc)
			seen := map[uint64]bool{}
			for _, x := range d.Actions[len(before):] {
				a, ok := x.(*fx.Appeal)
				if !ok {
					h.Fail("planned %v instead of an appeal; %s", x, desc)
					continue
				}
				au := a.Authorization
				acc, rec, sb := d.MainChain.Accusations[au.HalfStep], d.MainChain.CipherExecutionReceipts[au.HalfStep], d.State.Batches[au.HalfStep/2]
				h.Check(acc != nil && !acc.Appealed && !pending[au.HalfStep] && !seen[au.HalfStep], "appeal for half step %d without an open accusation or twice; %s", au.HalfStep, desc)
				seen[au.HalfStep] = true
				_, marked := d.State.PendingAppeals[au.HalfStep]
				h.Check(marked, "appeal for half step %d is not marked as sent; %s", au.HalfStep, desc)
				if rec == nil || sb == nil {
					h.Fail("appeal for half step %d without receipt or batch; %s", au.HalfStep, desc)
					continue
				}
				h.Check(bytes.Equal(rec.BatchHash[:], sb.DecryptedBatchHash) && au.BatchHash == rec.BatchHash, "appeal for half step %d with hash %x, executed %x, decrypted %x; %s", au.HalfStep, au.BatchHash, rec.BatchHash, sb.DecryptedBatchHash, desc)
				c := zzConfig(d, au.HalfStep/2)
				h.Check(uint64(len(au.SignerIndices)) >= c.Threshold && len(au.SignerIndices) == len(au.Signatures), "appeal for half step %d with %d signers, %d signatures, threshold %d; %s", au.HalfStep, len(au.SignerIndices), len(au.Signatures), c.Threshold, desc)
				for i, k := range au.SignerIndices {
					h.Check(i == 0 || au.SignerIndices[i-1] < k, "signer indices %v; %s", au.SignerIndices, desc)
					if k >= uint64(len(c.Keypers)) || i >= len(au.Signatures) || len(au.Signatures[i]) != 65 || au.Signatures[i][64] < 27 {
						h.Fail("signature %d of the appeal for half step %d is malformed; %s", i, au.HalfStep, desc)
						continue
					}
					s := append([]byte(nil), au.Signatures[i]...)
					s[64] -= 27
					pk, err := crypto.SigToPub(sb.DecryptionSignatureHash, s)
					h.Check(err == nil && crypto.PubkeyToAddress(*pk) == c.Keypers[k], "signature %d of the appeal for half step %d is not by keyper %d; %s", i, au.HalfStep, k, desc)
				}
			}
			before = append([]fx.IAction(nil), d.Actions...)
			first := d.State.HalfStepsChecked
			d.maybeAccuse()
			h.Check(len(d.Actions) >= len(before) && reflect.DeepEqual(d.Actions[:len(before)], before), "earlier actions changed; %s", desc)
			var prev *fx.Accuse
			for _, x := range d.Actions[len(before):] {
				a, ok := x.(*fx.Accuse)
				if !ok {
					h.Fail("planned %v instead of an accusation; %s", x, desc)
					continue
				}
				rec, sb := d.MainChain.CipherExecutionReceipts[a.HalfStep], d.State.Batches[a.HalfStep/2]
				_, accused := d.MainChain.Accusations[a.HalfStep]
				h.Check(!accused && rec != nil && sb != nil && a.HalfStep%2 == 0 && a.HalfStep >= first && a.HalfStep < d.MainChain.NumExecutionHalfSteps && !bytes.Equal(rec.BatchHash[:], sb.DecryptedBatchHash),
					"accusation for half step %d; %s", a.HalfStep, desc)
				h.Check(prev == nil || prev.HalfStep < a.HalfStep, "accusations for half steps %d and %d; %s", prev, a.HalfStep, desc)
				prev = a
			}
			h.Check(d.State.HalfStepsChecked == d.MainChain.NumExecutionHalfSteps, "%d half steps recorded as checked; %s", d.State.HalfStepsChecked, desc)
			for b, sb := range d.State.Batches {
				for a, sig := range sb.VerifiedSignatures {
					pk, err := crypto.SigToPub(sb.DecryptionSignatureHash, sig)
					h.Check(err == nil && crypto.PubkeyToAddress(*pk) == a, "a collected signature for batch %d was changed; %s", b, desc)
				}
			}
			for b, x := range d.Shutter.Batches {
				h.Check(orig[fmt.Sprint(b)] == fmt.Sprintf("%x", x.DecryptionSignatures), "the observed signatures of batch %d were changed; %s", b, desc)
			}
		})
	}
}

// zzUnknown is an action type that cannot be written.
type zzUnknown struct{ fx.SkipCipherBatch }

func zzStored(path string) (st storedState, err error) {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return
	}
	err = gob.NewDecoder(bytes.NewReader(b)).Decode(&st)
	return
}

func TestReplay_K04_keyper(t *testing.T) {
	h := zzverif.New(t, "keyper states saved, loaded and saved again with failing writes", "three faults per state")
	for n := 0; n < h.N(4); n++ {
		dir, err := ioutil.TempDir("", "zzkeyper")
		if err != nil {
			t.Fatal(err)
		}
		func() {
			defer os.RemoveAll(dir)
			keys, addrs := zzKeys(h, 1)
			k := NewKeyper(Config{DBDir: dir, SigningKey: keys[0]})
			path := k.pathStateGob()
			var lastWorld observe.World
			fill := func() {
				k.State.SyncHeight = int64(h.R.Intn(1000))
				k.State.NextEpochSecretShare = h.U64()
				k.State.ActionCounter = uint64(h.R.Intn(1 << 20))
				k.State.Batches[uint64(h.R.Intn(9))] = &Batch{DecryptedBatchHash: h.Bytes(32), VerifiedSignatures: map[common.Address][]byte{addrs[0]: h.Bytes(65)}}
				k.State.Actions = []fx.IAction{&fx.SkipCipherBatch{BatchIndex: h.U64()}, &fx.Accuse{HalfStep: uint64(h.R.Intn(50))}}
				k.State.EKGs = []*EKG{{Eon: uint64(h.R.Intn(9)), Keypers: addrs}}
				sh := observe.NewShutter()
				sh.CurrentBlock = int64(h.R.Intn(50))
				sh.BatchConfigs = []shutterevents.BatchConfig{{Keypers: addrs, Threshold: 1}}
				mc := observe.NewMainChain(uint64(h.R.Intn(9)))
				mc.CurrentBlock = uint64(h.R.Intn(1000))
				mc.Deposits[addrs[0]] = &observe.Deposit{Account: addrs[0], Amount: big.NewInt(int64(h.R.Intn(99)))}
				lastWorld = observe.World{Shutter: sh, MainChain: mc}
				k.world.Store(lastWorld)
			}
			same := func(st storedState) bool {
				return reflect.DeepEqual(st.State, k.State) && reflect.DeepEqual(st.Shutter, lastWorld.Shutter) && reflect.DeepEqual(st.MainChain, lastWorld.MainChain)
			}
			for s := 0; s < 3; s++ {
				fill()
				h.Casef("%+v %+v", *k.State, *lastWorld.MainChain)
				err := k.saveState()
				st, err2 := zzStored(path)
				if err != nil || err2 != nil || !same(st) {
					h.Fail("saved %+v, the file has %+v (errors %v, %v)", k.State, st.State, err, err2)
					return
				}
				k2 := NewKeyper(k.Config)
				if err := k2.LoadState(); err != nil || !same(storedState{k2.State, k2.CurrentWorld().Shutter, k2.CurrentWorld().MainChain}) {
					if k.State.SyncHeight != 0 {
						h.Fail("loading gives %+v instead of %+v (error %v)", k2.State, k.State, err)
					}
				}
				for _, fault := range []string{"create", "full", "encode"} {
					tmp := path + ".tmp"
					os.RemoveAll(tmp)
					old, _ := ioutil.ReadFile(path)
					fill()
					switch fault {
					case "create":
						os.MkdirAll(filepath.Join(tmp, "x"), 0o700)
					case "full":
						os.Symlink("/dev/full", tmp)
					case "encode":
						k.State.Actions = []fx.IAction{&zzUnknown{}}
					}
					err := k.saveState()
					now, _ := ioutil.ReadFile(path)
					h.Casef("%s %d", fault, s)
					if err != nil {
						h.Check(bytes.Equal(old, now), "a failed save (%s) changed the saved file from %d to %d bytes", fault, len(old), len(now))
					} else {
						st, err := zzStored(path)
						h.Check(err == nil && same(st), "saving reported success although writing failed (%s)", fault)
						os.RemoveAll(path)
						ioutil.WriteFile(path, old, 0o600)
					}
					os.RemoveAll(tmp)
				}
			}
			// a step saves what it decided before handing anything out
			k.State, k.world = NewState(), k.world
			sh := observe.NewShutter()
			sh.BatchConfigs = []shutterevents.BatchConfig{{Keypers: addrs, Threshold: 1, ConfigIndex: 0}}
			mc := observe.NewMainChain(0)
			mc.BatchConfigs = []contract.BatchConfig{{}, {StartBlockNumber: 100, StartBatchIndex: 0, Keypers: addrs, Threshold: 1}}
			k.State.CheckInMessageSent = true
			k.world.Store(observe.World{Shutter: sh, MainChain: mc})
			os.RemoveAll(path)
			pend := k.pathActionsGob()
			for _, broken := range []bool{true, false} {
				tmp := path + ".tmp"
				if broken {
					os.MkdirAll(filepath.Join(tmp, "x"), 0o700)
				}
				k.State.Actions, k.State.LastSentBatchConfigIndex = nil, 0
				k.runenv = fx.NewRunEnv(nil, nil, k.CurrentWorld, pend)
				ctx, cancel := context.WithCancel(context.Background())
				cancel()
				counter := k.State.ActionCounter
				func() {
					defer func() { _ = recover() }()
					_ = k.runOneStep(ctx)
				}()
				handed := len(k.runenv.PendingActions.SortedIDs())
				st, err := zzStored(path)
				h.Casef("step, broken %v", broken)
				if broken {
					h.Check(handed == 0, "%d actions were handed out although the state could not be saved", handed)
				} else if handed > 0 {
					h.Check(err == nil && len(st.State.Actions) == handed && st.State.ActionCounter == counter && st.State.LastSentBatchConfigIndex == 1,
						"%d actions were handed out, the saved state has %+v (error %v)", handed, st.State, err)
				} else {
					h.Fail("no action was handed out")
				}
				os.RemoveAll(tmp)
			}
		}()
	}
}

// zzChain is a random seamless list of configurations, perhaps ending with an inactive one.
func zzChain(h *zzverif.H, addrs []common.Address) (cs []contract.BatchConfig) {
	var block, batch uint64
	for i := 1 + h.R.Intn(3); i > 0; i-- {
		var ks []common.Address
		for _, j := range h.R.Perm(len(addrs))[:h.R.Intn(len(addrs)+1)] {
			ks = append(ks, addrs[j])
		}
		if h.R.Intn(2) == 0 {
			ks = append([]common.Address{}, addrs...)
		}
		c := contract.BatchConfig{
			StartBlockNumber: block, StartBatchIndex: batch, BatchSpan: uint64(1 + h.R.Intn(8)),
			Keypers: ks, Threshold: uint64(h.R.Intn(len(ks) + 1)), ExecutionTimeout: uint64(h.R.Intn(25)),
		}
		n := uint64(h.R.Intn(6))
		block, batch = block+n*c.BatchSpan, batch+n
		cs = append(cs, c)
	}
	if h.R.Intn(5) == 0 {
		cs = append(cs, contract.BatchConfig{StartBlockNumber: block, StartBatchIndex: batch, Keypers: addrs, ExecutionTimeout: 5})
	}
	return cs
}

func zzLast(n int, ok func(i int) bool) int {
	for i := n - 1; i >= 0; i-- {
		if ok(i) {
			return i
		}
	}
	return -1
}

func TestReplay_K06_release(t *testing.T) {
	h := zzverif.New(t, "random schedules, eons and keys against the rules for releasing shares", "to 4 keypers, three configurations, 40 blocks")
	for n := 0; n < h.N(400); n++ {
		keys, addrs := zzKeys(h, 1+h.R.Intn(4))
		d := &Decider{State: NewState(), MainChain: observe.NewMainChain(0), Shutter: observe.NewShutter()}
		me := h.R.Intn(len(keys))
		d.Config.SigningKey = keys[me]
		mc := d.MainChain
		mc.BatchConfigs = zzChain(h, addrs)
		mc.CurrentBlock = uint64(h.R.Intn(40))
		d.State.NextEpochSecretShare = uint64(h.R.Intn(6))
		d.Actions = append(d.Actions, &fx.SkipCipherBatch{BatchIndex: 1234})
		desc := fmt.Sprintf("configurations %+v, block %d, next %d, own address %x", mc.BatchConfigs, mc.CurrentBlock, d.State.NextEpochSecretShare, addrs[me])
		for i, c := range mc.BatchConfigs {
			if h.R.Intn(10) > 0 {
				bc := shutterevents.BatchConfig{ConfigIndex: uint64(i), StartBatchIndex: c.StartBatchIndex, Threshold: c.Threshold, Keypers: c.Keypers}
				d.Shutter.BatchConfigs = append(d.Shutter.BatchConfigs, bc)
			}
		}
		desc += fmt.Sprintf(", on shuttermint %+v", d.Shutter.BatchConfigs)
		num := uint64(1 + h.R.Intn(9))
		secrets := map[uint64]*big.Int{}
		var start uint64
		for i := h.R.Intn(4); i > 0; i-- {
			d.Shutter.Eons = append(d.Shutter.Eons, observe.Eon{Eon: num, StartEvent: shutterevents.EonStarted{Eon: num, BatchIndex: start}})
			desc += fmt.Sprintf(", eon %d from batch %d", num, start)
			if h.R.Intn(6) > 0 {
				s := big.NewInt(int64(2 + h.R.Intn(1000)))
				secrets[num] = s
				kg := &epochkg.EpochKG{
					Eon: num, NumKeypers: uint64(len(addrs)), Threshold: 1, Keyper: uint64(me),
					SecretKeyShare: shcrypto.ComputeEonSecretKeyShare([]*big.Int{s}),
					SecretKeys:     map[uint64]*shcrypto.EpochSecretKey{},
				}
				for h.R.Intn(3) == 0 {
					kg.SecretKeys[uint64(h.R.Intn(8))] = nil
				}
				desc += fmt.Sprintf(" with own share, epochs known %v", kg.SecretKeys)
				d.State.EKGs = append(d.State.EKGs, &EKG{Eon: num, Keypers: addrs, EpochKG: kg})
			}
			num += uint64(1 + h.R.Intn(3))
			start += uint64(h.R.Intn(5))
		}
		h.R.Shuffle(len(d.State.EKGs), func(i, j int) { d.State.EKGs[i], d.State.EKGs[j] = d.State.EKGs[j], d.State.EKGs[i] })
		h.Case(desc)
		var want []string
		active := zzLast(len(mc.BatchConfigs), func(i int) bool { return mc.BatchConfigs[i].StartBlockNumber <= mc.CurrentBlock })
		next := d.State.NextEpochSecretShare
		if zzLast(len(d.Shutter.BatchConfigs), func(i int) bool { return d.Shutter.BatchConfigs[i].ConfigIndex == uint64(active) }) >= 0 {
			b := d.State.NextEpochSecretShare
			for ; ; b++ {
				i := zzLast(len(mc.BatchConfigs), func(i int) bool { return mc.BatchConfigs[i].StartBatchIndex <= b })
				c := mc.BatchConfigs[i]
				if c.BatchSpan == 0 && (active < i || b >= c.StartBatchIndex) {
					break
				}
				end := c.StartBlockNumber + (b-c.StartBatchIndex+1)*c.BatchSpan
				if end > mc.CurrentBlock {
					break
				}
				if mc.CurrentBlock+1 >= end+c.ExecutionTimeout {
					continue
				}
				s := zzLast(len(d.Shutter.BatchConfigs), func(i int) bool { return d.Shutter.BatchConfigs[i].StartBatchIndex <= b })
				if s < 0 {
					continue
				}
				member := false
				for _, k := range d.Shutter.BatchConfigs[s].Keypers {
					member = member || k == addrs[me]
				}
				e := zzLast(len(d.Shutter.Eons), func(i int) bool { return d.Shutter.Eons[i].StartEvent.BatchIndex <= b })
				if !member || e < 0 {
					continue
				}
				eon := d.Shutter.Eons[e].Eon
				for _, k := range d.State.EKGs {
					if k.Eon == eon {
						if _, known := k.EpochKG.SecretKeys[b]; !known {
							var be [8]byte
							binary.BigEndian.PutUint64(be[:], b)
							sh := shcrypto.ComputeEpochSecretKeyShare(shcrypto.ComputeEonSecretKeyShare([]*big.Int{secrets[eon]}), shcrypto.ComputeEpochID(be[:]))
							text, _ := sh.GobEncode()
							want = append(want, fmt.Sprintf("share for epoch %d eon %d: %x", b, eon, text))
						}
					}
				}
			}
			next = b
		}
		old := d.State.NextEpochSecretShare
		h.NoPanic(desc, func() {
			d.publishEpochSecretKeyShares()
			var got []string
			for i, a := range d.Actions {
				if i == 0 {
					s, ok := a.(*fx.SkipCipherBatch)
					h.Check(ok && s.BatchIndex == 1234, "an earlier action changed to %v; %s", a, desc)
					continue
				}
				s := fmt.Sprint(a)
				if m, ok := a.(*fx.SendShuttermintMessage); ok && m.Msg.GetEpochSecretKeyShare() != nil {
					x := m.Msg.GetEpochSecretKeyShare()
					s = fmt.Sprintf("share for epoch %d eon %d: %x", x.Epoch, x.Eon, x.Share)
				}
				got = append(got, s)
			}
			h.Check(reflect.DeepEqual(got, want), "planned %v instead of %v; %s", got, want, desc)
			if next > old {
				h.Check(d.State.NextEpochSecretShare == next, "looked at the batches before %d instead of %d; %s", d.State.NextEpochSecretShare, next, desc)
			}
		})
	}
}

func TestReplay_K07_execution(t *testing.T) {
	h := zzverif.New(t, "random chains, batches and pending steps against the rules for executing half steps", "to 4 keypers, three configurations, 70 blocks")
	for n := 0; n < h.N(2000); n++ {
		keys, addrs := zzKeys(h, 1+h.R.Intn(4))
		d := &Decider{State: NewState(), MainChain: observe.NewMainChain(0), Shutter: observe.NewShutter()}
		me := h.R.Intn(len(keys))
		d.Config.SigningKey = keys[me]
		d.Config.ExecutionStaggering = uint64(h.R.Intn(6))
		mc := d.MainChain
		mc.BatchConfigs = zzChain(h, addrs)
		for i := range mc.BatchConfigs {
			if h.R.Intn(4) == 0 {
				mc.BatchConfigs[i].ExecutionTimeout = 1000
			}
		}
		mc.CurrentBlock = uint64(h.R.Intn(70))
		mc.NumExecutionHalfSteps = uint64(h.R.Intn(12))
		if h.R.Intn(2) == 0 {
			p := uint64(h.R.Intn(12))
			d.State.PendingHalfStep = &p
		}
		d.Actions = append(d.Actions, &fx.SkipCipherBatch{BatchIndex: 1234})
		desc := fmt.Sprintf("configurations %+v, block %d, %d half steps, own address %x, staggering %d", mc.BatchConfigs, mc.CurrentBlock, mc.NumExecutionHalfSteps, addrs[me], d.Config.ExecutionStaggering)
		if d.State.PendingHalfStep != nil {
			desc += fmt.Sprintf(", pending %d", *d.State.PendingHalfStep)
		}
		for b := uint64(0); b < 20; b++ {
			if h.R.Intn(5) > 0 {
				x := &observe.Batch{BatchIndex: b, PlainTransactions: [][]byte{h.Bytes(3)}}
				copy(x.EncryptedBatchHash[:], h.Bytes(32))
				mc.Batches[b] = x
			} else {
				desc += fmt.Sprintf(", batch %d not on chain", b)
			}
			if h.R.Intn(9) > 0 {
				x := &Batch{BatchIndex: b, DecryptedTransactions: [][]byte{h.Bytes(4)}, IsEmpty: h.R.Intn(6) == 0, VerifiedSignatures: map[common.Address][]byte{}}
				for _, a := range addrs {
					if h.R.Intn(6) > 0 {
						x.VerifiedSignatures[a] = []byte{1}
					}
				}
				d.State.Batches[b] = x
				desc += fmt.Sprintf(", batch %d empty %v signatures %d", b, x.IsEmpty, len(x.VerifiedSignatures))
			} else {
				desc += fmt.Sprintf(", batch %d not decrypted", b)
			}
		}
		h.Case(desc)
		active := mc.BatchConfigs[zzLast(len(mc.BatchConfigs), func(i int) bool { return mc.BatchConfigs[i].StartBlockNumber <= mc.CurrentBlock })]
		var cur uint64
		if active.BatchSpan > 0 {
			cur = active.StartBatchIndex + (mc.CurrentBlock-active.StartBlockNumber)/active.BatchSpan
		}
		pending := d.State.PendingHalfStep
		blocked := pending != nil && mc.NumExecutionHalfSteps <= *pending
		h.NoPanic(desc, func() {
			d.maybeExecuteBatch()
			first, ok := d.Actions[0].(*fx.SkipCipherBatch)
			h.Check(ok && first.BatchIndex == 1234, "an earlier action changed to %v; %s", d.Actions[0], desc)
			acts := d.Actions[1:]
			if blocked || active.BatchSpan == 0 {
				h.Check(len(acts) == 0, "planned %v though half step %v is pending, span %d; %s", acts, pending, active.BatchSpan, desc)
				if blocked {
					h.Check(d.State.PendingHalfStep == pending, "pending half step forgotten; %s", desc)
				}
				return
			}
			h.Check(len(acts) <= 10, "%d half steps at once; %s", len(acts), desc)
			hs := mc.NumExecutionHalfSteps
			for _, a := range acts {
				b := hs / 2
				c := zzConfig(d, b)
				end := c.StartBlockNumber + (b-c.StartBatchIndex+1)*c.BatchSpan
				h.Check(b < cur, "half step %d planned in batch %d; %s", hs, cur, desc)
				h.Check(c.BatchSpan > 0, "half step %d planned under an inactive configuration; %s", hs, desc)
				index, member := c.KeyperIndex(addrs[me])
				sb := d.State.Batches[b]
				mb := mc.Batches[b]
				if mb == nil {
					mb = &observe.Batch{}
				}
				switch x := a.(type) {
				case *fx.ExecuteCipherBatch:
					h.Check(hs%2 == 0 && x.BatchIndex == b, "cipher batch %d planned for half step %d; %s", x.BatchIndex, hs, desc)
					h.Check(member && c.Keypers[x.KeyperIndex] == addrs[me] && x.KeyperIndex == index, "keyper index %d, keyper %v; %s", x.KeyperIndex, member, desc)
					h.Check(mc.CurrentBlock >= end && mc.CurrentBlock < end+c.ExecutionTimeout, "cipher batch %d planned at block %d, end %d; %s", b, mc.CurrentBlock, end, desc)
					if sb == nil {
						h.Fail("cipher batch %d planned before decryption; %s", b, desc)
						break
					}
					h.Check(sb.IsEmpty || uint64(len(sb.VerifiedSignatures)) >= c.Threshold, "batch %d with %d signatures; %s", b, len(sb.VerifiedSignatures), desc)
					h.Check(reflect.DeepEqual(x.Transactions, sb.DecryptedTransactions), "transactions of batch %d are %x; %s", b, x.Transactions, desc)
					h.Check(x.CipherBatchHash == mb.EncryptedBatchHash, "hash of batch %d is %x; %s", b, x.CipherBatchHash, desc)
				case *fx.ExecutePlainBatch:
					h.Check(hs%2 == 1 && x.BatchIndex == b, "plain batch %d planned for half step %d; %s", x.BatchIndex, hs, desc)
					h.Check(member && mc.CurrentBlock >= end, "plain batch %d planned at block %d, end %d, keyper %v; %s", b, mc.CurrentBlock, end, member, desc)
					h.Check(len(x.Transactions) == len(mb.PlainTransactions) && fmt.Sprintf("%x", x.Transactions) == fmt.Sprintf("%x", mb.PlainTransactions), "transactions of batch %d are %x; %s", b, x.Transactions, desc)
				case *fx.SkipCipherBatch:
					h.Check(hs%2 == 0 && x.BatchIndex == b, "batch %d skipped for half step %d; %s", x.BatchIndex, hs, desc)
					h.Check(mc.CurrentBlock >= end+c.ExecutionTimeout, "batch %d skipped at block %d, end %d; %s", b, mc.CurrentBlock, end, desc)
				default:
					h.Fail("planned %v; %s", a, desc)
				}
				hs++
			}
			if len(acts) > 0 {
				p := d.State.PendingHalfStep
				h.Check(p != nil && *p == hs-1, "pending half step after %d is not remembered; %s", hs-1, desc)
			}
			// where it stopped: waiting at most half the timeout for others, or nothing to do
			b := hs / 2
			c := zzConfig(d, b)
			end := c.StartBlockNumber + (b-c.StartBatchIndex+1)*c.BatchSpan
			if len(acts) < 10 && b < cur && c.BatchSpan > 0 {
				_, member := c.KeyperIndex(addrs[me])
				sb := d.State.Batches[b]
				over := 2*mc.CurrentBlock >= 2*end+c.ExecutionTimeout
				if hs%2 == 1 {
					h.Check(!member || !over, "plain half step %d not executed at block %d, end %d; %s", hs, mc.CurrentBlock, end, desc)
				} else {
					h.Check(2*mc.CurrentBlock < 2*end+3*c.ExecutionTimeout, "cipher half step %d not skipped at block %d, end %d; %s", hs, mc.CurrentBlock, end, desc)
					can := member && sb != nil && (sb.IsEmpty || uint64(len(sb.VerifiedSignatures)) >= c.Threshold)
					h.Check(!can || !over || mc.CurrentBlock >= end+c.ExecutionTimeout, "cipher half step %d not executed at block %d, end %d; %s", hs, mc.CurrentBlock, end, desc)
				}
			}
		})
	}
}

func TestReplay_K12_announcements(t *testing.T) {
	h := zzverif.New(t, "random views of both chains against the rules for checking in and proposing configurations", "to 3 keypers, 5 configurations, 6 rounds of decisions")
	for n := 0; n < h.N(600); n++ {
		keys, addrs := zzKeys(h, 1+h.R.Intn(3))
		d := &Decider{State: NewState(), MainChain: observe.NewMainChain(0), Shutter: observe.NewShutter()}
		d.Config.SigningKey = keys[0]
		d.Config.ValidatorKey = ed25519.NewKeyFromSeed(h.Bytes(32))
		ek, _ := zzKeys(h, 1)
		d.Config.EncryptionKey = ecies.ImportECDSA(ek[0])
		copy(d.Config.ConfigContractAddress[:], h.Bytes(20))
		var history []string
		sent, last := false, uint64(0)
		base := uint64(h.R.Intn(2))
		for round := 0; round < 6; round++ {
			if h.R.Intn(2) == 0 {
				cs := zzChain(h, addrs)
				d.MainChain.BatchConfigs = append(d.MainChain.BatchConfigs, cs[0])
			}
			if h.R.Intn(2) == 0 {
				ks := append([]common.Address{}, addrs[h.R.Intn(len(addrs)+1):]...)
				d.Shutter.BatchConfigs = append(d.Shutter.BatchConfigs, shutterevents.BatchConfig{ConfigIndex: base + uint64(len(d.Shutter.BatchConfigs)), Keypers: ks})
			}
			if h.R.Intn(4) == 0 {
				d.Shutter.KeyperEncryptionKeys[addrs[h.R.Intn(len(addrs))]] = &observe.EncryptionPublicKey{}
			}
			if h.R.Intn(6) == 0 {
				delete(d.Shutter.KeyperEncryptionKeys, addrs[0])
			}
			history = append(history, fmt.Sprintf("configurations %+v on the main chain, %+v on shuttermint, own address %x, checked in %v", d.MainChain.BatchConfigs, d.Shutter.BatchConfigs, addrs[0], d.Shutter.KeyperEncryptionKeys))
			desc := strings.Join(history, "; then ")
			h.Case(desc)
			d.Actions = []fx.IAction{&fx.SkipCipherBatch{BatchIndex: 1234}}
			var want []string
			member := false
			for _, c := range d.Shutter.BatchConfigs {
				for _, k := range c.Keypers {
					member = member || k == addrs[0]
				}
			}
			if _, known := d.Shutter.KeyperEncryptionKeys[addrs[0]]; member && !known && !sent {
				sent = true
				want = append(want, fmt.Sprintf("check-in %x %x", d.Config.ValidatorKey[32:], crypto.CompressPubkey(&ek[0].PublicKey)))
			}
			if k := len(d.Shutter.BatchConfigs); k > 0 {
				i := d.Shutter.BatchConfigs[k-1].ConfigIndex + 1
				if i > last && i < uint64(len(d.MainChain.BatchConfigs)) {
					last = i
					c := d.MainChain.BatchConfigs[i]
					want = append(want, fmt.Sprintf("configuration %d from batch %d threshold %d contract %x keypers %x flags false false", i, c.StartBatchIndex, c.Threshold, d.Config.ConfigContractAddress, c.Keypers))
				}
			}
			if !h.NoPanic(desc, func() {
				d.maybeSendCheckIn()
				d.maybeSendBatchConfig()
			}) {
				break
			}
			var got []string
			for i, a := range d.Actions {
				if i == 0 {
					s, ok := a.(*fx.SkipCipherBatch)
					h.Check(ok && s.BatchIndex == 1234, "an earlier action changed to %v; %s", a, desc)
					continue
				}
				s := fmt.Sprint(a)
				if m, ok := a.(*fx.SendShuttermintMessage); ok {
					if x := m.Msg.GetCheckIn(); x != nil {
						s = fmt.Sprintf("check-in %x %x", x.ValidatorPublicKey, x.EncryptionPublicKey)
					}
					if x := m.Msg.GetBatchConfig(); x != nil {
						s = fmt.Sprintf("configuration %d from batch %d threshold %d contract %x keypers %x flags %v %v", x.ConfigIndex, x.StartBatchIndex, x.Threshold, x.ConfigContractAddress, x.Keypers, x.Started, x.ValidatorsUpdated)
					}
				}
				got = append(got, s)
			}
			h.Check(reflect.DeepEqual(got, want), "planned %q instead of %q; %s", got, want, desc)
			if !reflect.DeepEqual(got, want) {
				break
			}
		}
	}
}
