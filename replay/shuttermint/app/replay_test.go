package app

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/base64"
	"fmt"
	"io/ioutil"
	"log"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/zzverif"
)

func init() { log.SetOutput(ioutil.Discard) }

// zzPeople are the accounts taking part: keypers and outsiders.
type zzPerson struct {
	key  *ecdsa.PrivateKey
	addr common.Address
}

var zzPeople []zzPerson

func init() {
	for i := 1; i <= 6; i++ {
		b := make([]byte, 32)
		b[31], b[3] = byte(i), 7
		k, err := crypto.ToECDSA(b)
		if err != nil {
			panic(err)
		}
		zzPeople = append(zzPeople, zzPerson{k, crypto.PubkeyToAddress(k.PublicKey)})
	}
}

// The model: an independent record of what the application should know.
type zzCfg struct {
	start, index, threshold uint64
	keypers                 []common.Address
	contract                common.Address
	started, updated        bool
}

func (c *zzCfg) has(a common.Address) bool {
	for _, k := range c.keypers {
		if k == a {
			return true
		}
	}
	return false
}

func (c *zzCfg) same(d *zzCfg) bool { return c.String() == d.String() }

func (c *zzCfg) String() string {
	return fmt.Sprintf("{start %d index %d threshold %d keypers %x contract %x started %v updated %v}", c.start, c.index, c.threshold, c.keypers, c.contract, c.started, c.updated)
}

type zzEon struct {
	eon  uint64
	cfg  zzCfg
	seen map[string]bool
}

type zzPair struct {
	a common.Address
	n uint64
}

type zzBatch struct {
	cfg  *zzCfg
	sigs []string
}

type zzModel struct {
	chain      string
	configs    []*zzCfg
	ballot     map[common.Address]string // votes on the next configuration
	eonVotes   map[uint64]map[common.Address]uint64
	eons       map[uint64]*zzEon
	counter    uint64
	batches    map[uint64]*zzBatch
	identities map[common.Address]string
	reports    map[common.Address]bool
	nonces     map[zzPair]bool
	pending    map[zzPair]bool
	counts     map[common.Address]int
	power      map[string]int64
}

func (m *zzModel) last() *zzCfg { return m.configs[len(m.configs)-1] }

func (m *zzModel) inForce(b uint64) *zzCfg {
	var r *zzCfg
	for _, c := range m.configs {
		if c.start <= b {
			r = c
		}
	}
	return r
}

func (m *zzModel) member(a common.Address) bool {
	for _, c := range m.configs {
		if c.has(a) {
			return true
		}
	}
	return false
}

type zzRun struct {
	h    *zzverif.H
	prop string
	app  *ShutterApp
	m    *zzModel
	log  string
	dead bool // left the model for a reason another property covers
}

func (r *zzRun) say(f string, a ...interface{}) { r.log += fmt.Sprintf(f, a...) + "; " }

func (r *zzRun) check(prop string, ok bool, f string, a ...interface{}) {
	if ok {
		return
	}
	if prop == r.prop && !r.dead {
		l := r.log
		if len(l) > 1200 {
			l = "... " + l[len(l)-1200:]
		}
		r.h.Fail("%s; history: %s", fmt.Sprintf(f, a...), l)
	}
	r.dead = true
}

func zzStart(h *zzverif.H, prop string) *zzRun {
	m := &zzModel{
		chain: "chain", ballot: map[common.Address]string{}, eonVotes: map[uint64]map[common.Address]uint64{},
		eons: map[uint64]*zzEon{}, batches: map[uint64]*zzBatch{}, identities: map[common.Address]string{},
		reports: map[common.Address]bool{}, nonces: map[zzPair]bool{}, pending: map[zzPair]bool{},
		counts: map[common.Address]int{}, power: map[string]int64{},
	}
	n := 1 + h.R.Intn(3)
	c := &zzCfg{threshold: uint64(1 + h.R.Intn(n)), started: false}
	for i := 0; i < n; i++ {
		c.keypers = append(c.keypers, zzPeople[i].addr)
	}
	m.configs = []*zzCfg{c}
	app := NewShutterApp()
	app.ChainID = m.chain
	app.Configs = []*BatchConfig{{Keypers: append([]common.Address{}, c.keypers...), Threshold: c.threshold}}
	app.CheckTxState.SetMembers(c.keypers)
	pk := bytes.Repeat([]byte{9}, 32)
	app.Validators = Powermap{ValidatorPubkey{Ed25519pubkey: string(pk)}: 10}
	m.power[string(pk)] = 10
	r := &zzRun{h: h, prop: prop, app: app, m: m}
	r.say("genesis %v", c)
	return r
}

// equal compares the application's state with the model.
func (r *zzRun) equal() {
	a, m := r.app, r.m
	r.check("A03", len(a.Configs) == len(m.configs), "%d configurations instead of %d", len(a.Configs), len(m.configs))
	for i, c := range m.configs {
		if i >= len(a.Configs) {
			break
		}
		d := a.Configs[i]
		e := zzCfg{start: d.StartBatchIndex, index: d.ConfigIndex, threshold: d.Threshold, keypers: d.Keypers, contract: d.ConfigContractAddress, started: c.started, updated: c.updated}
		r.check("A03", e.same(c), "configuration %d is %v instead of %v", i, &e, c)
		r.check("A09", d.Started == c.started, "configuration %d started: %v", i, d.Started)
		r.check("A09", d.ValidatorsUpdated == c.updated, "configuration %d validators updated: %v", i, d.ValidatorsUpdated)
	}
	r.check("A03", len(a.ConfigVoting.Votes) == len(m.ballot), "%d votes on the next configuration instead of %d", len(a.ConfigVoting.Votes), len(m.ballot))
	for s, v := range m.ballot {
		i, ok := a.ConfigVoting.Votes[s]
		if !ok || i < 0 || i >= len(a.ConfigVoting.Candidates) {
			r.check("A03", false, "vote of %x lost", s)
			continue
		}
		d := a.ConfigVoting.Candidates[i]
		e := zzCfg{d.StartBatchIndex, d.ConfigIndex, d.Threshold, d.Keypers, d.ConfigContractAddress, d.Started, d.ValidatorsUpdated}
		r.check("A03", e.String() == v, "vote of %x is for %v instead of %s", s, &e, v)
	}
	r.check("A04", a.EONCounter == m.counter, "eon counter %d instead of %d", a.EONCounter, m.counter)
	r.check("A04", len(a.DKGMap) == len(m.eons), "%d key generations instead of %d", len(a.DKGMap), len(m.eons))
	for n, e := range m.eons {
		d := a.DKGMap[n]
		if d == nil {
			r.check("A04", false, "key generation %d missing", n)
			continue
		}
		ok := d.Eon == n && d.Config.Threshold == e.cfg.threshold && d.Config.ConfigIndex == e.cfg.index && d.Config.StartBatchIndex == e.cfg.start && reflect.DeepEqual(d.Config.Keypers, e.cfg.keypers)
		r.check("A04", ok, "key generation %d is %+v instead of %v", n, d.Config, &e.cfg)
		got := map[string]bool{}
		for p := range d.PolyEvalsSeen {
			got[fmt.Sprintf("eval %x %x", p.Sender, p.Receiver)] = true
		}
		for p := range d.PolyCommitmentsSeen {
			got[fmt.Sprintf("commitment %x", p)] = true
		}
		for p := range d.AccusationsSeen {
			got[fmt.Sprintf("accusation %x", p)] = true
		}
		for p := range d.ApologiesSeen {
			got[fmt.Sprintf("apology %x", p)] = true
		}
		r.check("A05", reflect.DeepEqual(got, e.seen), "messages of eon %d recorded: %v instead of %v", n, got, e.seen)
	}
	nv := 0
	for _, v := range a.EonStartVotings {
		if v != nil && len(v.Votes) > 0 {
			nv++
		}
	}
	r.check("A04", nv == len(m.eonVotes), "%d open eon ballots instead of %d", nv, len(m.eonVotes))
	for c, vs := range m.eonVotes {
		v := a.EonStartVotings[c]
		if v == nil {
			r.check("A04", false, "ballot of configuration %d missing", c)
			continue
		}
		r.check("A04", len(v.Votes) == len(vs), "%d eon votes under configuration %d instead of %d", len(v.Votes), c, len(vs))
		for s, b := range vs {
			i, ok := v.Votes[s]
			r.check("A04", ok && i >= 0 && i < len(v.Candidates) && v.Candidates[i] == b, "eon vote of %x is not for batch %d", s, b)
		}
	}
	r.check("A07", len(a.BatchStates) == len(m.batches), "%d batches with signatures instead of %d", len(a.BatchStates), len(m.batches))
	for b, s := range m.batches {
		bs := a.BatchStates[b]
		var got []string
		for _, d := range bs.DecryptionSignatures {
			got = append(got, fmt.Sprintf("%x %x", d.Sender, d.Signature))
		}
		r.check("A07", reflect.DeepEqual(got, s.sigs), "signatures of batch %d: %v instead of %v", b, got, s.sigs)
	}
	r.check("A09", len(a.Identities) == len(m.identities), "%d identities instead of %d", len(a.Identities), len(m.identities))
	for s, k := range m.identities {
		r.check("A09", a.Identities[s].Ed25519pubkey == k, "identity of %x is %x instead of %x", s, a.Identities[s].Ed25519pubkey, k)
	}
	r.check("A09", len(a.StartedVotes) == len(m.reports), "%d start reports instead of %d", len(a.StartedVotes), len(m.reports))
	for s := range m.reports {
		_, ok := a.StartedVotes[s]
		r.check("A09", ok, "start report of %x lost", s)
	}
	zzNonces := func(t *NonceTracker) map[zzPair]bool {
		got := map[zzPair]bool{}
		for s, ns := range t.RandomNonces {
			for n, v := range ns {
				if v {
					got[zzPair{s, n}] = true
				}
			}
		}
		return got
	}
	g := zzNonces(a.NonceTracker)
	r.check("A01", reflect.DeepEqual(g, m.nonces), "nonces used: %v instead of %v", g, m.nonces)
	g = zzNonces(a.CheckTxState.NonceTracker)
	r.check("A02", reflect.DeepEqual(g, m.pending), "pending nonces: %v instead of %v", g, m.pending)
	for _, p := range zzPeople {
		r.check("A02", a.CheckTxState.TxCounts[p.addr] == m.counts[p.addr], "%d transactions counted of %x instead of %d", a.CheckTxState.TxCounts[p.addr], p.addr, m.counts[p.addr])
		r.check("A02", a.CheckTxState.Members[p.addr] == m.member(p.addr), "member %x: %v", p.addr, a.CheckTxState.Members[p.addr])
	}
}

// zzMsg is one generated message: how it goes on the wire and what it should do.
type zzMsg struct {
	kind string
	desc string
	msg  *shmsg.Message
	prop string
	// run changes the model; it says whether the message is accepted and how
	// many events it has.
	run func(m *zzModel, s common.Address) (bool, int)
}

func (r *zzRun) addrs(max int) (as []common.Address) {
	n := r.h.R.Intn(max + 1)
	for i := 0; i < n; i++ {
		as = append(as, zzPeople[r.h.R.Intn(len(zzPeople))].addr)
	}
	return
}

func (r *zzRun) wire(as []common.Address) (bs [][]byte, ok bool) {
	ok = true
	seen := map[common.Address]bool{}
	for _, a := range as {
		b := append([]byte{}, a.Bytes()...)
		switch r.h.R.Intn(40) {
		case 0:
			b, ok = b[:19], false
		case 1:
			b, ok = append(b, 0), false
		}
		bs = append(bs, b)
		if seen[a] {
			ok = false
		}
		seen[a] = true
	}
	return
}

func (r *zzRun) batch() uint64 {
	if r.h.R.Intn(10) == 0 {
		return r.h.U64()
	}
	return uint64(r.h.R.Intn(6)) * 5
}

func (r *zzRun) make(kind int) zzMsg {
	h, m := r.h, r.m
	switch kind {
	case 0: // configuration vote
		l := m.last()
		c := &zzCfg{start: l.start + 5*uint64(h.R.Intn(2)), index: l.index + 1, threshold: l.threshold, keypers: append([]common.Address{}, l.keypers...)}
		switch h.R.Intn(10) {
		case 0:
			c.start = l.start - 1
		case 1:
			c.index = l.index
		case 2:
			c = &zzCfg{l.start, l.index, l.threshold, append([]common.Address{}, l.keypers...), l.contract, l.started, l.updated}
		case 3:
			c.threshold = uint64(h.R.Intn(5))
		case 4, 5, 6:
			n := 1 + h.R.Intn(4)
			o := h.R.Intn(3)
			c.keypers = nil
			for i := 0; i < n; i++ {
				c.keypers = append(c.keypers, zzPeople[(i+o)%5].addr)
			}
			c.threshold = uint64(1 + h.R.Intn(n))
		case 7:
			c.contract[3] = 1
		}
		ks, ok := r.wire(c.keypers)
		msg := shmsg.NewBatchConfig(c.start, nil, c.threshold, c.contract, c.index, c.started, c.updated)
		msg.GetBatchConfig().Keypers = ks
		return zzMsg{"config", "configuration " + c.String() + fmt.Sprint(" well-formed ", ok), msg, "A03", func(m *zzModel, s common.Address) (bool, int) {
			l := m.last()
			if !ok {
				return false, 0
			}
			if c.same(l) {
				return true, 0
			}
			if len(c.keypers) == 0 || c.threshold == 0 || c.threshold > uint64(len(c.keypers)) || c.start < l.start || c.index <= l.index || !l.has(s) {
				return false, 0
			}
			if _, dup := m.ballot[s]; dup {
				return false, 0
			}
			m.ballot[s] = c.String()
			n := uint64(0)
			for _, v := range m.ballot {
				if v == c.String() {
					n++
				}
			}
			if n < l.threshold {
				return true, 0
			}
			m.ballot = map[common.Address]string{}
			d := *c
			m.configs = append(m.configs, &d)
			m.reports = map[common.Address]bool{}
			e := m.eons[m.counter]
			if e == nil || e.cfg.threshold != c.threshold || fmt.Sprint(e.cfg.keypers) != fmt.Sprint(c.keypers) {
				m.counter++
				m.eons[m.counter] = &zzEon{m.counter, *c, map[string]bool{}}
				return true, 2
			}
			return true, 1
		}}
	case 1: // start report
		i := m.last().index
		if h.R.Intn(5) == 0 {
			i = i - 1 + uint64(h.R.Intn(3))
		}
		return zzMsg{"started", fmt.Sprint("started ", i), shmsg.NewBatchConfigStarted(i), "A09", func(m *zzModel, s common.Address) (bool, int) {
			if i != m.last().index || len(m.configs) < 2 || !m.configs[len(m.configs)-2].has(s) {
				return false, 0
			}
			if !m.last().started {
				m.reports[s] = true
			}
			return true, 0
		}}
	case 2: // check in
		pk := bytes.Repeat([]byte{byte(1 + h.R.Intn(4))}, 32)
		if h.R.Intn(6) == 0 {
			pk = pk[:31]
		}
		ek := crypto.CompressPubkey(&zzPeople[h.R.Intn(6)].key.PublicKey)
		okE := true
		switch h.R.Intn(8) {
		case 0:
			ek, okE = ek[:32], false
		case 1:
			ek = append([]byte{}, ek...)
			ek[0], okE = 5, false
		}
		msg := shmsg.NewCheckIn(pk, ecies.ImportECDSAPublic(&zzPeople[0].key.PublicKey))
		msg.GetCheckIn().EncryptionPublicKey = ek
		return zzMsg{"checkin", fmt.Sprintf("check-in %d byte key, encryption key ok %v", len(pk), okE), msg, "A09", func(m *zzModel, s common.Address) (bool, int) {
			_, dup := m.identities[s]
			if dup || !m.member(s) || len(pk) != 32 || !okE {
				return false, 0
			}
			m.identities[s] = string(pk)
			return true, 1
		}}
	case 3: // eon start vote
		b := r.batch()
		return zzMsg{"eonvote", fmt.Sprint("eon vote ", b), shmsg.NewEonStartVote(b), "A04", func(m *zzModel, s common.Address) (bool, int) {
			c := m.inForce(b)
			if !c.has(s) {
				return false, 0
			}
			v := m.eonVotes[c.index]
			if v == nil {
				v = map[common.Address]uint64{}
				m.eonVotes[c.index] = v
			}
			v[s] = b
			n := uint64(0)
			for _, w := range v {
				if w == b {
					n++
				}
			}
			if n < c.threshold {
				return true, 0
			}
			delete(m.eonVotes, c.index)
			m.counter++
			m.eons[m.counter] = &zzEon{m.counter, *c, map[string]bool{}}
			return true, 1
		}}
	case 4: // decryption signature
		b := r.batch()
		sig := h.Bytes(h.R.Intn(5))
		return zzMsg{"signature", fmt.Sprintf("signature of batch %d %x", b, sig), shmsg.NewDecryptionSignature(b, sig), "A07", func(m *zzModel, s common.Address) (bool, int) {
			t := m.batches[b]
			if t == nil {
				t = &zzBatch{cfg: m.inForce(b)}
			}
			if !t.cfg.has(s) {
				return false, 0
			}
			for _, g := range t.sigs {
				if g[:40] == fmt.Sprintf("%x", s) {
					return false, 0
				}
			}
			t.sigs = append(t.sigs, fmt.Sprintf("%x %x", s, sig))
			m.batches[b] = t
			return true, 1
		}}
	case 9: // empty message
		return zzMsg{"empty", "empty message", &shmsg.Message{}, "A01", func(m *zzModel, s common.Address) (bool, int) { return false, 0 }}
	}
	// key generation messages
	eon := m.counter
	if h.R.Intn(3) == 0 && eon > 0 {
		eon = 1 + uint64(h.R.Intn(int(eon)))
	}
	if h.R.Intn(10) == 0 {
		eon = h.U64()
	}
	as := r.addrs(3)
	if e := m.eons[eon]; e != nil && h.R.Intn(4) > 0 { // mostly keypers of the eon
		for i := range as {
			as[i] = e.cfg.keypers[h.R.Intn(len(e.cfg.keypers))]
		}
	}
	bs, wf := r.wire(as)
	about := func(m *zzModel, s common.Address) bool {
		e := m.eons[eon]
		if e == nil || !e.cfg.has(s) {
			return false
		}
		for _, a := range as {
			if !e.cfg.has(a) || a == s {
				return false
			}
		}
		return true
	}
	once := func(kind string) func(m *zzModel, s common.Address) (bool, int) {
		return func(m *zzModel, s common.Address) (bool, int) {
			if !wf || !about(m, s) {
				return false, 0
			}
			k := fmt.Sprintf("%s %x", kind, s)
			if m.eons[eon].seen[k] {
				return false, 0
			}
			m.eons[eon].seen[k] = true
			return true, 1
		}
	}
	desc := fmt.Sprintf("eon %d naming %x well-formed ", eon, as)
	switch kind {
	case 5:
		n := len(bs)
		if h.R.Intn(12) == 0 {
			n++
			wf = false
		}
		msg := shmsg.NewPolyEval(eon, nil, make([][]byte, n))
		for i := range msg.GetPolyEval().EncryptedEvals {
			msg.GetPolyEval().EncryptedEvals[i] = []byte{byte(i)}
		}
		msg.GetPolyEval().Receivers = bs
		return zzMsg{"eval", "evaluations " + desc + fmt.Sprint(wf), msg, "A05", func(m *zzModel, s common.Address) (bool, int) {
			if !wf || !about(m, s) {
				return false, 0
			}
			for _, a := range as {
				if m.eons[eon].seen[fmt.Sprintf("eval %x %x", s, a)] {
					return false, 0
				}
			}
			for _, a := range as {
				m.eons[eon].seen[fmt.Sprintf("eval %x %x", s, a)] = true
			}
			return true, 1
		}}
	case 6:
		wf, as = true, nil
		msg := &shmsg.Message{Payload: &shmsg.Message_PolyCommitment{PolyCommitment: &shmsg.PolyCommitment{Eon: eon}}}
		for i := 0; i < h.R.Intn(3); i++ {
			g := new(bn256.G2).ScalarBaseMult(big.NewInt(int64(h.R.Intn(5)))).Marshal()
			switch h.R.Intn(12) {
			case 0:
				g, wf = g[:64], false
			case 1:
				g, wf = bytes.Repeat([]byte{3}, 128), false
			}
			msg.GetPolyCommitment().Gammas = append(msg.GetPolyCommitment().Gammas, g)
		}
		return zzMsg{"commitment", "commitment " + fmt.Sprintf("eon %d well-formed %v", eon, wf), msg, "A05", once("commitment")}
	case 7:
		msg := shmsg.NewAccusation(eon, nil)
		msg.GetAccusation().Accused = bs
		return zzMsg{"accusation", "accusation " + desc + fmt.Sprint(wf), msg, "A05", once("accusation")}
	default:
		msg := shmsg.NewApology(eon, nil, nil)
		msg.GetApology().Accusers = bs
		for i := range bs {
			msg.GetApology().PolyEvals = append(msg.GetApology().PolyEvals, []byte{byte(i)})
		}
		if h.R.Intn(12) == 0 {
			msg.GetApology().PolyEvals = append(msg.GetApology().PolyEvals, []byte{7})
			wf = false
		}
		return zzMsg{"apology", "apology " + desc + fmt.Sprint(wf), msg, "A05", once("apology")}
	}
}

func zzEncode(msg *shmsg.MessageWithNonce, key *ecdsa.PrivateKey) []byte {
	s, err := shmsg.SignMessage(msg, key)
	if err != nil {
		panic(err)
	}
	return []byte(base64.RawURLEncoding.EncodeToString(s))
}

// tx wraps a message; it says who signed it with which nonce for which chain
// and whether it decodes at all.
func (r *zzRun) tx(z zzMsg, spread int) (raw []byte, p zzPerson, nonce uint64, chain string, decodes bool) {
	p = zzPeople[r.h.R.Intn(len(zzPeople))]
	if r.h.R.Intn(3) > 0 {
		p = zzPeople[r.h.R.Intn(3)]
	}
	nonce, chain = uint64(r.h.R.Intn(spread)), r.m.chain
	if r.h.R.Intn(20) == 0 {
		nonce = r.h.U64()
	}
	if r.h.R.Intn(15) == 0 {
		chain = []string{"", "chain2", "Chain"}[r.h.R.Intn(3)]
	}
	raw = zzEncode(&shmsg.MessageWithNonce{ChainId: []byte(chain), RandomNonce: nonce, Msg: z.msg}, p.key)
	decodes = true
	switch r.h.R.Intn(30) {
	case 0:
		raw, decodes = raw[:r.h.R.Intn(80)], false
	case 1:
		raw, decodes = append(raw, '!'), false
	case 2:
		raw, decodes = nil, false
	}
	return
}

func (r *zzRun) deliver(z zzMsg, spread int) {
	raw, p, nonce, chain, decodes := r.tx(z, spread)
	r.say("deliver %s by %x nonce %d chain %q decodes %v", z.desc, p.addr[:3], nonce, chain, decodes)
	ok, events, prop := false, 0, "A01"
	if decodes && chain == r.m.chain && !r.m.nonces[zzPair{p.addr, nonce}] {
		r.m.nonces[zzPair{p.addr, nonce}] = true
		ok, events = z.run(r.m, p.addr)
		prop = z.prop
	}
	var resp abcitypes.ResponseDeliverTx
	if !r.h.NoPanic(r.log, func() { resp = r.app.DeliverTx(abcitypes.RequestDeliverTx{Tx: raw}) }) {
		r.dead = true
		return
	}
	r.check(prop, (resp.Code == 0) == ok, "%s: response %v, should be accepted: %v", z.desc, resp.Code, ok)
	r.check(prop, len(resp.Events) == events, "%s: %d events instead of %d", z.desc, len(resp.Events), events)
}

func (r *zzRun) checkTx(z zzMsg, spread int) {
	raw, p, nonce, chain, decodes := r.tx(z, spread)
	m := r.m
	k := zzPair{p.addr, nonce}
	r.say("check tx by %x nonce %d chain %q decodes %v", p.addr[:3], nonce, chain, decodes)
	ok := decodes && chain == m.chain && !m.nonces[k] && m.member(p.addr) && m.counts[p.addr] < 10 && !m.pending[k]
	if ok {
		m.counts[p.addr]++
		m.pending[k] = true
	}
	resp := r.app.CheckTx(abcitypes.RequestCheckTx{Tx: raw})
	r.check("A02", (resp.Code == 0) == ok, "response %v, should be admitted: %v", resp.Code, ok)
}

func (r *zzRun) endBlock(height int64) {
	m := r.m
	l := m.last()
	if len(m.configs) >= 2 {
		if uint64(len(m.reports)) >= m.configs[len(m.configs)-2].threshold {
			l.started = true
			m.reports = map[common.Address]bool{}
		}
	}
	n := uint64(0)
	for _, k := range l.keypers {
		if _, ok := m.identities[k]; ok {
			n++
		}
	}
	if l.started && n >= l.threshold {
		l.updated = true
	}
	old := m.power
	for i := len(m.configs) - 1; i >= 0; i-- {
		if c := m.configs[i]; c.started && c.updated {
			m.power = map[string]int64{}
			for _, k := range c.keypers {
				id, ok := m.identities[k]
				if !ok {
					id = NonExistentValidator.Ed25519pubkey
				}
				m.power[id] += 10
			}
			break
		}
	}
	r.say("end block %d", height)
	resp := r.app.EndBlock(abcitypes.RequestEndBlock{Height: height})
	var want []string
	for k, p := range m.power {
		if old[k] != p {
			want = append(want, fmt.Sprintf("%x:%d", k, p))
		}
	}
	for k := range old {
		if _, ok := m.power[k]; !ok {
			want = append(want, fmt.Sprintf("%x:0", k))
		}
	}
	sort.Strings(want)
	var got []string
	for _, u := range resp.ValidatorUpdates {
		got = append(got, fmt.Sprintf("%x:%d", u.PubKey.GetEd25519(), u.Power))
	}
	sort.Strings(got)
	r.check("A08", reflect.DeepEqual(got, want), "validator updates %v instead of %v", got, want)
	r.check("A08", len(r.app.Validators) == len(m.power), "%d validators instead of %d", len(r.app.Validators), len(m.power))
	for k, p := range m.power {
		r.check("A08", r.app.Validators[ValidatorPubkey{Ed25519pubkey: k}] == p, "validator %x has not power %d", k, p)
	}
}

// zzHistory drives one random history; the weights choose the message kinds.
func zzHistory(h *zzverif.H, prop string, steps, spread, checks int, weights []int) {
	r := zzStart(h, prop)
	var kinds []int
	for k, w := range weights {
		for i := 0; i < w; i++ {
			kinds = append(kinds, k)
		}
	}
	height := int64(1)
	for i := 0; i < steps && !r.dead; i++ {
		z := r.make(kinds[h.R.Intn(len(kinds))])
		if h.R.Intn(100) < checks {
			r.checkTx(z, spread)
		} else {
			r.deliver(z, spread)
		}
		r.equal()
		if h.R.Intn(6) == 0 && !r.dead {
			r.endBlock(height)
			height++
			r.equal()
			if !r.dead && h.R.Intn(2) == 0 {
				r.say("commit")
				r.app.Commit()
				r.m.counts, r.m.pending = map[common.Address]int{}, map[zzPair]bool{}
				r.equal()
			}
		}
	}
	h.Case(r.log)
}

const zzRule = "random block histories of signed transactions against an independent record of the application"

func zzHistories(t *testing.T, prop string, n, steps, spread, checks int, weights []int) {
	h := zzverif.New(t, zzRule, fmt.Sprintf("%d steps per history, six accounts", steps))
	for i := 0; i < h.N(n); i++ {
		zzHistory(h, prop, steps, spread, checks, weights)
	}
}

// kinds: config started checkin eonvote signature eval commitment accusation apology empty
func TestReplay_A01_histories(t *testing.T) {
	zzHistories(t, "A01", 60, 40, 4, 10, []int{2, 1, 1, 2, 2, 1, 1, 1, 1, 2})
}

func TestReplay_A02_histories(t *testing.T) {
	zzHistories(t, "A02", 60, 50, 30, 70, []int{4, 1, 1, 1, 1, 0, 0, 0, 0, 1})
}

func TestReplay_A03_histories(t *testing.T) {
	zzHistories(t, "A03", 80, 50, 1<<30, 5, []int{14, 1, 0, 1, 1, 0, 0, 0, 0, 0})
}

func TestReplay_A04_histories(t *testing.T) {
	zzHistories(t, "A04", 80, 50, 1<<30, 5, []int{6, 1, 0, 10, 0, 1, 1, 1, 1, 0})
}

func TestReplay_A05_histories(t *testing.T) {
	zzHistories(t, "A05", 80, 60, 1<<30, 5, []int{3, 0, 0, 3, 0, 6, 5, 5, 5, 0})
}

func TestReplay_A07_histories(t *testing.T) {
	zzHistories(t, "A07", 80, 50, 1<<30, 5, []int{4, 1, 0, 0, 12, 0, 0, 0, 0, 0})
}

func TestReplay_A08_histories(t *testing.T) {
	zzHistories(t, "A08", 80, 60, 1<<30, 0, []int{7, 7, 7, 0, 0, 0, 0, 0, 0, 0})
}

func TestReplay_A09_histories(t *testing.T) {
	zzHistories(t, "A09", 80, 60, 1<<30, 0, []int{7, 7, 7, 0, 1, 0, 0, 0, 0, 0})
}

// Updates computed from two arbitrary validator sets turn one into the other.
func TestReplay_A08_updates(t *testing.T) {
	h := zzverif.New(t, "random pairs of validator sets", "to five keys")
	for n := 0; n < h.N(200); n++ {
		gen := func() Powermap {
			pm := Powermap{}
			for i := 0; i < h.R.Intn(6); i++ {
				pm[ValidatorPubkey{Ed25519pubkey: string(bytes.Repeat([]byte{byte(250 + h.R.Intn(8))}, 32))}] = 10 * int64(1+h.R.Intn(3))
			}
			return pm
		}
		old, nu := gen(), gen()
		desc := fmt.Sprintf("old %v new %v", old, nu)
		h.Case(desc)
		us := DiffPowermaps(old, nu).ValidatorUpdates()
		res := Powermap{}
		for k, v := range old {
			res[k] = v
		}
		var prev []byte
		for i, u := range us {
			k := u.PubKey.GetEd25519()
			h.Check(i == 0 || bytes.Compare(prev, k) < 0, "updates not in order of keys or a key twice: %v; %s", us, desc)
			prev = k
			v := ValidatorPubkey{Ed25519pubkey: string(k)}
			h.Check(old[v] != u.Power, "unchanged key %x listed; %s", k, desc)
			if u.Power == 0 {
				delete(res, v)
			} else {
				res[v] = u.Power
			}
		}
		h.Check(reflect.DeepEqual(res, nu), "updates lead to %v; %s", res, desc)
	}
}

// Parsing keeps every item of a well-formed message and refuses the others.
func TestReplay_A06_parsing(t *testing.T) {
	h := zzverif.New(t, "random wire messages, some malformed", "to four items")
	r := &zzRun{h: h}
	sender := zzPeople[5].addr
	for n := 0; n < h.N(400); n++ {
		as := r.addrs(4)
		bs, ok := r.wire(as)
		var unique []common.Address
		unique = append(unique, as...)
		eon := h.U64()
		var items [][]byte
		for range bs {
			items = append(items, h.Bytes(h.R.Intn(40)))
		}
		if h.R.Intn(10) == 0 {
			items = append(items, []byte{1})
		}
		if h.R.Intn(10) == 0 && len(items) > 0 {
			items = items[1:]
		}
		pair := ok && len(items) == len(bs)
		desc := fmt.Sprintf("addresses %x items %x eon %d", bs, items, eon)
		h.Case(desc)
		h.NoPanic(desc, func() {
			e, err := ParsePolyEvalMsg(&shmsg.PolyEval{Eon: eon, Receivers: bs, EncryptedEvals: items}, sender)
			h.Check((err == nil) == pair, "evaluations: error %v; %s", err, desc)
			if err == nil && pair {
				h.Check(e.Sender == sender && e.Eon == eon && fmt.Sprint(e.Receivers) == fmt.Sprint(unique) && fmt.Sprintf("%x", e.EncryptedEvals) == fmt.Sprintf("%x", items), "evaluations parsed as %+v; %s", e, desc)
			}
			a, err := ParseAccusationMsg(&shmsg.Accusation{Eon: eon, Accused: bs}, sender)
			h.Check((err == nil) == ok, "accusation: error %v; %s", err, desc)
			if err == nil && ok {
				h.Check(a.Sender == sender && a.Eon == eon && fmt.Sprint(a.Accused) == fmt.Sprint(unique), "accusation parsed as %+v; %s", a, desc)
			}
			p, err := ParseApologyMsg(&shmsg.Apology{Eon: eon, Accusers: bs, PolyEvals: items}, sender)
			h.Check((err == nil) == pair, "apology: error %v; %s", err, desc)
			if err == nil && pair {
				same := p.Sender == sender && p.Eon == eon && fmt.Sprint(p.Accusers) == fmt.Sprint(unique) && len(p.PolyEval) == len(items)
				for i := range items {
					same = same && p.PolyEval[i].Cmp(new(big.Int).SetBytes(items[i])) == 0
				}
				h.Check(same, "apology parsed as %+v; %s", p, desc)
			}
			var gs [][]byte
			var want []string
			okG := true
			for i := 0; i < h.R.Intn(4); i++ {
				g := new(bn256.G2).ScalarBaseMult(big.NewInt(int64(h.R.Intn(5)))).Marshal()
				want = append(want, fmt.Sprintf("%x", g))
				switch h.R.Intn(10) {
				case 0:
					g, okG = g[:h.R.Intn(128)], false
				case 1:
					g, okG = bytes.Repeat([]byte{3}, 128), false
				}
				gs = append(gs, g)
			}
			c, err := ParsePolyCommitmentMsg(&shmsg.PolyCommitment{Eon: eon, Gammas: gs}, sender)
			h.Check((err == nil) == okG, "commitment: error %v; gammas %x", err, gs)
			if err == nil && okG {
				var got []string
				for _, g := range *c.Gammas {
					got = append(got, fmt.Sprintf("%x", g.Marshal()))
				}
				h.Check(c.Sender == sender && c.Eon == eon && reflect.DeepEqual(got, want), "commitment parsed as %v instead of %v", got, want)
			}
		})
	}
}

// zzSame compares two saved states field by field.
func zzSame(a, b *ShutterApp) bool {
	return reflect.DeepEqual(a.Configs, b.Configs) && reflect.DeepEqual(a.Identities, b.Identities) &&
		reflect.DeepEqual(a.NonceTracker, b.NonceTracker) && a.LastBlockHeight == b.LastBlockHeight && a.EONCounter == b.EONCounter &&
		reflect.DeepEqual(a.Validators, b.Validators) && a.ChainID == b.ChainID && len(a.DKGMap) == len(b.DKGMap)
}

// Saves replace the file completely, or report an error and leave it alone.
func TestReplay_K04_save(t *testing.T) {
	h := zzverif.New(t, "saves with and without failing writes, in a scratch directory", "five fault points")
	for n := 0; n < h.N(6); n++ {
		func() {
			dir, err := ioutil.TempDir("", "zzapp")
			if err != nil {
				t.Fatal(err)
			}
			defer os.RemoveAll(dir)
			r := zzStart(h, "K04")
			for i := 0; i < 15; i++ {
				r.deliver(r.make(h.R.Intn(9)), 1<<30)
			}
			a := r.app
			a.Gobpath = filepath.Join(dir, "app.gob")
			a.LastBlockHeight = int64(h.R.Intn(100))
			if err := a.PersistToDisk(); err != nil {
				h.Fail("saving fails: %v", err)
				return
			}
			b, err := LoadShutterAppFromFile(a.Gobpath)
			h.Check(err == nil && zzSame(a, &b), "what was saved does not load back: error %v", err)
			old, _ := ioutil.ReadFile(a.Gobpath)
			for _, fault := range []string{"none", "encode", "create", "full"} {
				h.Casef("%d %s", n, fault)
				a.LastBlockHeight++
				cfgs := a.Configs
				tmp := a.Gobpath + ".tmp"
				os.RemoveAll(tmp)
				switch fault {
				case "encode":
					a.Configs = append(append([]*BatchConfig{}, cfgs...), nil)
				case "create":
					os.MkdirAll(filepath.Join(tmp, "x"), 0o700)
				case "full":
					os.Symlink("/dev/full", tmp)
				}
				err := a.PersistToDisk()
				a.Configs = cfgs
				now, _ := ioutil.ReadFile(a.Gobpath)
				if fault == "none" {
					b, err2 := LoadShutterAppFromFile(a.Gobpath)
					h.Check(err == nil && err2 == nil && zzSame(a, &b), "second save: %v, loading: %v, height saved %d instead of %d", err, err2, b.LastBlockHeight, a.LastBlockHeight)
					old = now
					continue
				}
				h.Check(err != nil || !bytes.Equal(now, old), "failed save (%s) not reported", fault)
				if err != nil {
					h.Check(bytes.Equal(now, old), "a failed save (%s) changed the saved file (%d bytes, was %d)", fault, len(now), len(old))
				} else { // saved some other way: then it must be complete
					b, err2 := LoadShutterAppFromFile(a.Gobpath)
					h.Check(err2 == nil && zzSame(a, &b) && fault != "encode", "save (%s) reported as done does not load back: %v", fault, err2)
					old = now
				}
			}
		}()
	}
}
