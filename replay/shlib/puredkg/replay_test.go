package puredkg

import (
	"fmt"
	"math/big"
	"testing"

	blst "github.com/supranational/blst/bindings/go"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shlib/zzverif"
)

var zzOrder, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)

func zzP2(n *big.Int) *blst.P2Affine {
	b := make([]byte, 32)
	new(big.Int).Mod(n, zzOrder).FillBytes(b)
	s := new(blst.Scalar)
	s.FromBEndian(b)
	return blst.P2Generator().Mult(s).ToAffine()
}

// zzPoly is a polynomial known by its coefficients.
type zzPoly []*big.Int

func (p zzPoly) at(keyper int) *big.Int {
	r, pw, x := new(big.Int), big.NewInt(1), big.NewInt(int64(keyper+1))
	for _, c := range p {
		r.Add(r, new(big.Int).Mul(c, pw))
		pw = new(big.Int).Mul(pw, x)
	}
	return r.Mod(r, zzOrder)
}

func (p zzPoly) gammas() *shcrypto.Gammas {
	g := shcrypto.Gammas{}
	for _, c := range p {
		g = append(g, zzP2(c))
	}
	return &g
}

func zzRandPoly(h *zzverif.H, n int) (p zzPoly) {
	for i := 0; i < n; i++ {
		switch h.R.Intn(4) {
		case 0:
			p = append(p, big.NewInt(int64(h.R.Intn(3))))
		default:
			p = append(p, new(big.Int).Rand(h.R, zzOrder))
		}
	}
	return
}

// zzModel is what the participant should know: an independent record.
type zzModel struct {
	n, th, me int
	phase     int
	comm      map[int]zzPoly
	evals     map[int]*big.Int
	acc       map[[2]int]bool
	apo       map[[2]int]*big.Int
}

func (m *zzModel) deg(p zzPoly) bool { return len(p) == m.th }

func (m *zzModel) corrupt(d int) bool {
	c, ok := m.comm[d]
	if !ok {
		return true
	}
	for k, v := range m.apo {
		if k[1] == d && v.Cmp(c.at(k[0])) != 0 {
			return true
		}
	}
	for k := range m.acc {
		if k[1] == d {
			if _, ok := m.apo[k]; !ok {
				return true
			}
		}
	}
	return false
}

func (m *zzModel) eval(d int) *big.Int {
	if v, ok := m.apo[[2]int{m.me, d}]; ok {
		return v
	}
	return m.evals[d]
}

type zzRun struct {
	h     *zzverif.H
	pure  *PureDKG
	m     *zzModel
	polys []zzPoly
	log   string
	own   zzPoly
}

func (r *zzRun) say(f string, a ...interface{}) { r.log += fmt.Sprintf(f, a...) + "; " }

func (r *zzRun) check(ok bool, f string, a ...interface{}) {
	r.h.Check(ok, "%s; history: %s", fmt.Sprintf(f, a...), r.log)
}

// same compares the participant's record with the model.
func (r *zzRun) same() {
	p, m := r.pure, r.m
	r.check(int(p.Phase) == m.phase, "phase %v instead of %d", p.Phase, m.phase)
	r.check(len(p.Commitments) == m.n && len(p.Evals) == m.n, "wrong list lengths")
	for d := 0; d < m.n; d++ {
		c, ok := m.comm[d]
		r.check((p.Commitments[d] != nil) == ok, "commitment of %d known: %v", d, p.Commitments[d] != nil)
		if ok && p.Commitments[d] != nil {
			r.check(p.Commitments[d].Equal(*c.gammas()), "commitment of %d is another one", d)
		}
		e := m.evals[d]
		r.check((p.Evals[d] != nil) == (e != nil), "evaluation of %d known: %v", d, p.Evals[d] != nil)
		if e != nil && p.Evals[d] != nil {
			r.check(p.Evals[d].Cmp(e) == 0, "evaluation of %d is %v instead of %v", d, p.Evals[d], e)
		}
	}
	r.check(len(p.Accusations) == len(m.acc), "%d accusations instead of %d", len(p.Accusations), len(m.acc))
	for k := range m.acc {
		_, ok := p.Accusations[accusationKey{Accuser: uint64(k[0]), Accused: uint64(k[1])}]
		r.check(ok, "accusation %v missing", k)
	}
	r.check(len(p.Apologies) == len(m.apo), "%d apologies instead of %d", len(p.Apologies), len(m.apo))
	for k, v := range m.apo {
		w, ok := p.Apologies[accusationKey{Accuser: uint64(k[0]), Accused: uint64(k[1])}]
		r.check(ok && w.Cmp(v) == 0, "apology %v is %v instead of %v", k, w, v)
	}
}

func (r *zzRun) eon() uint64 {
	if r.h.R.Intn(8) == 0 {
		return 6
	}
	return 5
}

func (r *zzRun) value(right *big.Int) *big.Int {
	switch r.h.R.Intn(10) {
	case 0:
		return new(big.Int).Set(zzOrder)
	case 1:
		return big.NewInt(-1)
	case 2:
		return big.NewInt(0)
	case 3:
		return new(big.Int).Rand(r.h.R, zzOrder)
	case 4:
		return new(big.Int).Add(zzOrder, right)
	}
	return new(big.Int).Set(right)
}

func zzInField(v *big.Int) bool { return v.Sign() >= 0 && v.Cmp(zzOrder) < 0 }

func (r *zzRun) message() {
	m := r.m
	from, to := r.h.R.Intn(m.n), r.h.R.Intn(m.n)
	eon := r.eon()
	kind := r.h.R.Intn(4)
	if kind == 1 && from == m.me && m.phase == 0 {
		return // nobody else knows this participant's polynomial before it dealt
	}
	switch kind {
	case 0:
		p := r.polys[from]
		switch r.h.R.Intn(10) {
		case 0:
			p = zzRandPoly(r.h, m.th+1)
		case 1:
			p = zzRandPoly(r.h, m.th-1)
		case 2:
			p = zzRandPoly(r.h, m.th)
		}
		_, dup := m.comm[from]
		ok := eon == 5 && m.phase <= 1 && !dup && m.deg(p)
		r.say("commitment eon=%d sender=%d %v", eon, from, p)
		err := r.pure.HandlePolyCommitmentMsg(PolyCommitmentMsg{Eon: eon, Sender: uint64(from), Gammas: p.gammas()})
		r.check((err == nil) == ok, "commitment: error %v, should be accepted: %v", err, ok)
		if ok {
			m.comm[from] = p
		}
	case 1:
		recv := m.me
		if r.h.R.Intn(6) == 0 {
			recv = to
		}
		v := r.value(r.polys[from].at(recv))
		_, dup := m.evals[from]
		ok := eon == 5 && m.phase <= 1 && !dup && recv == m.me && zzInField(v)
		r.say("evaluation eon=%d sender=%d receiver=%d %v", eon, from, recv, v)
		w := new(big.Int).Set(v)
		err := r.pure.HandlePolyEvalMsg(PolyEvalMsg{Eon: eon, Sender: uint64(from), Receiver: uint64(recv), Eval: w})
		r.check((err == nil) == ok, "evaluation: error %v, should be accepted: %v", err, ok)
		r.check(w.Cmp(v) == 0, "the message's evaluation was changed")
		if ok {
			m.evals[from] = v
		}
	case 2:
		k := [2]int{from, to}
		ok := eon == 5 && m.phase <= 2 && !m.acc[k]
		r.say("accusation eon=%d by=%d of=%d", eon, from, to)
		err := r.pure.HandleAccusationMsg(AccusationMsg{Eon: eon, Accuser: uint64(from), Accused: uint64(to)})
		r.check((err == nil) == ok, "accusation: error %v, should be accepted: %v", err, ok)
		if ok {
			m.acc[k] = true
		}
	default:
		k := [2]int{from, to}
		if len(m.acc) > 0 && r.h.R.Intn(3) > 0 {
			for k = range m.acc {
				break
			}
		}
		c, ok0 := m.comm[k[1]]
		if !ok0 {
			c = r.polys[k[1]]
		}
		v := r.value(c.at(k[0]))
		_, dup := m.apo[k]
		ok := eon == 5 && m.phase <= 3 && !dup && zzInField(v)
		r.say("apology eon=%d to=%d by=%d %v", eon, k[0], k[1], v)
		err := r.pure.HandleApologyMsg(ApologyMsg{Eon: eon, Accuser: uint64(k[0]), Accused: uint64(k[1]), Eval: new(big.Int).Set(v)})
		r.check((err == nil) == ok, "apology: error %v, should be accepted: %v", err, ok)
		if ok {
			m.apo[k] = v
		}
	}
}

func (r *zzRun) start(prop string) {
	m := r.m
	if prop == "S04" {
		// entering any other phase than the next one is refused
		for i, f := range []func(){func() { r.pure.StartPhase1Dealing() }, func() { r.pure.StartPhase2Accusing() }, func() { r.pure.StartPhase3Apologizing() }, r.pure.Finalize} {
			if i == m.phase {
				continue
			}
			panicked := func() (p bool) {
				defer func() { p = recover() != nil }()
				f()
				return
			}()
			r.check(panicked, "phase %d entered from phase %d", i+1, m.phase)
		}
		r.same()
	}
	switch m.phase {
	case 0:
		r.say("start dealing")
		c, evals, err := r.pure.StartPhase1Dealing()
		if err != nil {
			return
		}
		m.phase++
		r.own = nil
		for _, x := range *r.pure.Polynomial {
			r.own = append(r.own, new(big.Int).Set(x))
		}
		r.polys[m.me] = r.own
		r.check(len(r.own) == m.th, "polynomial with %d coefficients for threshold %d", len(r.own), m.th)
		r.check(c.Eon == 5 && int(c.Sender) == m.me && c.Gammas.Equal(*r.own.gammas()), "commitment sent is not that of the polynomial")
		seen := map[int]bool{m.me: true}
		for _, e := range evals {
			to := int(e.Receiver)
			r.check(e.Eon == 5 && int(e.Sender) == m.me && !seen[to] && to < m.n && e.Eval.Cmp(r.own.at(to)) == 0, "evaluation for %d is wrong", to)
			seen[to] = true
		}
		r.check(len(seen) == m.n, "evaluations for %d of %d", len(seen), m.n)
		if m.evals[m.me] == nil {
			m.evals[m.me] = r.own.at(m.me)
		}
	case 1:
		r.say("start accusing")
		out := r.pure.StartPhase2Accusing()
		m.phase++
		seen := map[int]bool{}
		for _, a := range out {
			r.check(a.Eon == 5 && int(a.Accuser) == m.me && !seen[int(a.Accused)], "odd accusation %v", a)
			seen[int(a.Accused)] = true
		}
		for d := 0; d < m.n; d++ {
			c, ok := m.comm[d]
			e := m.evals[d]
			want := d != m.me && (!ok || e == nil || e.Cmp(c.at(m.me)) != 0)
			r.check(seen[d] == want, "dealer %d accused: %v instead of %v", d, seen[d], want)
		}
	case 2:
		r.say("start apologizing")
		out := r.pure.StartPhase3Apologizing()
		m.phase++
		seen := map[int]bool{}
		for _, a := range out {
			by := int(a.Accuser)
			r.check(a.Eon == 5 && int(a.Accused) == m.me && !seen[by] && m.acc[[2]int{by, m.me}], "odd apology %v", a)
			r.check(a.Eval.Cmp(r.own.at(by)) == 0, "apology to %d is not the true evaluation", by)
			seen[by] = true
		}
		for k := range m.acc {
			r.check(k[1] != m.me || seen[k[0]], "accusation by %d not answered", k[0])
		}
	case 3:
		r.say("finalize")
		r.pure.Finalize()
		m.phase++
	}
}

func (r *zzRun) verdicts() {
	for d := 0; d < r.m.n; d++ {
		got := r.pure.isCorrupt(uint64(d))
		r.check(got == r.m.corrupt(d), "dealer %d corrupt: %v", d, got)
	}
}

func (r *zzRun) result() {
	m := r.m
	res, err := r.pure.ComputeResult()
	if m.phase < 4 {
		r.check(err != nil, "result before the end")
		return
	}
	good, ok := 0, true
	pk, sk := new(big.Int), new(big.Int)
	for d := 0; d < m.n; d++ {
		if m.corrupt(d) {
			continue
		}
		good++
		e := m.eval(d)
		if e == nil || e.Cmp(m.comm[d].at(m.me)) != 0 {
			ok = false
			break
		}
		pk.Add(pk, m.comm[d][0])
		sk.Add(sk, e)
	}
	if good < m.th {
		ok = false
	}
	r.check((err == nil) == ok, "result error %v, should succeed: %v", err, ok)
	if err != nil || !ok {
		return
	}
	r.check(res.Eon == 5 && res.NumKeypers == uint64(m.n) && res.Threshold == uint64(m.th) && res.Keyper == uint64(m.me), "wrong parameters in the result")
	sk.Mod(sk, zzOrder)
	r.check((*big.Int)(res.SecretKeyShare).Cmp(sk) == 0, "secret share %v instead of %v", (*big.Int)(res.SecretKeyShare), sk)
	want := shcrypto.EonPublicKey(*zzP2(pk))
	r.check(res.PublicKey.Equal(&want), "public key is not the sum of the qualified")
	r.check(len(res.PublicKeyShares) == m.n, "%d public shares", len(res.PublicKeyShares))
	for k := range res.PublicKeyShares {
		s := new(big.Int)
		for d := 0; d < m.n; d++ {
			if !m.corrupt(d) {
				s.Add(s, m.comm[d].at(k))
			}
		}
		w := shcrypto.EonPublicKeyShare(*zzP2(s))
		r.check(res.PublicKeyShares[k].Equal(&w), "public share of %d is not the counterpart of its secret share", k)
	}
}

func zzHistory(h *zzverif.H, prop string) {
	n := 1 + h.R.Intn(4)
	th := 1 + h.R.Intn(n)
	me := h.R.Intn(n)
	p := NewPureDKG(5, uint64(n), uint64(th), uint64(me))
	r := &zzRun{h: h, pure: &p, m: &zzModel{n: n, th: th, me: me, comm: map[int]zzPoly{}, evals: map[int]*big.Int{}, acc: map[[2]int]bool{}, apo: map[[2]int]*big.Int{}}}
	for i := 0; i < n; i++ {
		r.polys = append(r.polys, zzRandPoly(h, th))
	}
	r.say("n=%d threshold=%d keyper=%d", n, th, me)
	h.NoPanic("history", func() {
		honest := h.R.Intn(2) == 0
		for ph := 0; ph <= 4; ph++ {
			if ph == 1 && honest {
				for d := 0; d < n; d++ { // most dealers do their part
					if h.R.Intn(8) > 0 {
						_, dup := r.m.comm[d]
						r.say("commitment of %d", d)
						err := r.pure.HandlePolyCommitmentMsg(PolyCommitmentMsg{Eon: 5, Sender: uint64(d), Gammas: r.polys[d].gammas()})
						r.check((err == nil) == !dup, "commitment: %v", err)
						if !dup {
							r.m.comm[d] = r.polys[d]
						}
					}
					if _, dup := r.m.evals[d]; !dup && h.R.Intn(8) > 0 {
						v := r.polys[d].at(me)
						if h.R.Intn(8) == 0 {
							v = big.NewInt(3)
						}
						r.say("evaluation of %d: %v", d, v)
						err := r.pure.HandlePolyEvalMsg(PolyEvalMsg{Eon: 5, Sender: uint64(d), Receiver: uint64(me), Eval: v})
						r.check(err == nil, "evaluation: %v", err)
						r.m.evals[d] = v
					}
				}
			}
			if ph == 3 && honest { // most accusations are answered
				for k := range r.m.acc {
					c, ok := r.m.comm[k[1]]
					if _, dup := r.m.apo[k]; ok && !dup && h.R.Intn(6) > 0 {
						r.say("apology %v", k)
						v := c.at(k[0])
						err := r.pure.HandleApologyMsg(ApologyMsg{Eon: 5, Accuser: uint64(k[0]), Accused: uint64(k[1]), Eval: v})
						r.check(err == nil, "apology: %v", err)
						r.m.apo[k] = v
					}
				}
			}
			cnt := h.R.Intn(5)
			if !honest {
				cnt = h.R.Intn(12)
			}
			for ; cnt > 0; cnt-- {
				r.message()
				if prop == "S04" {
					r.same()
				}
				if prop == "S05" {
					r.verdicts()
				}
			}
			if prop == "S05" {
				r.verdicts()
			}
			if prop == "S06" && (ph == 4 || h.R.Intn(8) == 0) {
				r.result()
				r.same()
			}
			r.start(prop)
		}
	})
	h.Case(r.log)
}

func TestReplay_S04_histories(t *testing.T) {
	h := zzverif.New(t, "random message histories against an independent record", "to 4 keypers")
	for i := 0; i < h.N(150); i++ {
		zzHistory(h, "S04")
	}
}

func TestReplay_S05_histories(t *testing.T) {
	h := zzverif.New(t, "random message histories against an independent verdict", "to 4 keypers")
	for i := 0; i < h.N(100); i++ {
		zzHistory(h, "S05")
	}
}

func TestReplay_S06_histories(t *testing.T) {
	h := zzverif.New(t, "random message histories against independently computed keys", "to 4 keypers")
	for i := 0; i < h.N(150); i++ {
		zzHistory(h, "S06")
	}
}
