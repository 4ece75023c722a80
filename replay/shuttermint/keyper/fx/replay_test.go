package fx

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"testing"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/zzverif"
)

func init() { log.SetOutput(ioutil.Discard) }

type zzPending struct {
	acts map[ActionID]string
	hash map[ActionID]common.Hash
	next ActionID
}

func zzShow(a IAction) string {
	switch x := a.(type) {
	case *SkipCipherBatch:
		return fmt.Sprint("skip ", x.BatchIndex)
	case *Accuse:
		return fmt.Sprint("accuse ", x.HalfStep, x.KeyperIndex)
	case *SendShuttermintMessage:
		return "send " + x.Description
	}
	return fmt.Sprintf("%T %v", a, a)
}

func zzEqual(p *PendingActions, m *zzPending) string {
	ids := p.SortedIDs()
	if len(ids) != len(m.acts) {
		return fmt.Sprintf("pending %v instead of %d actions", ids, len(m.acts))
	}
	for i, id := range ids {
		if i > 0 && ids[i-1] >= id {
			return fmt.Sprintf("ids not in order: %v", ids)
		}
		a := p.GetAction(id)
		if a == nil || zzShow(a) != m.acts[id] {
			return fmt.Sprintf("action %d is %s instead of %q", id, zzShow(a), m.acts[id])
		}
	}
	for i := ActionID(0); i < m.next; i++ {
		if p.GetMainChainTXHash(i) != m.hash[i] {
			return fmt.Sprintf("hash of %d is %x instead of %x", i, p.GetMainChainTXHash(i), m.hash[i])
		}
	}
	if p.CurrentID != m.next {
		return fmt.Sprintf("next id %d instead of %d", p.CurrentID, m.next)
	}
	return ""
}

func zzActions(h *zzverif.H, k int, from ActionID) (as []IAction) {
	for i := 0; i < k; i++ {
		n := uint64(from) + uint64(i)
		switch n % 3 { // the same id always names the same action
		case 0:
			as = append(as, &SkipCipherBatch{BatchIndex: n})
		case 1:
			as = append(as, &Accuse{HalfStep: n, KeyperIndex: 1})
		default:
			as = append(as, &SendShuttermintMessage{Description: fmt.Sprint(n), Msg: shmsg.NewEonStartVote(n)})
		}
	}
	return
}

func zzRunPending(t *testing.T, prop string) {
	h := zzverif.New(t, "random histories of recording, replaying, completing and restarting, in a scratch directory", "30 steps")
	for n := 0; n < h.N(20); n++ {
		func() {
			dir, err := ioutil.TempDir("", "zzfx")
			if err != nil {
				t.Fatal(err)
			}
			defer os.RemoveAll(dir)
			path := filepath.Join(dir, "p.gob")
			p := NewPendingActions(path)
			m := &zzPending{map[ActionID]string{}, map[ActionID]common.Hash{}, 0}
			log := ""
			for s := 0; s < 30; s++ {
				saved := false
				if !h.NoPanic(log, func() {
					switch h.R.Intn(5) {
					case 0, 1:
						id := m.next
						if h.R.Intn(2) == 0 && id > 0 {
							id -= ActionID(h.R.Intn(int(id) + 1))
						}
						as := zzActions(h, h.R.Intn(5), id)
						log += fmt.Sprintf("; add %d actions from %d", len(as), id)
						st, end := p.AddActions(id, as)
						from := m.next
						for i, a := range as {
							if id+ActionID(i) >= m.next {
								m.acts[id+ActionID(i)] = zzShow(a)
								m.next = id + ActionID(i) + 1
								saved = true
							}
						}
						h.Check(st == from && end == m.next, "to be scheduled %d..%d instead of %d..%d%s", st, end, from, m.next, log)
					case 2:
						if m.next == 0 {
							return
						}
						id := ActionID(h.R.Intn(int(m.next)))
						log += fmt.Sprintf("; complete %d", id)
						p.RemoveAction(id)
						delete(m.acts, id)
						delete(m.hash, id)
						saved = true
					case 3:
						if m.next == 0 {
							return
						}
						id := ActionID(h.R.Intn(int(m.next)))
						if _, ok := m.acts[id]; !ok {
							return
						}
						x := common.BytesToHash(h.Bytes(32))
						log += fmt.Sprintf("; hash of %d", id)
						p.SetMainChainTXHash(id, x)
						m.hash[id] = x
						saved = true
					default:
						log += "; restart"
						p = NewPendingActions(path)
						if err := p.Load(); err != nil {
							h.Fail("loading: %v%s", err, log)
						}
					}
				}) {
					return
				}
				d := zzEqual(p, m)
				h.Check(d == "", "%s%s", d, log)
				if saved {
					q := NewPendingActions(path)
					err := q.Load()
					d := zzEqual(q, m)
					h.Check(err == nil && d == "", "on disk: %v %s%s", err, d, log)
				}
				if d != "" {
					return
				}
			}
			h.Case(log)
			if prop != "K04" || m.next == 0 {
				return
			}
			// a save that fails leaves the file alone and stops the program
			for _, fault := range []string{"create", "full", "encode"} {
				tmp := path + ".tmp"
				os.RemoveAll(tmp)
				p.SetMainChainTXHash(0, common.BytesToHash(h.Bytes(32)))
				old, _ := ioutil.ReadFile(path)
				bad := IAction(&SkipCipherBatch{BatchIndex: 77})
				switch fault {
				case "create":
					os.MkdirAll(filepath.Join(tmp, "x"), 0o700)
				case "full":
					os.Symlink("/dev/full", tmp)
				case "encode":
					bad = zzUnknown{}
				}
				panicked := func() (b bool) {
					defer func() { b = recover() != nil }()
					p.AddActions(p.CurrentID, []IAction{bad})
					return
				}()
				now, _ := ioutil.ReadFile(path)
				h.Casef("%s %s", log, fault)
				if panicked {
					h.Check(bytes.Equal(old, now), "a failed save (%s) changed the saved file from %d to %d bytes", fault, len(old), len(now))
				} else {
					q := NewPendingActions(path)
					err := q.Load()
					h.Check(err == nil && q.GetAction(p.CurrentID-1) != nil, "the action was accepted although saving it fails (%s)", fault)
				}
				os.RemoveAll(tmp)
				// go on from what was saved
				p = NewPendingActions(path)
				if err := p.Load(); err != nil {
					h.Fail("loading after a failed save (%s): %v", fault, err)
					return
				}
			}
		}()
	}
}

// zzUnknown is an action type that cannot be written.
type zzUnknown struct{ SkipCipherBatch }

func TestReplay_K10_histories(t *testing.T) { zzRunPending(t, "K10") }

func TestReplay_K04_histories(t *testing.T) { zzRunPending(t, "K04") }
