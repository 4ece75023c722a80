// The ledger of pending actions (K10).
package fx "github.com/shutter-network/shutter/shuttermint/keyper/fx"
define wfPending(p) = p != nil && p.ActionMap != nil && p.MainChainTXHashes != nil &&
  (forall i: fx.ActionID :: i in p.ActionMap ==> i < p.CurrentID)

fn fx.NewPendingActions(path) returns (p) props K10 use nopanic
  modifies
  ensures [empty] wfPending(p) && p.CurrentID == 0 && p.path == path && fresh(p) && fresh(p.ActionMap) && fresh(p.MainChainTXHashes) && (forall i: fx.ActionID :: !(i in p.ActionMap) && !(i in p.MainChainTXHashes))

fn (*fx.PendingActions).AddActions(p, id, acts) returns (first, end) props K04,K10 use
  requires wfPending(p) && id + len(acts) <= 18446744073709551615
  requires p.path == livePath[0] && pathsApart()
  modifies mapof(p.ActionMap), p.CurrentID, lastFile[0], liveVal[0], liveIDs[0], liveActions[0], liveHashes[0], liveNext[0], liveState[0], livePlan[0], liveCounter[0]
  loopinv ($n: int) p.CurrentID == old(p.CurrentID) && forall i: fx.ActionID :: i in p.ActionMap <==> (old(i in p.ActionMap) || (old(p.CurrentID) <= i && i < old(p.CurrentID) + $n))
  loopinv ($n: int) forall i: fx.ActionID :: p.ActionMap[i] == ite(old(p.CurrentID) <= i && i < old(p.CurrentID) + $n, acts[i - id], old(p.ActionMap[i]))
  maypanic [disk failure] diskFails[0]
  panics [a plan starting beyond the ledger] id > p.CurrentID
  ensures [identities continue without gap] first == old(p.CurrentID) && end == p.CurrentID && p.CurrentID == ite(old(p.CurrentID) < id + len(acts), id + len(acts), old(p.CurrentID))
  ensures [exactly the new actions become pending] forall i: fx.ActionID :: i in p.ActionMap <==> (old(i in p.ActionMap) || (old(p.CurrentID) <= i && i < id + len(acts)))
  ensures [each under its own identity] forall i: fx.ActionID :: p.ActionMap[i] == ite(old(p.CurrentID) <= i && i < id + len(acts), acts[i - id], old(p.ActionMap[i]))
  ensures [on disk when it returns] old(p.CurrentID) < id + len(acts) || old(onDisk(p)) ==> onDisk(p)
  ensures [invariant] wfPending(p)

fn (*fx.PendingActions).RemoveAction(p, id) props K04,K10 use
  requires wfPending(p) && p.path == livePath[0] && pathsApart()
  maypanic [disk failure] diskFails[0]
  modifies mapof(p.ActionMap), mapof(p.MainChainTXHashes), lastFile[0], liveVal[0], liveIDs[0], liveActions[0], liveHashes[0], liveNext[0], liveState[0], livePlan[0], liveCounter[0]
  ensures [only this one is dropped] forall i: fx.ActionID :: (i in p.ActionMap <==> old(i in p.ActionMap) && i != id) && (i != id ==> p.ActionMap[i] == old(p.ActionMap[i]))
  ensures [and its transaction hash] forall i: fx.ActionID :: (i in p.MainChainTXHashes <==> old(i in p.MainChainTXHashes) && i != id) && (i != id ==> p.MainChainTXHashes[i] == old(p.MainChainTXHashes[i]))
  ensures [on disk when it returns] onDisk(p)
  ensures [invariant] wfPending(p)

fn (*fx.PendingActions).GetAction(p, id) returns (a) props K10 use nopanic
  requires wfPending(p)
  modifies
  ensures [the recorded action] a == p.ActionMap[id]

fn (*fx.PendingActions).SetMainChainTXHash(p, id, h) props K04,K10 use
  requires wfPending(p) && p.path == livePath[0] && pathsApart()
  maypanic [disk failure] diskFails[0]
  modifies mapof(p.MainChainTXHashes), lastFile[0], liveVal[0], liveIDs[0], liveActions[0], liveHashes[0], liveNext[0], liveState[0], livePlan[0], liveCounter[0]
  ensures [recorded for this action only] forall i: fx.ActionID :: (i in p.MainChainTXHashes <==> old(i in p.MainChainTXHashes) || i == id) && p.MainChainTXHashes[i] == ite(i == id, h, old(p.MainChainTXHashes[i]))
  ensures [on disk when it returns] onDisk(p)

fn (*fx.PendingActions).GetMainChainTXHash(p, id) returns (h) props K10 use nopanic
  requires wfPending(p)
  modifies
  ensures [the recorded hash] h == p.MainChainTXHashes[id]

fn (*fx.PendingActions).SortedIDs(p) returns (r) props K10 use nopanic
  requires wfPending(p)
  modifies
  loopinv forall i: fx.ActionID :: visited[i] ==> i in p.ActionMap
  loopinv ($r: []fx.ActionID) ($r != nil ==> fresh($r)) && (ref($r) == 0 ==> len($r) == 0) && forall j: int :: 0 <= j && j < len($r) ==> visited[$r[j]]
  loopinv ($r: []fx.ActionID) forall i: int, j: int :: 0 <= i && i < j && j < len($r) ==> $r[i] != $r[j]
  loopinv ($r: []fx.ActionID) forall i: fx.ActionID :: visited[i] ==> exists j: int :: 0 <= j && j < len($r) && $r[j] == i
  ensures [only pending ones] forall j: int :: 0 <= j && j < len(r) ==> r[j] in p.ActionMap
  ensures [in strictly increasing order] forall i: int, j: int :: 0 <= i && i < j && j < len(r) ==> r[i] < r[j]
  ensures [all pending ones] forall i: fx.ActionID :: i in p.ActionMap ==> exists j: int :: 0 <= j && j < len(r) && r[j] == i

// what the ledger file holds
define onDisk(p) = liveIDs[0] == dom(p.ActionMap) && liveActions[0] == vals(p.ActionMap) && liveHashes[0] == vals(p.MainChainTXHashes) && liveNext[0] == p.CurrentID
fn (*fx.PendingActions).save(p) props K04,K10 use
  requires p != nil && p.path == livePath[0] && pathsApart()
  maypanic [disk failure] diskFails[0]
  modifies lastFile[0], liveVal[0], liveIDs[0], liveActions[0], liveHashes[0], liveNext[0], liveState[0], livePlan[0], liveCounter[0]
  ensures [the file holds the ledger] onDisk(p)


// Running a step: save first, then hand over (K04), every scheduled action is already in the ledger (K10).
extern (*fx.RunEnv).scheduleAction(r, ctx, id) returns (err)
  requires [recorded on disk before it is started] liveIDs[0][id]
fn (*fx.RunEnv).RunActions(r, ctx, counter, acts) returns (err) props K10 use
  requires r != nil && wfPending(r.PendingActions) && r.PendingActions.path == livePath[0] && pathsApart() && counter + len(acts) <= 18446744073709551615
  requires [the actions are saved before they are run] len(acts) > 0 ==> livePlan[1] == acts && liveCounter[1] == counter
  maypanic [disk failure] diskFails[0]
  panics [a plan starting beyond the ledger] len(acts) > 0 && counter > r.PendingActions.CurrentID
  modifies mapof(r.PendingActions.ActionMap), r.PendingActions.CurrentID, lastFile[0], liveVal[0], liveIDs[0], liveActions[0], liveHashes[0], liveNext[0], liveState[0], livePlan[0], liveCounter[0]
  loopinv ($i: fx.ActionID) $i >= old(r.PendingActions.CurrentID)
  ensures [exactly the new actions become pending] (len(acts) > 0 || counter <= old(r.PendingActions.CurrentID)) ==> (forall i: fx.ActionID :: i in r.PendingActions.ActionMap <==> (old(i in r.PendingActions.ActionMap) || (old(r.PendingActions.CurrentID) <= i && i < counter + len(acts))))
  ensures [each under its own identity] (len(acts) > 0 || counter <= old(r.PendingActions.CurrentID)) ==> (forall i: fx.ActionID :: r.PendingActions.ActionMap[i] == ite(old(r.PendingActions.CurrentID) <= i && i < counter + len(acts), acts[i - counter], old(r.PendingActions.ActionMap[i])))
  ensures [identities continue without gap] (len(acts) > 0 || counter <= old(r.PendingActions.CurrentID)) ==> (r.PendingActions.CurrentID == ite(old(r.PendingActions.CurrentID) < counter + len(acts), counter + len(acts), old(r.PendingActions.CurrentID)))
  ensures [invariant] wfPending(r.PendingActions)

extern (*keyper.Keyper).CurrentWorld(k) returns (w)
  requires k != nil
extern (*keyper.Keyper).ShortInfo(k) returns (s)
  requires k != nil
fn (*keyper.Keyper).saveState(k) returns (err) props K04 use nopanic
  requires k != nil && k.State != nil && livePath[1] == join2(k.Config.DBDir, "state.gob") && pathsApart()
  modifies lastFile[0], liveVal[1], liveIDs[1], liveActions[1], liveHashes[1], liveNext[1], liveState[1], livePlan[1], liveCounter[1]
  ensures [the file holds this state and plan] err == nil ==> liveState[1] == ref(k.State) && livePlan[1] == k.State.Actions && liveCounter[1] == k.State.ActionCounter
  ensures err != nil ==> diskFails[0]

define wfKeyper(k) = k != nil && k.State != nil && k.runenv != nil && wfPending(k.runenv.PendingActions) && k.runenv.PendingActions.path == livePath[0] && livePath[1] == join2(k.Config.DBDir, "state.gob") && pathsApart() && k.State.ActionCounter <= k.runenv.PendingActions.CurrentID && k.State.ActionCounter + len(k.State.Actions) <= 18446744073709551615
fn (*keyper.Keyper).runActions(k, ctx) returns (err) props K04 use
  requires wfKeyper(k)
  requires [the actions are saved before they are run] livePlan[1] == k.State.Actions && liveCounter[1] == k.State.ActionCounter
  maypanic [disk failure] diskFails[0]
  modifies k.lastlogTime, k.State.Actions, k.State.ActionCounter, mapof(k.runenv.PendingActions.ActionMap), k.runenv.PendingActions.CurrentID, lastFile[0], liveVal[0], liveIDs[0], liveActions[0], liveHashes[0], liveNext[0], liveState[0], livePlan[0], liveCounter[0]
  ensures [the plan is used up once handed over] err == nil ==> len(k.State.Actions) == 0 && k.State.ActionCounter == old(k.State.ActionCounter + len(k.State.Actions)) && k.State.ActionCounter <= k.runenv.PendingActions.CurrentID
  ensures [kept otherwise] err != nil ==> k.State.Actions == old(k.State.Actions) && k.State.ActionCounter == old(k.State.ActionCounter)
  ensures [every planned action is in the ledger] forall i: fx.ActionID :: i in k.runenv.PendingActions.ActionMap <==> (old(i in k.runenv.PendingActions.ActionMap) || (old(k.runenv.PendingActions.CurrentID) <= i && i < old(k.State.ActionCounter + len(k.State.Actions))))

extern (*keyper.Keyper).decide(k) returns (acts)
  requires k != nil
  modifies k.State.LastEonStarted, k.State.SyncHeight
  ensures k.State.ActionCounter + len(acts) <= 18446744073709551615
fn (*keyper.Keyper).runOneStep(k, ctx) returns (err) props K04
  requires wfKeyper(k)
  maypanic [disk failure] diskFails[0]
  panics [an unfinished plan] len(k.State.Actions) > 0
  ensures [the plan is used up once handed over] err == nil ==> len(k.State.Actions) == 0
