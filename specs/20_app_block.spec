// Starting configurations, block ends and validator updates (A08 A09), transaction delivery (A01 A02).
fn (*app.ShutterApp).deliverBatchConfigStarted(app, msg, sender) returns (r) props A09 use own nopanic nobytes
  requires wfApp(app) && msg != nil
  modifies mapof(app.StartedVotes)
  ensures [accept iff keyper of the previous configuration names the last one] r.Code == 0 <==> old(msg.BatchConfigIndex == last(app).ConfigIndex && len(app.Configs) >= 2 && listed(app.Configs[len(app.Configs)-2].Keypers, sender))
  ensures [rejection changes nothing] r.Code != 0 ==> unchanged()
  ensures [one vote per keyper, none once started] r.Code == 0 ==> (forall a: common.Address :: a in app.StartedVotes <==> (old(a in app.StartedVotes) || (a == sender && !last(app).Started)))
  ensures [invariant] wfApp(app)

// number of checked-in keypers among the first n
declare checkedIn((Array @common.Address Bool), (Array Int @common.Address), Int, Int): Int needs checkedIn_ax
smt checkedIn_ax
  (assert (forall ((d (Array @common.Address Bool)) (e (Array Int @common.Address)) (o Int)) (! (= (checkedIn d e o 0) 0) :pattern ((checkedIn d e o 0)))))
  (assert (forall ((d (Array @common.Address Bool)) (e (Array Int @common.Address)) (o Int) (n Int)) (! (and (<= 0 (checkedIn d e o n)) (=> (<= 0 n) (<= (checkedIn d e o n) n))) :pattern ((checkedIn d e o n)))))
  (assert (forall ((d (Array @common.Address Bool)) (e (Array Int @common.Address)) (o Int) (n Int)) (! (=> (>= n 0) (= (checkedIn d e o (+ n 1)) (+ (checkedIn d e o n) (ite (select d (select e (ix o n))) 1 0)))) :pattern ((checkedIn d e o n) (select e (ix o n))))))
define numCheckedIn(app, ks) = checkedIn(dom(app.Identities), elems(ks), off(ks), len(ks))

fn (*app.ShutterApp).countCheckedInKeypers(app, keypers) returns (n) props A09 use nopanic
  requires app != nil && app.Identities != nil
  modifies
  loopinv ($n: int, $c: uint64) $c == checkedIn(dom(app.Identities), elems(keypers), off(keypers), $n)
  ensures [every keyper with an identity counts] n == numCheckedIn(app, keypers)

// power of a validator key: ten per keyper of the list registered with it
declare kc((Array @common.Address Bool), (Array @common.Address @app.ValidatorPubkey), (Array Int @common.Address), Int, Int, @app.ValidatorPubkey, @app.ValidatorPubkey): Int needs kc_ax
smt kc_ax
  (assert (forall ((d (Array @common.Address Bool)) (v (Array @common.Address @app.ValidatorPubkey)) (e (Array Int @common.Address)) (o Int) (z @app.ValidatorPubkey) (p @app.ValidatorPubkey)) (! (= (kc d v e o 0 z p) 0) :pattern ((kc d v e o 0 z p)))))
  (assert (forall ((d (Array @common.Address Bool)) (v (Array @common.Address @app.ValidatorPubkey)) (e (Array Int @common.Address)) (o Int) (n Int) (z @app.ValidatorPubkey) (p @app.ValidatorPubkey)) (! (=> (<= 0 n) (and (<= 0 (kc d v e o n z p)) (<= (kc d v e o n z p) n))) :pattern ((kc d v e o n z p)))))
  (assert (forall ((d (Array @common.Address Bool)) (v (Array @common.Address @app.ValidatorPubkey)) (e (Array Int @common.Address)) (o Int) (n Int) (z @app.ValidatorPubkey) (p @app.ValidatorPubkey)) (! (=> (<= 0 n) (= (kc d v e o (+ n 1) z p) (+ (kc d v e o n z p) (ite (= p (ite (select d (select e (ix o n))) (select v (select e (ix o n))) z)) 1 0)))) :pattern ((kc d v e o n z p) (select e (ix o n))))))
define power(ap, ks, p) = 10 * kc(dom(ap.Identities), vals(ap.Identities), elems(ks), off(ks), len(ks), app.NonExistentValidator, p)

fn (*app.ShutterApp).makePowermap(ap, keypers) returns (pm) props A08 use nopanic
  requires ap != nil && ap.Identities != nil
  modifies
  loopinv ($n: int, $m: app.Powermap) $m != nil && fresh($m) && (forall p: app.ValidatorPubkey :: $m[p] == 10 * kc(dom(ap.Identities), vals(ap.Identities), elems(keypers), off(keypers), $n, app.NonExistentValidator, p)) && (forall p: app.ValidatorPubkey :: p in $m <==> $m[p] > 0)
  ensures [ten per keyper registered with the key] forall p: app.ValidatorPubkey :: pm[p] == power(ap, keypers, p)
  ensures [exactly the keys with power] pm != nil && fresh(pm) && forall p: app.ValidatorPubkey :: p in pm <==> pm[p] > 0

fn app.DiffPowermaps(oldpm, newpm) returns (d) props A08 use nopanic
  modifies
  loopinv ($m: app.Powermap) $m != nil && fresh($m)
  loopinv forall p: app.ValidatorPubkey :: visited[p] ==> p in oldpm
  loopinv forall p: app.ValidatorPubkey :: visited[p] ==> p in newpm
  loopinv ($m: app.Powermap) forall p: app.ValidatorPubkey :: (p in $m <==> visited[p] && !(p in newpm)) && (p in $m ==> $m[p] == 0)
  loopinv ($m: app.Powermap) forall p: app.ValidatorPubkey :: (p in $m <==> (p in oldpm && !(p in newpm)) || (visited[p] && oldpm[p] != newpm[p])) && (p in $m ==> $m[p] == newpm[p])
  ensures [exactly the keys removed or changed] forall p: app.ValidatorPubkey :: p in d <==> (p in oldpm && !(p in newpm)) || oldpm[p] != newpm[p]
  ensures [with their new power, zero when removed] d != nil && fresh(d) && forall p: app.ValidatorPubkey :: p in d ==> d[p] == newpm[p]
  ensures [applying the difference gives the new powers] forall p: app.ValidatorPubkey :: ite(p in d, d[p], oldpm[p]) == newpm[p]

package sort "sort"
define updKey(u) = content(as(u.PubKey.Sum, *tmcrypto.PublicKey_Ed25519).Ed25519)
define isUpd(u) = istype(u.PubKey.Sum, *tmcrypto.PublicKey_Ed25519) && as(u.PubKey.Sum, *tmcrypto.PublicKey_Ed25519) != nil
package tmcrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"

package bytes "bytes"
// three-way comparison of byte strings: a total order
declare bcmp(Str, Str): Int needs bcmp_ax
smt bcmp_ax
  (assert (forall ((a Str) (b Str)) (! (and (= (= (bcmp a b) 0) (= a b)) (= (< (bcmp a b) 0) (> (bcmp b a) 0))) :pattern ((bcmp a b)))))
  (assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (< (bcmp a b) 0) (< (bcmp b c) 0)) (< (bcmp a c) 0)) :pattern ((bcmp a b) (bcmp b c)))))
extern bytes.Compare(a, b) returns (r)
  equals bcmp(content(a), content(b))
extern (*tmcrypto.PublicKey).GetEd25519(k) returns (r)
  requires k != nil
  requires istype(k.Sum, *tmcrypto.PublicKey_Ed25519) && as(k.Sum, *tmcrypto.PublicKey_Ed25519) != nil
  equals as(k.Sum, *tmcrypto.PublicKey_Ed25519).Ed25519

// the permutation a sort applied to a slice
declare sortPerm((Array Int @abcitypes.ValidatorUpdate), (Array Int @abcitypes.ValidatorUpdate), Int, Int, Int): Int
declare sortPermInv((Array Int @abcitypes.ValidatorUpdate), (Array Int @abcitypes.ValidatorUpdate), Int, Int, Int): Int
define perm(v, i) = sortPerm(old(elems(v)), elems(v), off(v), len(v), i)
define permInv(v, i) = sortPermInv(old(elems(v)), elems(v), off(v), len(v), i)

fn app.SortValidators(v) props A08 use nopanic
  requires forall i: int :: 0 <= i && i < len(v) ==> isUpd(v[i])
  modifies elems(v)
  ensures [ordered by key] forall i: int, j: int :: 0 <= i && i < j && j < len(v) ==> bcmp(updKey(v[i]), updKey(v[j])) <= 0
  ensures [a permutation: nothing added] forall i: int :: 0 <= i && i < len(v) ==> 0 <= perm(v, i) && perm(v, i) < len(v) && permInv(v, perm(v, i)) == i && forall j: int :: j == perm(v, i) ==> v[i] == old(v[j])
  ensures [a permutation: nothing lost] forall i: int :: 0 <= i && i < len(v) ==> 0 <= permInv(v, i) && permInv(v, i) < len(v) && perm(v, permInv(v, i)) == i && v[permInv(v, i)] == old(v[i])
  ensures [each key once] old(forall i: int, j: int :: 0 <= i && i < j && j < len(v) ==> updKey(v[i]) != updKey(v[j])) ==> (forall i: int, j: int :: 0 <= i && i < j && j < len(v) ==> updKey(v[i]) != updKey(v[j]))

fn (app.Powermap).ValidatorUpdates(pm) returns (r) props A08 use nopanic
  modifies
  loopinv forall p: app.ValidatorPubkey :: visited[p] ==> p in pm
  loopinv ($r: []abcitypes.ValidatorUpdate) ($r != nil ==> fresh($r)) && (ref($r) == 0 ==> len($r) == 0) && forall i: int :: 0 <= i && i < len($r) ==> isUpd($r[i]) && fresh(as($r[i].PubKey.Sum, *tmcrypto.PublicKey_Ed25519)) && ref(as($r[i].PubKey.Sum, *tmcrypto.PublicKey_Ed25519)) < allocated && fresh(as($r[i].PubKey.Sum, *tmcrypto.PublicKey_Ed25519).Ed25519) && ref(as($r[i].PubKey.Sum, *tmcrypto.PublicKey_Ed25519).Ed25519) < allocated && visited[mk(app.ValidatorPubkey, updKey($r[i]))] && $r[i].Power == pm[mk(app.ValidatorPubkey, updKey($r[i]))]
  loopinv ($r: []abcitypes.ValidatorUpdate) forall i: int, j: int :: 0 <= i && i < j && j < len($r) ==> updKey($r[i]) != updKey($r[j])
  loopinv ($r: []abcitypes.ValidatorUpdate) forall p: app.ValidatorPubkey :: visited[p] ==> exists i: int :: 0 <= i && i < len($r) && updKey($r[i]) == p.Ed25519pubkey
  ensures [only ed25519 keys] forall i: int :: 0 <= i && i < len(r) ==> isUpd(r[i])
  ensures [each listed key is in the map, with its power] forall i: int :: 0 <= i && i < len(r) ==> mk(app.ValidatorPubkey, updKey(r[i])) in pm && r[i].Power == pm[mk(app.ValidatorPubkey, updKey(r[i]))]
  ensures [each key once] forall i: int, j: int :: 0 <= i && i < j && j < len(r) ==> updKey(r[i]) != updKey(r[j])
  ensures [ordered by key] forall i: int, j: int :: 0 <= i && i < j && j < len(r) ==> bcmp(updKey(r[i]), updKey(r[j])) <= 0
  ensures [every key of the map is listed] forall p: app.ValidatorPubkey :: p in pm ==> exists i: int :: 0 <= i && i < len(r) && updKey(r[i]) == p.Ed25519pubkey

define active(ap, i) = ap.Configs[i].Started && ap.Configs[i].ValidatorsUpdated
define lastActive(ap, i) = 0 <= i && i < len(ap.Configs) && active(ap, i) && forall j: int :: i < j && j < len(ap.Configs) ==> !active(ap, j)
fn (*app.ShutterApp).CurrentValidators(ap) returns (pm) props A08 use nopanic
  requires ap != nil && wfConfigs(ap) && ap.Identities != nil
  modifies
  loopinv ($n: int) forall j: int :: $n < j && j < len(ap.Configs) ==> !active(ap, j)
  ensures [powers of the last active configuration] forall i: int, p: app.ValidatorPubkey :: lastActive(ap, i) ==> pm[p] == power(ap, ap.Configs[i].Keypers, p) && (p in pm <==> pm[p] > 0)
  ensures [initial powers while none is active] (forall i: int :: 0 <= i && i < len(ap.Configs) ==> !active(ap, i)) ==> pm == ap.Validators
  ensures [newly made or the same] pm == ap.Validators || fresh(pm)

define startNow(ap) = len(ap.Configs) >= 2 && len(ap.StartedVotes) >= ap.Configs[len(ap.Configs)-2].Threshold
fn (*app.ShutterApp).EndBlock(ap, req) returns (r) props A08,A09 nopanic
  requires wfApp(ap)
  modifies ap.StartedVotes, ap.Validators, ap.LastBlockHeight, last(ap).Started, last(ap).ValidatorsUpdated
  ensures [started when the previous configuration's threshold voted] last(ap).Started <==> old(last(ap).Started || startNow(ap))
  ensures [handover when started and the threshold checked in] last(ap).ValidatorsUpdated <==> old(last(ap).ValidatorsUpdated) || (last(ap).Started && old(numCheckedIn(ap, last(ap).Keypers) >= last(ap).Threshold))
  ensures [votes used up by the start] (old(startNow(ap)) ==> dom(ap.StartedVotes) == emptyset(common.Address)) && (!old(startNow(ap)) ==> ap.StartedVotes == old(ap.StartedVotes))
  ensures [powers of the last active configuration] forall i: int, p: app.ValidatorPubkey :: lastActive(ap, i) ==> ap.Validators[p] == power(ap, ap.Configs[i].Keypers, p)
  ensures [initial powers while none is active] (forall i: int :: 0 <= i && i < len(ap.Configs) ==> !active(ap, i)) ==> ap.Validators == old(ap.Validators)
  ensures [only ed25519 keys] forall i: int :: 0 <= i && i < len(r.ValidatorUpdates) ==> isUpd(r.ValidatorUpdates[i])
  ensures [updates carry the new powers] forall i: int :: 0 <= i && i < len(r.ValidatorUpdates) ==> r.ValidatorUpdates[i].Power == ap.Validators[mk(app.ValidatorPubkey, updKey(r.ValidatorUpdates[i]))]
  ensures [each key once] forall i: int, j: int :: 0 <= i && i < j && j < len(r.ValidatorUpdates) ==> updKey(r.ValidatorUpdates[i]) != updKey(r.ValidatorUpdates[j])
  ensures [ordered by key] forall i: int, j: int :: 0 <= i && i < j && j < len(r.ValidatorUpdates) ==> bcmp(updKey(r.ValidatorUpdates[i]), updKey(r.ValidatorUpdates[j])) <= 0
  ensures [every change is listed unless in development mode] !ap.DevMode ==> forall p: app.ValidatorPubkey :: old(ap.Validators[p]) != ap.Validators[p] ==> exists i: int :: 0 <= i && i < len(r.ValidatorUpdates) && updKey(r.ValidatorUpdates[i]) == p.Ed25519pubkey
  ensures [only removals and changes are listed] forall i: int :: 0 <= i && i < len(r.ValidatorUpdates) ==> old(mk(app.ValidatorPubkey, updKey(r.ValidatorUpdates[i])) in ap.Validators) || ap.Validators[mk(app.ValidatorPubkey, updKey(r.ValidatorUpdates[i]))] != old(ap.Validators[mk(app.ValidatorPubkey, updKey(r.ValidatorUpdates[i]))])
  ensures [development mode sends none] ap.DevMode ==> len(r.ValidatorUpdates) == 0
  ensures [invariant] wfApp(ap)
