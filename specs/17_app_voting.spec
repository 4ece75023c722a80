// Vote counting (A03 A04).
// cnt(voters, votes, i): how many voters voted for candidate i.
// small(s): the set has fewer than 2^62 members; the domain of every map is assumed small.
declare small((Array @common.Address Bool)): Bool
declare cnt((Array @common.Address Bool), (Array @common.Address Int), Int): Int needs cnt_ax,cnt_who
smt cnt_ax
  (assert (forall ((d (Array @common.Address Bool)) (v (Array @common.Address Int)) (i Int)) (! (and (<= 0 (cnt d v i)) (=> (small d) (< (cnt d v i) 4611686018427387904))) :pattern ((cnt d v i)))))
  (assert (forall ((d (Array @common.Address Bool)) (v (Array @common.Address Int)) (i Int)) (! (=> (= d ((as const (Array @common.Address Bool)) false)) (= (cnt d v i) 0)) :pattern ((cnt d v i)))))
  (assert (forall ((d (Array @common.Address Bool)) (v (Array @common.Address Int)) (i Int) (k @common.Address)) (! (=> (small (store d k true)) (= (cnt (store d k true) v i) (+ (cnt d v i) (ite (and (not (select d k)) (= (select v k) i)) 1 0)))) :pattern ((cnt (store d k true) v i)))))
  (assert (forall ((d (Array @common.Address Bool)) (v (Array @common.Address Int)) (i Int) (k @common.Address) (x Int)) (! (=> (small d) (= (cnt d (store v k x) i) (+ (cnt d v i) (ite (select d k) (- (ite (= x i) 1 0) (ite (= (select v k) i) 1 0)) 0)))) :pattern ((cnt d (store v k x) i)))))
declare cntWho((Array @common.Address Bool), (Array @common.Address Int), Int): @common.Address
smt cnt_who
  (assert (forall ((d (Array @common.Address Bool)) (v (Array @common.Address Int)) (i Int)) (! (=> (and (small d) (> (cnt d v i) 0)) (and (select d (cntWho d v i)) (= (select v (cntWho d v i)) i))) :pattern ((cnt d v i)))))
// a subset of a small set is small; smallsub is a trigger
declare smallsub((Array @common.Address Bool), (Array @common.Address Bool)): Bool needs smallsub_ax
smt smallsub_ax
  (assert (forall ((d (Array @common.Address Bool)) (e (Array @common.Address Bool))) (! (and (smallsub d e) (=> (and (small d) (forall ((k @common.Address)) (=> (select e k) (select d k)))) (small e))) :pattern ((smallsub d e)))))
define votesFor(v, i) = cnt(dom(v.Votes), vals(v.Votes), i)

fn app.NewVoting() returns (v) use nopanic
  modifies
  ensures v.Votes != nil && fresh(v.Votes) && dom(v.Votes) == emptyset(common.Address)

fn (*app.Voting).OutcomeIndex(v, n) returns (i, ok) props A03,A04 use nopanic
  requires v != nil && v.Votes != nil && n > 0 && small(dom(v.Votes))
  modifies
  loopinv ($m: map[int]int) fresh($m) && $m != nil && (smallsub(dom(v.Votes), visited) ==> (forall j: int :: $m[j] == cnt(visited, vals(v.Votes), j)) && (forall j: int :: j in $m <==> $m[j] > 0))
  loopinv forall a: common.Address :: visited[a] ==> a in v.Votes
  loopinv smallsub(dom(v.Votes), visited) ==> small(visited)
  loopinv ($m: map[int]int) forall j: int :: visited[j] ==> $m[j] < n
  ensures [an outcome has the required votes] ok ==> votesFor(v, i) >= n
  ensures [no outcome means no candidate has the required votes] !ok ==> forall j: int :: votesFor(v, j) < n

fn (*app.Voting).AddVoteForIndex(v, sender, index) use nopanic
  requires v != nil && v.Votes != nil
  modifies mapof(v.Votes)
  ensures dom(v.Votes) == store(old(dom(v.Votes)), sender, true) && vals(v.Votes) == store(old(vals(v.Votes)), sender, index)

// a ballot: every vote points to a candidate, candidates are pairwise different
define wfVotes(v) = v.Votes != nil && ref(v.Votes) < allocated && ref(v.Candidates) < allocated && (ref(v.Candidates) == 0 ==> len(v.Candidates) == 0) && (forall a: common.Address :: a in v.Votes ==> 0 <= v.Votes[a] && v.Votes[a] < len(v.Candidates))
define wfConfigBallot(v) = wfVotes(v) && (forall i: int, j: int :: 0 <= i && i < j && j < len(v.Candidates) ==> !sameConfig(v.Candidates[i], v.Candidates[j]))
define wfEonBallot(v) = wfVotes(v) && (forall i: int, j: int :: 0 <= i && i < j && j < len(v.Candidates) ==> v.Candidates[i] != v.Candidates[j])
define sameKeypers(a, b) = len(a) == len(b) && (a == nil <==> b == nil) && (forall k: int :: 0 <= k && k < len(a) ==> a[k] == b[k])
define sameConfig(a, b) = a.StartBatchIndex == b.StartBatchIndex && a.Threshold == b.Threshold && a.ConfigIndex == b.ConfigIndex && a.ConfigContractAddress == b.ConfigContractAddress && a.Started == b.Started && a.ValidatorsUpdated == b.ValidatorsUpdated && a.Height == b.Height && sameKeypers(a.Keypers, b.Keypers)

fn (*app.EonStartVoting).AddVote(v, sender, batchIndex) props A04 use nopanic
  requires v != nil && wfEonBallot(v)
  modifies mapof(v.Votes), v.Candidates, elems(v.Candidates)
  loopinv ($n: int) forall i: int :: 0 <= i && i < $n ==> v.Candidates[i] != batchIndex
  ensures [the sender's vote is for this batch] sender in v.Votes && v.Votes[sender] < len(v.Candidates) && v.Candidates[v.Votes[sender]] == batchIndex
  ensures [other votes stay] dom(v.Votes) == store(old(dom(v.Votes)), sender, true) && vals(v.Votes) == store(old(vals(v.Votes)), sender, v.Votes[sender])
  ensures [candidates stay] len(v.Candidates) >= old(len(v.Candidates)) && len(v.Candidates) <= old(len(v.Candidates)) + 1 && (forall i: int :: 0 <= i && i < old(len(v.Candidates)) ==> v.Candidates[i] == old(v.Candidates[i]))
  ensures [the vote goes to the known candidate if there is one] v.Votes[sender] == old(len(v.Candidates)) || len(v.Candidates) == old(len(v.Candidates))
  ensures [well formed] v.Votes == old(v.Votes) && wfEonBallot(v) && (ref(v.Candidates) == old(ref(v.Candidates)) || fresh(v.Candidates))

fn (*app.EonStartVoting).Outcome(v, n) returns (b, ok) props A04 use nopanic
  requires v != nil && wfEonBallot(v) && n > 0
  modifies
  ensures [an outcome has the required votes] ok ==> exists i: int :: 0 <= i && i < len(v.Candidates) && b == v.Candidates[i] && votesFor(v, i) >= n
  ensures [no outcome means no candidate has the required votes] !ok ==> forall j: int :: votesFor(v, j) < n
  ensures !ok ==> forall a: common.Address :: a in v.Votes ==> votesFor(v, v.Votes[a]) < n

fn (*app.ConfigVoting).AddVote(v, sender, bc) returns (err) props A03 use nopanic
  requires v != nil && wfConfigBallot(v)
  modifies mapof(v.Votes), v.Candidates, elems(v.Candidates)
  loopinv ($n: int) forall i: int :: 0 <= i && i < $n ==> !sameConfig(v.Candidates[i], bc)
  ensures [one vote per keyper] (err == nil) <==> !old(sender in v.Votes)
  ensures [a second vote changes nothing] err != nil ==> unchanged()
  ensures [the sender's vote is for this configuration] err == nil ==> sender in v.Votes && v.Votes[sender] < len(v.Candidates) && sameConfig(v.Candidates[v.Votes[sender]], bc)
  ensures [other votes stay] err == nil ==> dom(v.Votes) == store(old(dom(v.Votes)), sender, true) && vals(v.Votes) == store(old(vals(v.Votes)), sender, v.Votes[sender])
  ensures [candidates stay] err == nil ==> len(v.Candidates) >= old(len(v.Candidates)) && len(v.Candidates) <= old(len(v.Candidates)) + 1 && (forall i: int :: 0 <= i && i < old(len(v.Candidates)) ==> v.Candidates[i] == old(v.Candidates[i]))
  ensures [the vote goes to the known candidate if there is one] err == nil ==> v.Votes[sender] == old(len(v.Candidates)) || len(v.Candidates) == old(len(v.Candidates))
  ensures err == nil ==> forall i: int :: 0 <= i && i < old(len(v.Candidates)) && sameConfig(old(v.Candidates[i]), bc) ==> v.Votes[sender] == i
  ensures [well formed] v.Votes == old(v.Votes) && wfConfigBallot(v)

fn (*app.ConfigVoting).Outcome(v, n) returns (bc, ok) props A03 use nopanic
  requires v != nil && wfConfigBallot(v) && n > 0
  modifies
  ensures [an outcome has the required votes] ok ==> exists i: int :: 0 <= i && i < len(v.Candidates) && bc == v.Candidates[i] && votesFor(v, i) >= n
  ensures [no outcome means no candidate has the required votes] !ok ==> forall j: int :: votesFor(v, j) < n
  ensures !ok ==> forall a: common.Address :: a in v.Votes ==> votesFor(v, v.Votes[a]) < n
