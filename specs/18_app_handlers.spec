// Message handlers and the block life cycle (A01 A02 A03 A04 A05 A09).

fn (*ev.BatchConfig).EnsureValid(bc) returns (err) props A03 use nopanic
  requires bc != nil
  modifies
  ensures [valid iff keypers, threshold between one and their number] (err == nil) <==> len(bc.Keypers) > 0 && 0 < bc.Threshold && bc.Threshold <= len(bc.Keypers)

fn (*app.ShutterApp).updateCheckTxMembers(app) props A02 use nopanic
  requires app != nil && app.CheckTxState != nil && wfConfigs(app)
  modifies app.CheckTxState.Members
  loopinv ($n: int, $m: []common.Address) forall j: int :: 0 <= j && j < len($m) ==> exists i: int :: 0 <= i && i < $n && listed(app.Configs[i].Keypers, $m[j])
  loopinv ($n: int, $m: []common.Address) forall i: int, k: int :: 0 <= i && i < $n && 0 <= k && k < len(app.Configs[i].Keypers) ==> listed($m, app.Configs[i].Keypers[k])
  loopinv ($m: []common.Address) $m != nil && fresh($m)
  loopinv ($n: int, $m: []common.Address) $n > 0 ==> len($m) > 0
  ensures [members are exactly all keypers] (forall a: common.Address :: app.CheckTxState.Members[a] <==> keyperAny(app, a)) && len(app.CheckTxState.Members) > 0
  ensures fresh(app.CheckTxState.Members)

define parsedAs(bc, msg) = len(bc.Keypers) == len(msg.Keypers) && sameAddrs(bc.Keypers, msg.Keypers, len(msg.Keypers)) && bc.StartBatchIndex == msg.StartBatchIndex && bc.Threshold == msg.Threshold && bc.ConfigIndex == msg.ConfigIndex && bc.Started == msg.Started && bc.ValidatorsUpdated == msg.ValidatorsUpdated && content(bc.ConfigContractAddress) == content(msg.ConfigContractAddress)

fn (*app.ShutterApp).checkConfig(app, cfg) returns (err) props A03 use nopanic
  requires app != nil && len(app.Configs) > 0 && last(app) != nil
  modifies
  ensures [valid, not earlier, with a higher index] (err == nil) <==> validConfig(cfg) && cfg.StartBatchIndex >= last(app).StartBatchIndex && cfg.ConfigIndex > last(app).ConfigIndex

fn (*app.ShutterApp).addConfig(app, cfg) returns (err) props A03 use nopanic
  requires app != nil && wfConfigs(app) && app.CheckTxState != nil
  modifies app.Configs, elems(app.Configs), app.CheckTxState.Members, app.StartedVotes
  ensures (err == nil) <==> old(validConfig(cfg) && cfg.StartBatchIndex >= last(app).StartBatchIndex && cfg.ConfigIndex > last(app).ConfigIndex)
  ensures err != nil ==> unchanged()
  ensures [appended unchanged after the existing ones] err == nil ==> len(app.Configs) == old(len(app.Configs)) + 1 && *last(app) == cfg && fresh(last(app)) && (forall i: int :: 0 <= i && i < old(len(app.Configs)) ==> app.Configs[i] == old(app.Configs[i]) && *app.Configs[i] == old(*app.Configs[i]))
  ensures err == nil ==> wfConfigs(app)
  ensures [start votes reset] err == nil ==> app.StartedVotes != nil && fresh(app.StartedVotes) && ref(app.StartedVotes) < allocated && dom(app.StartedVotes) == emptyset(common.Address) && len(app.StartedVotes) == 0
  ensures [members] err == nil ==> (forall a: common.Address :: app.CheckTxState.Members[a] <==> keyperAny(app, a)) && fresh(app.CheckTxState.Members) && len(app.CheckTxState.Members) > 0

fn (*app.ShutterApp).StartDKG(app, config) returns (d) props A04 use nopanic
  requires app != nil && app.DKGMap != nil && app.StartedVotes != nil && ref(app.StartedVotes) < allocated && wfDKGs(app) && app.EONCounter < 18446744073709551615
  modifies app.EONCounter, mapof(app.DKGMap)
  ensures [one new number] app.EONCounter == old(app.EONCounter) + 1
  ensures [a fresh instance with this configuration and no messages] d != nil && fresh(d) && app.EONCounter in app.DKGMap && app.DKGMap[app.EONCounter] == d && d.Eon == app.EONCounter && d.Config == config && (forall p: app.SenderReceiverPair :: !(p in d.PolyEvalsSeen)) && (forall a: common.Address :: !(a in d.PolyCommitmentsSeen) && !(a in d.AccusationsSeen) && !(a in d.ApologiesSeen))
  ensures [other instances stay] forall e: uint64 :: e != app.EONCounter ==> (e in app.DKGMap <==> old(e in app.DKGMap)) && app.DKGMap[e] == old(app.DKGMap[e])
  ensures [invariant] wfDKGs(app)

fn (*app.ShutterApp).ShouldStartDKG(app, config) returns (r) props A04 use nopanic
  requires app != nil && wfDKGs(app)
  modifies
  ensures [exactly when keypers or threshold changed] !r <==> app.EONCounter in app.DKGMap && app.DKGMap[app.EONCounter].Config.Threshold == config.Threshold && sameKeypers(app.DKGMap[app.EONCounter].Config.Keypers, config.Keypers)

// position of a candidate, or the next free position
define candIdx(cs, b, j) = 0 <= j && j <= len(cs) && (j < len(cs) ==> cs[j] == b) && (j == len(cs) ==> forall i: int :: 0 <= i && i < len(cs) ==> cs[i] != b)
// votes for candidate j after sender voted for it
define votesAfter(v, sender, j) = cnt(store(dom(v.Votes), sender, true), store(vals(v.Votes), sender, j), j)
define ballot(app, k) = app.EonStartVotings[k]

define inForceConfig(app, b) = app.Configs[lastLE(elems(app.Configs), off(app.Configs), len(app.Configs), fheap(ev.BatchConfig.StartBatchIndex), b)]
define votedOn(app, b, k) = old(inForceConfig(app, b).ConfigIndex) == k

fn (*app.ShutterApp).deliverEonStartVoteMsg(app, msg, sender) returns (r) props A04 use own nopanic
  requires wfApp(app) && msg != nil && app.EONCounter < 18446744073709551615
  modifies app.EONCounter, mapof(app.DKGMap), mapof(app.EonStartVotings), allof(app.EonStartVoting), allmaps(map[common.Address]int), allelems(uint64)
  assert forall i: int, j: int :: 0 <= i && i < len(app.Configs) && 0 <= j && j < len(app.Configs) && i != j ==> app.Configs[i].ConfigIndex != app.Configs[j].ConfigIndex
  assert forall c: *ev.BatchConfig, i: int :: old(inForce(app, msg.StartBatchIndex, c)) && 0 <= i && i < len(app.Configs) && app.Configs[i].ConfigIndex == c.ConfigIndex ==> app.Configs[i] == c
  assert forall k: uint64 :: k in app.EonStartVotings && !votedOn(app, msg.StartBatchIndex, k) ==> old(k in app.EonStartVotings) && ballot(app, k) == old(ballot(app, k)) && ballot(app, k).Candidates == old(ballot(app, k).Candidates) && ballot(app, k).Votes == old(ballot(app, k).Votes) && dom(ballot(app, k).Votes) == old(dom(ballot(app, k).Votes)) && vals(ballot(app, k).Votes) == old(vals(ballot(app, k).Votes))
  assert forall k: uint64, j: int :: k in app.EonStartVotings && !votedOn(app, msg.StartBatchIndex, k) && 0 <= j && j < len(ballot(app, k).Candidates) ==> ballot(app, k).Candidates[j] == old(ballot(app, k).Candidates[j])
  assert forall k: uint64, i: int, j: int :: k in app.EonStartVotings && !votedOn(app, msg.StartBatchIndex, k) && 0 <= i && i < j && j < len(ballot(app, k).Candidates) ==> ballot(app, k).Candidates[i] != ballot(app, k).Candidates[j]
  assert forall k: uint64, i: int, j: int :: k in app.EonStartVotings && votedOn(app, msg.StartBatchIndex, k) && 0 <= i && i < j && j < len(ballot(app, k).Candidates) ==> ballot(app, k).Candidates[i] != ballot(app, k).Candidates[j]
  assert forall i: int :: 0 <= i && i < len(app.Configs) && !old(inForce(app, msg.StartBatchIndex, app.Configs[i])) ==> !votedOn(app, msg.StartBatchIndex, app.Configs[i].ConfigIndex)
  assert forall i: int, a: common.Address :: 0 <= i && i < len(app.Configs) && !votedOn(app, msg.StartBatchIndex, app.Configs[i].ConfigIndex) && app.Configs[i].ConfigIndex in app.EonStartVotings && a in ballot(app, app.Configs[i].ConfigIndex).Votes ==> old(app.Configs[i].ConfigIndex in app.EonStartVotings && a in ballot(app, app.Configs[i].ConfigIndex).Votes)
  assert forall i: int, a: common.Address :: 0 <= i && i < len(app.Configs) && votedOn(app, msg.StartBatchIndex, app.Configs[i].ConfigIndex) && app.Configs[i].ConfigIndex in app.EonStartVotings && a in ballot(app, app.Configs[i].ConfigIndex).Votes ==> a == sender || old(app.Configs[i].ConfigIndex in app.EonStartVotings && a in ballot(app, app.Configs[i].ConfigIndex).Votes)
  ensures [only keypers of the configuration in force] forall c: *ev.BatchConfig :: old(inForce(app, msg.StartBatchIndex, c)) ==> (r.Code == 0 <==> listed(c.Keypers, sender))
  ensures [rejection changes nothing] r.Code != 0 ==> unchanged()
  ensures [at most one new eon] app.EONCounter == old(app.EONCounter) || app.EONCounter == old(app.EONCounter) + 1
  ensures [starts exactly when the voted batch reaches the threshold] r.Code == 0 ==> forall c: *ev.BatchConfig, j: int :: old(inForce(app, msg.StartBatchIndex, c)) && old(c.ConfigIndex in app.EonStartVotings) && old(candIdx(ballot(app, c.ConfigIndex).Candidates, msg.StartBatchIndex, j)) ==> (app.EONCounter == old(app.EONCounter) + 1 <==> old(votesAfter(ballot(app, c.ConfigIndex), sender, j)) >= c.Threshold)
  ensures [the first vote of a ballot starts only with threshold one] r.Code == 0 ==> forall c: *ev.BatchConfig :: old(inForce(app, msg.StartBatchIndex, c)) && !old(c.ConfigIndex in app.EonStartVotings) ==> (app.EONCounter == old(app.EONCounter) + 1 <==> c.Threshold <= 1)
  ensures [vote counted] app.EONCounter == old(app.EONCounter) && r.Code == 0 ==> forall c: *ev.BatchConfig :: old(inForce(app, msg.StartBatchIndex, c)) ==> c.ConfigIndex in app.EonStartVotings && sender in ballot(app, c.ConfigIndex).Votes && ballot(app, c.ConfigIndex).Candidates[ballot(app, c.ConfigIndex).Votes[sender]] == msg.StartBatchIndex
  ensures [ballot cleared, instance of this configuration] app.EONCounter != old(app.EONCounter) ==> forall c: *ev.BatchConfig :: old(inForce(app, msg.StartBatchIndex, c)) ==> !(c.ConfigIndex in app.EonStartVotings) && app.EONCounter in app.DKGMap && app.DKGMap[app.EONCounter].Config == *c && fresh(app.DKGMap[app.EONCounter])
  ensures [no messages yet] app.EONCounter != old(app.EONCounter) ==> (forall p: app.SenderReceiverPair :: !(p in app.DKGMap[app.EONCounter].PolyEvalsSeen)) && (forall a: common.Address :: !(a in app.DKGMap[app.EONCounter].PolyCommitmentsSeen) && !(a in app.DKGMap[app.EONCounter].AccusationsSeen) && !(a in app.DKGMap[app.EONCounter].ApologiesSeen))
  ensures [other instances stay] forall e: uint64 :: e != app.EONCounter || app.EONCounter == old(app.EONCounter) ==> (e in app.DKGMap <==> old(e in app.DKGMap)) && app.DKGMap[e] == old(app.DKGMap[e])
  ensures [other ballots stay] forall c: *ev.BatchConfig, k: uint64 :: old(inForce(app, msg.StartBatchIndex, c)) && k != c.ConfigIndex ==> (k in app.EonStartVotings <==> old(k in app.EonStartVotings)) && ballot(app, k) == old(ballot(app, k)) && (k in app.EonStartVotings ==> ballot(app, k).Candidates == old(ballot(app, k).Candidates) && dom(ballot(app, k).Votes) == old(dom(ballot(app, k).Votes)) && vals(ballot(app, k).Votes) == old(vals(ballot(app, k).Votes)))
  ensures [configuration ballot and counts stay] dom(app.ConfigVoting.Votes) == old(dom(app.ConfigVoting.Votes)) && vals(app.ConfigVoting.Votes) == old(vals(app.ConfigVoting.Votes)) && dom(app.CheckTxState.TxCounts) == old(dom(app.CheckTxState.TxCounts)) && vals(app.CheckTxState.TxCounts) == old(vals(app.CheckTxState.TxCounts))
  ensures [invariant] wfApp(app)

// configuration votes
define wellFormedMsg(msg) = allAddrs(msg.Keypers) && distinctBytes(msg.Keypers) && len(msg.ConfigContractAddress) == 20
define sameAsMsg(c, msg) = c.StartBatchIndex == msg.StartBatchIndex && c.Threshold == msg.Threshold && c.ConfigIndex == msg.ConfigIndex && content(c.ConfigContractAddress) == content(msg.ConfigContractAddress) && c.Started == msg.Started && c.ValidatorsUpdated == msg.ValidatorsUpdated && c.Height == 0 && len(c.Keypers) == len(msg.Keypers) && (forall k: int :: 0 <= k && k < len(msg.Keypers) ==> content(c.Keypers[k]) == content(msg.Keypers[k]))
define admissible(app, msg) = len(msg.Keypers) > 0 && 0 < msg.Threshold && msg.Threshold <= len(msg.Keypers) && msg.StartBatchIndex >= last(app).StartBatchIndex && msg.ConfigIndex > last(app).ConfigIndex
define cfgIdx(cs, msg, j) = 0 <= j && j <= len(cs) && (j < len(cs) ==> sameAsMsg(cs[j], msg)) && (j == len(cs) ==> forall i: int :: 0 <= i && i < len(cs) ==> !sameAsMsg(cs[i], msg))
define newEonNeeded(app, msg) = !(app.EONCounter in app.DKGMap && app.DKGMap[app.EONCounter].Config.Threshold == msg.Threshold && len(app.DKGMap[app.EONCounter].Config.Keypers) == len(msg.Keypers) && (forall k: int :: 0 <= k && k < len(msg.Keypers) ==> content(app.DKGMap[app.EONCounter].Config.Keypers[k]) == content(msg.Keypers[k])))
define added(app) = len(app.Configs) != old(len(app.Configs))

fn (*app.ShutterApp).deliverBatchConfig(app, msg, sender) returns (r) props A03,A04 use own nopanic nobytes
  requires wfApp(app) && msg != nil && app.EONCounter < 18446744073709551615
  modifies app.ConfigVoting, mapof(app.ConfigVoting.Votes), elems(app.ConfigVoting.Candidates), app.Configs, elems(app.Configs), app.CheckTxState.Members, app.StartedVotes, app.EONCounter, mapof(app.DKGMap)
  assert added(app) ==> sameAsMsg(*last(app), msg) && last(app).Keypers != nil
  assert added(app) ==> app.EONCounter == old(app.EONCounter) + ite(old(app.EONCounter in app.DKGMap && app.DKGMap[app.EONCounter].Config.Threshold == msg.Threshold) && sameKeypers(old(app.DKGMap[app.EONCounter].Config.Keypers), last(app).Keypers), 0, 1)
  assert added(app) && old(app.EONCounter in app.DKGMap) ==> forall k: int :: 0 <= k && k < len(msg.Keypers) ==> (old(app.DKGMap[app.EONCounter].Config.Keypers[k]) == last(app).Keypers[k] <==> content(old(app.DKGMap[app.EONCounter].Config.Keypers[k])) == content(msg.Keypers[k]))
  assert added(app) && old(app.EONCounter in app.DKGMap) && len(old(app.DKGMap[app.EONCounter].Config.Keypers)) == len(msg.Keypers) ==> (sameKeypers(old(app.DKGMap[app.EONCounter].Config.Keypers), last(app).Keypers) ==> (forall k: int :: 0 <= k && k < len(msg.Keypers) ==> content(old(app.DKGMap[app.EONCounter].Config.Keypers[k])) == content(msg.Keypers[k])))
  assert added(app) && old(app.EONCounter in app.DKGMap) && len(old(app.DKGMap[app.EONCounter].Config.Keypers)) == len(msg.Keypers) ==> ((forall k: int :: 0 <= k && k < len(msg.Keypers) ==> content(old(app.DKGMap[app.EONCounter].Config.Keypers[k])) == content(msg.Keypers[k])) ==> sameKeypers(old(app.DKGMap[app.EONCounter].Config.Keypers), last(app).Keypers))
  assert added(app) ==> forall i: int, k: int :: 0 <= i && i < old(len(app.ConfigVoting.Candidates)) && 0 <= k && k < len(msg.Keypers) && content(old(app.ConfigVoting.Candidates[i].Keypers[k])) == content(msg.Keypers[k]) ==> old(app.ConfigVoting.Candidates[i].Keypers[k]) == last(app).Keypers[k]
  assert added(app) ==> forall i: int :: 0 <= i && i < old(len(app.ConfigVoting.Candidates)) ==> (old(sameAsMsg(app.ConfigVoting.Candidates[i], msg)) ==> sameConfig(old(app.ConfigVoting.Candidates[i]), *last(app)))
  assert added(app) ==> forall i: int, k: int :: 0 <= i && i < old(len(app.ConfigVoting.Candidates)) && sameConfig(old(app.ConfigVoting.Candidates[i]), *last(app)) && 0 <= k && k < len(msg.Keypers) ==> content(old(app.ConfigVoting.Candidates[i].Keypers[k])) == content(last(app).Keypers[k])
  assert added(app) ==> forall i: int :: 0 <= i && i < old(len(app.ConfigVoting.Candidates)) ==> (sameConfig(old(app.ConfigVoting.Candidates[i]), *last(app)) ==> old(sameAsMsg(app.ConfigVoting.Candidates[i], msg)))
  ensures [accept iff already current, or an admissible first vote of a current keyper] r.Code == 0 <==> old(wellFormedMsg(msg) && (sameAsMsg(*last(app), msg) && len(msg.Keypers) > 0 || admissible(app, msg) && listed(last(app).Keypers, sender) && !(sender in app.ConfigVoting.Votes)))
  ensures [rejection changes nothing] r.Code != 0 ==> unchanged()
  ensures [repeating the current configuration changes nothing] old(wellFormedMsg(msg) && sameAsMsg(*last(app), msg) && len(msg.Keypers) > 0) ==> unchanged()
  ensures [added exactly when the voted configuration reaches the threshold] r.Code == 0 && old(admissible(app, msg)) ==> forall j: int :: old(cfgIdx(app.ConfigVoting.Candidates, msg, j)) ==> (added(app) <==> old(votesAfter(app.ConfigVoting, sender, j)) >= old(last(app).Threshold))
  ensures [vote counted] r.Code == 0 && old(admissible(app, msg)) && !added(app) ==> sender in app.ConfigVoting.Votes && sameAsMsg(app.ConfigVoting.Candidates[app.ConfigVoting.Votes[sender]], msg) && (forall a: common.Address :: a != sender ==> (a in app.ConfigVoting.Votes <==> old(a in app.ConfigVoting.Votes)) && app.ConfigVoting.Votes[a] == old(app.ConfigVoting.Votes[a]))
  ensures [appended unchanged after the existing ones] len(app.Configs) == old(len(app.Configs)) + ite(added(app), 1, 0) && (added(app) ==> sameAsMsg(*last(app), msg)) && (forall i: int :: 0 <= i && i < old(len(app.Configs)) ==> app.Configs[i] == old(app.Configs[i]) && *app.Configs[i] == old(*app.Configs[i]))
  ensures [accepted configurations are valid and ordered] added(app) ==> old(admissible(app, msg))
  ensures [fresh ballot] added(app) ==> dom(app.ConfigVoting.Votes) == emptyset(common.Address) && len(app.ConfigVoting.Candidates) == 0
  ensures [new eon exactly when keypers or threshold changed] app.EONCounter == old(app.EONCounter) + ite(added(app) && old(newEonNeeded(app, msg)), 1, 0)
  ensures [instance of the new configuration without messages] app.EONCounter != old(app.EONCounter) ==> app.EONCounter in app.DKGMap && fresh(app.DKGMap[app.EONCounter]) && sameAsMsg(app.DKGMap[app.EONCounter].Config, msg) && (forall p: app.SenderReceiverPair :: !(p in app.DKGMap[app.EONCounter].PolyEvalsSeen)) && (forall a: common.Address :: !(a in app.DKGMap[app.EONCounter].PolyCommitmentsSeen) && !(a in app.DKGMap[app.EONCounter].AccusationsSeen) && !(a in app.DKGMap[app.EONCounter].ApologiesSeen))
  ensures [other instances stay] forall e: uint64 :: e != app.EONCounter || app.EONCounter == old(app.EONCounter) ==> (e in app.DKGMap <==> old(e in app.DKGMap)) && app.DKGMap[e] == old(app.DKGMap[e])
  ensures [members follow] added(app) ==> forall a: common.Address :: app.CheckTxState.Members[a] <==> keyperAny(app, a)
  ensures [start votes reset] (added(app) ==> len(app.StartedVotes) == 0 && dom(app.StartedVotes) == emptyset(common.Address)) && (!added(app) ==> app.StartedVotes == old(app.StartedVotes))
  ensures [invariant] wfApp(app)
