// Handlers of key-generation messages (A05).
package ev "github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

define inst(app, e) = app.DKGMap[e]
define listedB(ks, b) = exists i: int :: 0 <= i && i < len(ks) && content(ks[i]) == content(b)

fn (*app.ShutterApp).handlePolyCommitmentMsg(app, msg, sender) returns (r) props A05 use own nopanic nobytes
  requires wfApp(app) && msg != nil
  modifies mapof(app.DKGMap[msg.Eon].PolyCommitmentsSeen)
  ensures [accept iff first of a keyper of a known eon] r.Code == 0 <==> old((forall j: int :: 0 <= j && j < len(msg.Gammas) ==> g2ok(content(msg.Gammas[j]))) && msg.Eon in app.DKGMap && listed(inst(app, msg.Eon).Config.Keypers, sender) && !(sender in inst(app, msg.Eon).PolyCommitmentsSeen))
  ensures [rejection changes nothing] r.Code != 0 ==> unchanged()
  ensures [records exactly this message] r.Code == 0 ==> forall a: common.Address :: a in inst(app, msg.Eon).PolyCommitmentsSeen <==> (old(a in inst(app, msg.Eon).PolyCommitmentsSeen) || a == sender)
  ensures [invariant] wfApp(app)

fn (*app.ShutterApp).handlePolyEvalMsg(app, msg, sender) returns (r) props A05 use own nopanic nobytes
  requires wfApp(app) && msg != nil
  modifies mapof(app.DKGMap[msg.Eon].PolyEvalsSeen)
  ensures [only of a keyper of a known eon] r.Code == 0 ==> old(len(msg.Receivers) == len(msg.EncryptedEvals) && allAddrs(msg.Receivers) && distinctBytes(msg.Receivers) && msg.Eon in app.DKGMap && listed(inst(app, msg.Eon).Config.Keypers, sender))
  ensures [only to other keypers without one yet] r.Code == 0 ==> old(forall j: int, a: common.Address :: 0 <= j && j < len(msg.Receivers) && content(a) == content(msg.Receivers[j]) ==> a != sender && listed(inst(app, msg.Eon).Config.Keypers, a) && !evalSeen(inst(app, msg.Eon), sender, a))
  ensures [every such message is accepted] old(len(msg.Receivers) == len(msg.EncryptedEvals) && allAddrs(msg.Receivers) && distinctBytes(msg.Receivers) && msg.Eon in app.DKGMap && listed(inst(app, msg.Eon).Config.Keypers, sender) && (forall j: int, a: common.Address :: 0 <= j && j < len(msg.Receivers) && content(a) == content(msg.Receivers[j]) ==> a != sender && listed(inst(app, msg.Eon).Config.Keypers, a) && !evalSeen(inst(app, msg.Eon), sender, a))) ==> r.Code == 0
  ensures [rejection changes nothing] r.Code != 0 ==> unchanged()
  ensures [records exactly this message] r.Code == 0 ==> forall p: app.SenderReceiverPair :: p in inst(app, msg.Eon).PolyEvalsSeen <==> (old(p in inst(app, msg.Eon).PolyEvalsSeen) || (p.Sender == sender && exists j: int :: 0 <= j && j < len(msg.Receivers) && content(p.Receiver) == content(msg.Receivers[j])))
  ensures [invariant] wfApp(app)

fn (*app.ShutterApp).handleAccusationMsg(app, msg, sender) returns (r) props A05 use own nopanic nobytes
  requires wfApp(app) && msg != nil
  modifies mapof(app.DKGMap[msg.Eon].AccusationsSeen)
  ensures [only the first of a keyper of a known eon] r.Code == 0 ==> old(allAddrs(msg.Accused) && distinctBytes(msg.Accused) && msg.Eon in app.DKGMap && listed(inst(app, msg.Eon).Config.Keypers, sender) && !(sender in inst(app, msg.Eon).AccusationsSeen))
  ensures [only about other keypers] r.Code == 0 ==> old(forall j: int, a: common.Address :: 0 <= j && j < len(msg.Accused) && content(a) == content(msg.Accused[j]) ==> a != sender && listed(inst(app, msg.Eon).Config.Keypers, a))
  ensures [every such message is accepted] old(allAddrs(msg.Accused) && distinctBytes(msg.Accused) && msg.Eon in app.DKGMap && listed(inst(app, msg.Eon).Config.Keypers, sender) && !(sender in inst(app, msg.Eon).AccusationsSeen) && (forall j: int, a: common.Address :: 0 <= j && j < len(msg.Accused) && content(a) == content(msg.Accused[j]) ==> a != sender && listed(inst(app, msg.Eon).Config.Keypers, a))) ==> r.Code == 0
  ensures [rejection changes nothing] r.Code != 0 ==> unchanged()
  ensures [records exactly this message] r.Code == 0 ==> forall a: common.Address :: a in inst(app, msg.Eon).AccusationsSeen <==> (old(a in inst(app, msg.Eon).AccusationsSeen) || a == sender)
  ensures [invariant] wfApp(app)

fn (*app.ShutterApp).handleApologyMsg(app, msg, sender) returns (r) props A05 use own nopanic nobytes
  requires wfApp(app) && msg != nil
  modifies mapof(app.DKGMap[msg.Eon].ApologiesSeen)
  ensures [only the first of a keyper of a known eon] r.Code == 0 ==> old(len(msg.Accusers) == len(msg.PolyEvals) && allAddrs(msg.Accusers) && distinctBytes(msg.Accusers) && msg.Eon in app.DKGMap && listed(inst(app, msg.Eon).Config.Keypers, sender) && !(sender in inst(app, msg.Eon).ApologiesSeen))
  ensures [only to other keypers] r.Code == 0 ==> old(forall j: int, a: common.Address :: 0 <= j && j < len(msg.Accusers) && content(a) == content(msg.Accusers[j]) ==> a != sender && listed(inst(app, msg.Eon).Config.Keypers, a))
  ensures [every such message is accepted] old(len(msg.Accusers) == len(msg.PolyEvals) && allAddrs(msg.Accusers) && distinctBytes(msg.Accusers) && msg.Eon in app.DKGMap && listed(inst(app, msg.Eon).Config.Keypers, sender) && !(sender in inst(app, msg.Eon).ApologiesSeen) && (forall j: int, a: common.Address :: 0 <= j && j < len(msg.Accusers) && content(a) == content(msg.Accusers[j]) ==> a != sender && listed(inst(app, msg.Eon).Config.Keypers, a))) ==> r.Code == 0
  ensures [rejection changes nothing] r.Code != 0 ==> unchanged()
  ensures [records exactly this message] r.Code == 0 ==> forall a: common.Address :: a in inst(app, msg.Eon).ApologiesSeen <==> (old(a in inst(app, msg.Eon).ApologiesSeen) || a == sender)
  ensures [invariant] wfApp(app)

fn (*app.ShutterApp).handleEpochSecretKeyShareMsg(app, msg, sender) returns (r) props A05 use own nopanic nobytes
  requires wfApp(app) && msg != nil
  modifies
  ensures [accept iff the share decodes] r.Code == 0 <==> skShareOK(content(msg.Share))
