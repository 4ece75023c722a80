// Keyper membership and the per-eon message registry (A05).
package ev "github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

define listed(ks, a) = exists i: int :: 0 <= i && i < len(ks) && ks[i] == a

fn (*ev.BatchConfig).KeyperIndex(bc, address) returns (i, ok) props K02 use nopanic
  requires bc != nil
  modifies
  loopinv ($n: int) forall j: int :: 0 <= j && j < $n ==> bc.Keypers[j] != address
  ensures [found iff listed] ok <==> listed(bc.Keypers, address)
  ensures [position of the first occurrence] ok ==> 0 <= i && i < len(bc.Keypers) && bc.Keypers[i] == address && (forall j: int :: 0 <= j && j < i ==> bc.Keypers[j] != address)

fn (*ev.BatchConfig).IsKeyper(bc, a) returns (ok) props K02 use nopanic
  requires bc != nil
  modifies
  ensures [iff listed] ok <==> listed(bc.Keypers, a)

define wfDKG(d) = d != nil && d.PolyEvalsSeen != nil && d.PolyCommitmentsSeen != nil && d.AccusationsSeen != nil && d.ApologiesSeen != nil &&
  d.PolyCommitmentsSeen != d.AccusationsSeen && d.PolyCommitmentsSeen != d.ApologiesSeen && d.AccusationsSeen != d.ApologiesSeen

define evalSeen(d, s, r) = mk(app.SenderReceiverPair, s, r) in d.PolyEvalsSeen

fn app.NewDKGInstance(config, eon) returns (d) props A04 use nopanic
  modifies
  ensures [config and eon] d.Config == config && d.Eon == eon
  ensures [nothing recorded] (forall p: app.SenderReceiverPair :: !(p in d.PolyEvalsSeen)) && (forall a: common.Address :: !(a in d.PolyCommitmentsSeen) && !(a in d.AccusationsSeen) && !(a in d.ApologiesSeen))
  ensures [own maps] fresh(d.PolyEvalsSeen) && fresh(d.PolyCommitmentsSeen) && fresh(d.AccusationsSeen) && fresh(d.ApologiesSeen) && d.PolyEvalsSeen != nil && d.PolyCommitmentsSeen != nil && d.AccusationsSeen != nil && d.ApologiesSeen != nil && d.PolyCommitmentsSeen != d.AccusationsSeen && d.PolyCommitmentsSeen != d.ApologiesSeen && d.AccusationsSeen != d.ApologiesSeen

fn (*app.DKGInstance).RegisterPolyEvalMsg(d, msg) returns (err) props A05 use nopanic
  requires wfDKG(d)
  modifies mapof(d.PolyEvalsSeen)
  loopinv ($n: int) forall j: int :: 0 <= j && j < $n ==> listed(d.Config.Keypers, msg.Receivers[j]) && msg.Receivers[j] != msg.Sender && !evalSeen(d, msg.Sender, msg.Receivers[j])
  loopinv ($n: int) forall p: app.SenderReceiverPair :: p in d.PolyEvalsSeen <==> (pre(p in d.PolyEvalsSeen) || (p.Sender == msg.Sender && exists j: int :: 0 <= j && j < $n && msg.Receivers[j] == p.Receiver))
  ensures [accept iff] (err == nil) <==> old(msg.Eon == d.Eon && listed(d.Config.Keypers, msg.Sender) && (forall j: int :: 0 <= j && j < len(msg.Receivers) ==> listed(d.Config.Keypers, msg.Receivers[j]) && msg.Receivers[j] != msg.Sender && !evalSeen(d, msg.Sender, msg.Receivers[j])))
  ensures [rejected changes nothing] err != nil ==> unchanged()
  ensures [records exactly this message] err == nil ==> forall p: app.SenderReceiverPair :: p in d.PolyEvalsSeen <==> (old(p in d.PolyEvalsSeen) || (p.Sender == msg.Sender && listed(msg.Receivers, p.Receiver)))

fn (*app.DKGInstance).RegisterPolyCommitmentMsg(d, msg) returns (err) props A05 use nopanic
  requires wfDKG(d)
  modifies mapof(d.PolyCommitmentsSeen)
  ensures [accept iff] (err == nil) <==> old(msg.Eon == d.Eon && listed(d.Config.Keypers, msg.Sender) && !(msg.Sender in d.PolyCommitmentsSeen))
  ensures [rejected changes nothing] err != nil ==> unchanged()
  ensures [records exactly this message] err == nil ==> forall a: common.Address :: a in d.PolyCommitmentsSeen <==> (old(a in d.PolyCommitmentsSeen) || a == msg.Sender)

fn (*app.DKGInstance).RegisterAccusationMsg(d, msg) returns (err) props A05 use nopanic
  requires wfDKG(d)
  modifies mapof(d.AccusationsSeen)
  loopinv ($n: int) forall j: int :: 0 <= j && j < $n ==> listed(d.Config.Keypers, msg.Accused[j]) && msg.Accused[j] != msg.Sender
  ensures [accept iff] (err == nil) <==> old(msg.Eon == d.Eon && listed(d.Config.Keypers, msg.Sender) && (forall j: int :: 0 <= j && j < len(msg.Accused) ==> listed(d.Config.Keypers, msg.Accused[j]) && msg.Accused[j] != msg.Sender) && !(msg.Sender in d.AccusationsSeen))
  ensures [rejected changes nothing] err != nil ==> unchanged()
  ensures [records exactly this message] err == nil ==> forall a: common.Address :: a in d.AccusationsSeen <==> (old(a in d.AccusationsSeen) || a == msg.Sender)

fn (*app.DKGInstance).RegisterApologyMsg(d, msg) returns (err) props A05 use nopanic
  requires wfDKG(d)
  modifies mapof(d.ApologiesSeen)
  loopinv ($n: int) forall j: int :: 0 <= j && j < $n ==> listed(d.Config.Keypers, msg.Accusers[j]) && msg.Accusers[j] != msg.Sender
  ensures [accept iff] (err == nil) <==> old(msg.Eon == d.Eon && listed(d.Config.Keypers, msg.Sender) && (forall j: int :: 0 <= j && j < len(msg.Accusers) ==> listed(d.Config.Keypers, msg.Accusers[j]) && msg.Accusers[j] != msg.Sender) && !(msg.Sender in d.ApologiesSeen))
  ensures [rejected changes nothing] err != nil ==> unchanged()
  ensures [records exactly this message] err == nil ==> forall a: common.Address :: a in d.ApologiesSeen <==> (old(a in d.ApologiesSeen) || a == msg.Sender)
