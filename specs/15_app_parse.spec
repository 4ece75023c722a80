// Parsing of wire messages (A06).
package bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
package shcrypto "github.com/shutter-network/shutter/shlib/shcrypto"
opaque bn256.G2 U_G2 zeroG2
declare zeroG2(): U_G2
declare g2ok(Str): Bool
declare g2dec(Str): U_G2
extern (*bn256.G2).Unmarshal(p, b) returns (rest, err)
  requires p != nil
  modifies *p
  ensures (err == nil) <==> g2ok(content(b))
  ensures err == nil ==> *p == g2dec(content(b))
declare skShareOK(Str): Bool
opaque shcrypto.EpochSecretKeyShare U_Share zeroShare
declare zeroShare(): U_Share
declare skShareDec(Str): U_Share
extern (*shcrypto.EpochSecretKeyShare).GobDecode(p, b) returns (err)
  requires p != nil
  modifies *p
  ensures (err == nil) <==> skShareOK(content(b))
  ensures err == nil ==> *p == skShareDec(content(b))

define addrBytes(b) = len(b) == 20
define sameAddrs(as, bs, n) = forall j: int :: 0 <= j && j < n ==> len(bs[j]) == 20 && content(as[j]) == content(bs[j])
define allAddrs(bs) = forall j: int :: 0 <= j && j < len(bs) ==> len(bs[j]) == 20
define distinctBytes(bs) = forall i: int, j: int :: 0 <= i && i < j && j < len(bs) ==> content(bs[i]) != content(bs[j])

fn app.validateAddress(address) returns (a, err) use nopanic
  modifies
  ensures (err == nil) <==> len(address) == 20
  ensures err == nil ==> content(a) == content(address)

fn app.ParsePolyEvalMsg(msg, sender) returns (r, err) props A06 use nopanic
  requires msg != nil
  modifies
  loopinv ($r: []common.Address, $n: int) len($r) == $n && sameAddrs($r, msg.Receivers, $n)
  loopinv ($r: []common.Address) $r != nil && fresh($r)
  ensures [accept iff well formed] (err == nil) <==> len(msg.Receivers) == len(msg.EncryptedEvals) && allAddrs(msg.Receivers) && distinctBytes(msg.Receivers)
  ensures [sender and eon] err == nil ==> r != nil && r.Sender == sender && r.Eon == msg.Eon
  ensures [every receiver in order] err == nil ==> len(r.Receivers) == len(msg.Receivers) && sameAddrs(r.Receivers, msg.Receivers, len(msg.Receivers))
  ensures [every evaluation in order] err == nil ==> r.EncryptedEvals == msg.EncryptedEvals

fn app.ParseAccusationMsg(msg, sender) returns (r, err) props A06 use nopanic
  requires msg != nil
  modifies
  loopinv ($r: []common.Address, $n: int) len($r) == $n && sameAddrs($r, msg.Accused, $n)
  loopinv ($r: []common.Address) $r != nil && fresh($r)
  ensures [accept iff well formed] (err == nil) <==> allAddrs(msg.Accused) && distinctBytes(msg.Accused)
  ensures [sender and eon] err == nil ==> r != nil && r.Sender == sender && r.Eon == msg.Eon
  ensures [every accused in order] err == nil ==> len(r.Accused) == len(msg.Accused) && sameAddrs(r.Accused, msg.Accused, len(msg.Accused))

fn app.ParseApologyMsg(msg, sender) returns (r, err) props A06 use nopanic
  requires msg != nil
  modifies
  loopinv ($r: []common.Address, $n: int) len($r) == $n && sameAddrs($r, msg.Accusers, $n)
  loopinv ($r: []common.Address) $r != nil && fresh($r)
  loopinv ($p: []*big.Int, $n: int) len($p) == $n && (forall j: int :: 0 <= j && j < $n ==> $p[j] != nil && fresh($p[j]) && ref($p[j]) < allocated && *$p[j] == os2i(content(msg.PolyEvals[j])))
  loopinv ($p: []*big.Int) $p != nil ==> fresh($p)
  ensures [accept iff well formed] (err == nil) <==> len(msg.Accusers) == len(msg.PolyEvals) && allAddrs(msg.Accusers) && distinctBytes(msg.Accusers)
  ensures [sender and eon] err == nil ==> r != nil && r.Sender == sender && r.Eon == msg.Eon
  ensures [every accuser in order] err == nil ==> len(r.Accusers) == len(msg.Accusers) && sameAddrs(r.Accusers, msg.Accusers, len(msg.Accusers))
  ensures [every evaluation in order] err == nil ==> len(r.PolyEval) == len(msg.PolyEvals) && (forall j: int :: 0 <= j && j < len(r.PolyEval) ==> r.PolyEval[j] != nil && *r.PolyEval[j] == os2i(content(msg.PolyEvals[j])))

fn app.ParsePolyCommitmentMsg(msg, sender) returns (r, err) props A06 use nopanic
  requires msg != nil
  modifies
  loopinv ($g: shcrypto.Gammas, $n: int) len($g) == $n && (forall j: int :: 0 <= j && j < $n ==> g2ok(content(msg.Gammas[j])) && $g[j] != nil && fresh($g[j]) && ref($g[j]) < allocated && *$g[j] == g2dec(content(msg.Gammas[j])))
  loopinv ($g: shcrypto.Gammas) $g != nil && fresh($g)
  ensures [accept iff every point decodes] (err == nil) <==> (forall j: int :: 0 <= j && j < len(msg.Gammas) ==> g2ok(content(msg.Gammas[j])))
  ensures [sender and eon] err == nil ==> r != nil && r.Sender == sender && r.Eon == msg.Eon
  ensures [every point in order] err == nil ==> r.Gammas != nil && len(*r.Gammas) == len(msg.Gammas) && (forall j: int :: 0 <= j && j < len(msg.Gammas) ==> (*r.Gammas)[j] != nil && *(*r.Gammas)[j] == g2dec(content(msg.Gammas[j])))

fn app.ParseEpochSecretKeyShareMsg(msg, sender) returns (r, err) props A06 use nopanic
  requires msg != nil
  modifies
  ensures [accept iff the share decodes] (err == nil) <==> skShareOK(content(msg.Share))
  ensures [content] err == nil ==> r != nil && r.Sender == sender && r.Eon == msg.Eon && r.Epoch == msg.Epoch && r.Share != nil && *r.Share == skShareDec(content(msg.Share))

fn ev.BatchConfigFromMessage(m) returns (r, err) props A06 use nopanic
  requires m != nil
  modifies
  loopinv ($r: []common.Address, $n: int) len($r) == $n && sameAddrs($r, m.Keypers, $n)
  loopinv ($r: []common.Address) $r != nil ==> fresh($r)
  ensures [accept iff well formed] (err == nil) <==> allAddrs(m.Keypers) && distinctBytes(m.Keypers) && len(m.ConfigContractAddress) == 20
  ensures [every keyper in order] err == nil ==> len(r.Keypers) == len(m.Keypers) && sameAddrs(r.Keypers, m.Keypers, len(m.Keypers))
  ensures [content] err == nil ==> r.StartBatchIndex == m.StartBatchIndex && r.Threshold == m.Threshold && r.ConfigIndex == m.ConfigIndex && content(r.ConfigContractAddress) == content(m.ConfigContractAddress) && r.Started == m.Started && r.ValidatorsUpdated == m.ValidatorsUpdated && r.Height == 0
