// Replay protection: nonce tracker and CheckTx state.
define wfNT(t) = t != nil && t.RandomNonces != nil &&
  (forall a: common.Address :: a in t.RandomNonces ==> t.RandomNonces[a] != nil && ref(t.RandomNonces[a]) < allocated) &&
  (forall a: common.Address, b: common.Address :: a in t.RandomNonces && b in t.RandomNonces && a != b ==> t.RandomNonces[a] != t.RandomNonces[b])
define nonceUsed(t, s, n) = t.RandomNonces[s][n]

fn (*app.NonceTracker).Check(t, sender, nonce) returns (r) props A01 use nopanic
  requires wfNT(t)
  ensures [free iff unused] r <==> !nonceUsed(t, sender, nonce)

fn (*app.NonceTracker).Add(t, sender, nonce) props A01 use nopanic
  requires wfNT(t)
  modifies mapof(t.RandomNonces), mapof(t.RandomNonces[sender])
  ensures [well formed] wfNT(t)
  ensures [sets kept or new] sender in t.RandomNonces && (forall a: common.Address :: (a in t.RandomNonces <==> old(a in t.RandomNonces) || a == sender) && (old(a in t.RandomNonces) ==> t.RandomNonces[a] == old(t.RandomNonces[a]))) && (!old(sender in t.RandomNonces) ==> fresh(t.RandomNonces[sender]))
  ensures [records exactly this nonce] forall a: common.Address, n: uint64 :: nonceUsed(t, a, n) <==> (old(nonceUsed(t, a, n)) || (a == sender && n == nonce))

define wfCheck(s) = s != nil && s.TxCounts != nil && s.Members != s.TxCounts && wfNT(s.NonceTracker)

fn (*app.CheckTxState).AddTx(s, sender, msg) returns (r) props A02
  requires wfCheck(s) && msg != nil
  requires forall a: common.Address :: s.TxCounts[a] >= 0 && s.TxCounts[a] <= 10
  ensures [accept iff] r <==> old((len(s.Members) == 0 || s.Members[sender]) && s.TxCounts[sender] < 10 && !nonceUsed(s.NonceTracker, sender, msg.RandomNonce))
  ensures [rejected changes nothing] !r ==> unchanged()
  ensures [counted] r ==> forall a: common.Address :: s.TxCounts[a] == old(s.TxCounts[a]) + ite(a == sender, 1, 0)
  ensures [nonce recorded] r ==> forall a: common.Address, n: uint64 :: nonceUsed(s.NonceTracker, a, n) <==> (old(nonceUsed(s.NonceTracker, a, n)) || (a == sender && n == msg.RandomNonce))
  ensures [invariant] wfCheck(s)

fn (*app.CheckTxState).SetMembers(s, members) props A02 nopanic use
  requires s != nil
  loopinv ($n: int) forall a: common.Address :: s.Members[a] <==> (exists i: int :: 0 <= i && i < $n && members[i] == a)
  loopinv forall a: common.Address :: (a in s.Members) ==> s.Members[a]
  loopinv ($n: int) len(s.Members) >= ite($n > 0, 1, 0)
  modifies s.Members
  ensures [exact member set] forall a: common.Address :: s.Members[a] <==> (exists i: int :: 0 <= i && i < len(members) && members[i] == a)
  ensures [non-empty if members] len(members) > 0 ==> len(s.Members) > 0
  ensures fresh(s.Members)
