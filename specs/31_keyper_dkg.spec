// Phase schedule (K03), epoch key collection (K05).
package keyper "github.com/shutter-network/shutter/shuttermint/keyper"
package puredkg "github.com/shutter-network/shutter/shlib/puredkg"
package epochkg "github.com/shutter-network/shutter/shuttermint/keyper/epochkg"

define i64(x) = -9223372036854775808 <= x && x <= 9223372036854775807

// the phase at a distance from the start of the eon
define phaseAt(p, d) = ite(d < p.Off, 0, ite(d < p.Dealing, 1, ite(d < p.Accusing, 2, ite(d < p.Apologizing, 3, 4))))
fn keyper.NewConstantPhaseLength(l) returns (p) props K03 nopanic
  requires 0 <= l && 3 * l <= 9223372036854775807
  modifies
  ensures [equal lengths without a wait] p.Off == 0 && p.Dealing == l && p.Accusing == 2 * l && p.Apologizing == 3 * l

fn (*keyper.PhaseLength).getPhaseAtHeight(p, h, start) returns (r) props K03 use nopanic
  requires p != nil && i64(start + p.Off) && i64(start + p.Dealing) && i64(start + p.Accusing) && i64(start + p.Apologizing)
  modifies
  ensures [a function of the distance from the start] r == phaseAt(p, h - start)
  ensures [off before the start] h - start < p.Off ==> r == puredkg.Off
  ensures [dealing] p.Off <= h - start && h - start < p.Dealing ==> r == puredkg.Dealing
  ensures [accusing] p.Off <= p.Dealing && p.Dealing <= h - start && h - start < p.Accusing && p.Off <= h - start ==> r == puredkg.Accusing
  ensures [apologizing] p.Off <= p.Dealing && p.Dealing <= p.Accusing && p.Accusing <= h - start && h - start < p.Apologizing ==> r == puredkg.Apologizing
  ensures [finalized for ever] p.Off <= p.Dealing && p.Dealing <= p.Accusing && p.Accusing <= p.Apologizing && h - start >= p.Apologizing ==> r == puredkg.Finalized

lemma phaseMonotone(p: keyper.PhaseLength, d: int, e: int) props K03
  requires p.Off <= p.Dealing && p.Dealing <= p.Accusing && p.Accusing <= p.Apologizing
  requires d <= e
  ensures [never moves backwards] phaseAt(p, d) <= phaseAt(p, e)

opaque shcrypto.EonPublicKeyShare U_PkShare zeroPkShare
declare zeroPkShare(): U_PkShare
opaque shcrypto.EpochID U_EpochID zeroEpochID
declare zeroEpochID(): U_EpochID
opaque shcrypto.EpochSecretKey U_EpochKey zeroEpochKey
declare zeroEpochKey(): U_EpochKey
declare epochIDof(Str): U_EpochID
declare shareOK(U_Share, U_PkShare, U_EpochID): Bool
// the epoch key interpolated from the first n (keyper, share) pairs
declare combined(Int, (Array Int Int), (Array Int U_Share)): U_EpochKey
extern shcrypto.ComputeEpochID(b) returns (r)
  ensures r != nil && fresh(r) && ref(r) < allocated && *r == epochIDof(content(b))
extern shcrypto.VerifyEpochSecretKeyShare(s, pk, id) returns (ok)
  requires s != nil && pk != nil && id != nil
  equals shareOK(*s, *pk, *id)
extern shcrypto.ComputeEpochSecretKey(idx, shares, threshold) returns (k, err)
  requires forall j: int :: 0 <= j && j < len(shares) ==> shares[j] != nil
  ensures (err == nil) <==> len(idx) == len(shares) && len(shares) == threshold
  ensures err == nil ==> k != nil && fresh(k) && ref(k) < allocated && forall a: #(Array Int Int), b: #(Array Int U_Share) {combined(len(shares), a, b)} :: (forall j: int :: 0 <= j && j < len(shares) ==> a[j] == idx[j] && b[j] == *shares[j]) ==> *k == combined(len(shares), a, b)
  ensures err != nil ==> k == nil

define epochID(e) = epochIDof(be64(e))

declare shareFor(Int, U_EpochID): U_Share
extern shcrypto.ComputeEpochSecretKeyShare(k, id) returns (s)
  requires k != nil && id != nil
  ensures s != nil && fresh(s) && ref(s) < allocated && *s == shareFor(*k, *id)
fn (*epochkg.EpochKG).ComputeEpochSecretKeyShare(k, epoch) returns (s) props S08 use nopanic
  requires k != nil && k.SecretKeyShare != nil
  modifies
  ensures [the epoch id raised to the own secret share] s != nil && *s == shareFor(*k.SecretKeyShare, epochID(epoch))

define wfShares(ss) = forall j: int :: 0 <= j && j < len(ss) ==> ss[j] != nil && ref(ss[j]) < allocated && ss[j].Share != nil && ss[j].Sender <= 9223372036854775807
define wfEKG(k) = k != nil && k.SecretShares != nil && k.SecretKeys != nil && 1 <= k.Threshold && k.Threshold <= 9223372036854775807 &&
  (forall e: uint64 :: e in k.SecretKeys ==> k.SecretKeys[e] != nil && ref(k.SecretKeys[e]) < allocated && !(e in k.SecretShares)) &&
  (forall e: uint64 :: e in k.SecretShares ==> wfShares(k.SecretShares[e]) && len(k.SecretShares[e]) < k.Threshold && k.SecretShares[e] != nil && ref(k.SecretShares[e]) < allocated) &&
  (forall e: uint64, f: uint64 :: e != f && e in k.SecretShares && f in k.SecretShares ==> ref(k.SecretShares[e]) != ref(k.SecretShares[f])) &&
  (forall e: uint64, i: int, j: int :: e in k.SecretShares && 0 <= i && i < j && j < len(k.SecretShares[e]) ==> k.SecretShares[e][i].Sender != k.SecretShares[e][j].Sender)
define haveKey(k, e) = e in k.SecretKeys
define counted(k, e, s) = exists j: int :: 0 <= j && j < len(k.SecretShares[e]) && k.SecretShares[e][j].Sender == s

fn (*epochkg.EpochKG).computeEpochSecretKey(k, shares) returns (r, err) props K05 use nopanic
  requires k != nil && wfShares(shares)
  modifies
  loopinv ($a: []int, $n: int) len($a) == $n && ($n > 0 ==> $a != nil) && ($a != nil ==> fresh($a)) && forall j: int :: 0 <= j && j < $n ==> $a[j] == shares[j].Sender
  loopinv ($b: []*shcrypto.EpochSecretKeyShare, $n: int) len($b) == $n && ($n > 0 ==> $b != nil) && ($b != nil ==> fresh($b)) && forall j: int :: 0 <= j && j < $n ==> $b[j] == shares[j].Share
  ensures [computed iff threshold many] (err == nil) <==> len(shares) == k.Threshold
  ensures [from all of them and nothing else] err == nil ==> r != nil && fresh(r) && ref(r) < allocated && forall a: #(Array Int Int), b: #(Array Int U_Share) {combined(len(shares), a, b)} :: (forall j: int :: 0 <= j && j < len(shares) ==> a[j] == shares[j].Sender && b[j] == *shares[j].Share) ==> *r == combined(len(shares), a, b)
  ensures err != nil ==> r == nil

define shareSet(k, e, a, b, s, n) = (forall j: int :: 0 <= j && j < n - 1 ==> a[j] == k.SecretShares[e][j].Sender && b[j] == *k.SecretShares[e][j].Share) && a[n-1] == s.Sender && b[n-1] == *s.Share
define othersKept(k, e) = forall f: uint64 :: f != e ==> (f in k.SecretShares <==> old(f in k.SecretShares)) && k.SecretShares[f] == old(k.SecretShares[f]) && (haveKey(k, f) <==> old(haveKey(k, f))) && k.SecretKeys[f] == old(k.SecretKeys[f])

fn (*epochkg.EpochKG).addEpochSecretKeyShare(k, s) returns (err) props K05 use nopanic
  requires wfEKG(k) && s != nil && s.Share != nil && s.Sender <= 9223372036854775807 && !haveKey(k, s.Epoch)
  modifies mapof(k.SecretShares), mapof(k.SecretKeys), elems(k.SecretShares[s.Epoch])
  loopinv ($n: int) forall j: int :: 0 <= j && j < $n ==> k.SecretShares[s.Epoch][j].Sender != s.Sender
  ensures [refused iff the sender was counted already] (err != nil) <==> old(counted(k, s.Epoch, s.Sender))
  ensures [refused changes nothing] err != nil ==> unchanged()
  ensures [other epochs are untouched] othersKept(k, s.Epoch) && (forall f: uint64, j: int :: f != s.Epoch && 0 <= j && j < len(k.SecretShares[f]) ==> k.SecretShares[f][j] == old(k.SecretShares[f][j]))
  ensures [key derived exactly at the threshold] err == nil ==> (haveKey(k, s.Epoch) <==> old(len(k.SecretShares[s.Epoch])) + 1 == k.Threshold)
  ensures [counted until then] err == nil && !haveKey(k, s.Epoch) ==> len(k.SecretShares[s.Epoch]) == old(len(k.SecretShares[s.Epoch])) + 1 && k.SecretShares[s.Epoch][len(k.SecretShares[s.Epoch])-1] == s && (forall j: int :: 0 <= j && j < old(len(k.SecretShares[s.Epoch])) ==> k.SecretShares[s.Epoch][j] == old(k.SecretShares[s.Epoch][j]))
  ensures [key from the counted shares] err == nil && haveKey(k, s.Epoch) ==> forall a: #(Array Int Int), b: #(Array Int U_Share) {combined(k.Threshold, a, b)} :: old(shareSet(k, s.Epoch, a, b, s, k.Threshold)) ==> *k.SecretKeys[s.Epoch] == combined(k.Threshold, a, b)
  ensures [invariant] wfEKG(k)

fn (*epochkg.EpochKG).HandleEpochSecretKeyShare(k, s) returns (err) props K05 use nopanic
  requires wfEKG(k) && s != nil && s.Share != nil && s.Sender < len(k.PublicKeyShares) && k.PublicKeyShares[s.Sender] != nil
  modifies mapof(k.SecretShares), mapof(k.SecretKeys), elems(k.SecretShares[s.Epoch])
  ensures [a known key stays fixed] old(haveKey(k, s.Epoch)) ==> err == nil && unchanged()
  ensures [accepted iff valid and first of its sender] !old(haveKey(k, s.Epoch)) ==> ((err == nil) <==> old(shareOK(*s.Share, *k.PublicKeyShares[s.Sender], epochID(s.Epoch)) && !counted(k, s.Epoch, s.Sender)))
  ensures [refused changes nothing] err != nil ==> unchanged()
  ensures [other epochs are untouched] othersKept(k, s.Epoch) && (forall f: uint64, j: int :: f != s.Epoch && 0 <= j && j < len(k.SecretShares[f]) ==> k.SecretShares[f][j] == old(k.SecretShares[f][j]))
  ensures [key derived exactly at the threshold] err == nil && !old(haveKey(k, s.Epoch)) ==> (haveKey(k, s.Epoch) <==> old(len(k.SecretShares[s.Epoch])) + 1 == k.Threshold)
  ensures [counted until then] err == nil && !haveKey(k, s.Epoch) ==> len(k.SecretShares[s.Epoch]) == old(len(k.SecretShares[s.Epoch])) + 1 && k.SecretShares[s.Epoch][len(k.SecretShares[s.Epoch])-1] == s && (forall j: int :: 0 <= j && j < old(len(k.SecretShares[s.Epoch])) ==> k.SecretShares[s.Epoch][j] == old(k.SecretShares[s.Epoch][j]))
  ensures [key from the counted shares] !old(haveKey(k, s.Epoch)) && err == nil && haveKey(k, s.Epoch) ==> forall a: #(Array Int Int), b: #(Array Int U_Share) {combined(k.Threshold, a, b)} :: old(shareSet(k, s.Epoch, a, b, s, k.Threshold)) ==> *k.SecretKeys[s.Epoch] == combined(k.Threshold, a, b)
  ensures [invariant] wfEKG(k)
