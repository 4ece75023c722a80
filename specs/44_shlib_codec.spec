// Serialization of keys, points, blocks, ciphertexts and commitments (S03).
package hexutil "github.com/ethereum/go-ethereum/common/hexutil"
opaque bytes.Buffer Str emptystr

// facts about parts of concatenations, and single bytes
declare chr(Int): Str needs chr_ax
smt chr_ax (assert (forall ((c Int)) (! (and (= (strlen (chr c)) 1) (=> (and (<= 0 c) (<= c 255)) (= (strat (chr c) 0) c))) :pattern ((chr c)))))
declare parts(): Bool needs parts_ax
smt parts_ax
  (assert (forall ((s Str) (t Str) (i Int) (m Int)) (! (=> (and (<= 0 i) (<= 0 m) (<= (+ i m) (strlen s))) (= (strsub (strcat s t) i m) (strsub s i m))) :pattern ((strsub (strcat s t) i m)))))
  (assert (forall ((s Str) (t Str) (i Int) (m Int)) (! (=> (and (<= (strlen s) i) (<= 0 m) (<= (+ i m) (+ (strlen s) (strlen t)))) (= (strsub (strcat s t) i m) (strsub t (- i (strlen s)) m))) :pattern ((strsub (strcat s t) i m)))))
  (assert (forall ((s Str) (n Int)) (! (=> (= n (strlen s)) (= (strsub s 0 n) s)) :pattern ((strsub s 0 n)))))
  (assert parts)

// compressed points: total on the group, and what a byte string decodes to
declare cmp1(Int): Str needs comp_ax
declare cmp2(Int): Str needs comp_ax
declare unc1ok(Str): Bool needs comp_ax
declare unc2ok(Str): Bool needs comp_ax
declare unc1(Str): Int needs comp_ax
declare unc2(Str): Int needs comp_ax
smt comp_ax
  (assert (forall ((x Int)) (! (and (= (strlen (cmp1 x)) 48) (unc1ok (cmp1 x)) (= (unc1 (cmp1 x)) x)) :pattern ((cmp1 x)))))
  (assert (forall ((x Int)) (! (and (= (strlen (cmp2 x)) 96) (unc2ok (cmp2 x)) (= (unc2 (cmp2 x)) x)) :pattern ((cmp2 x)))))
  (assert (forall ((s Str)) (! (=> (unc1ok s) (= (strlen s) 48)) :pattern ((unc1ok s)))))
  (assert (forall ((s Str)) (! (=> (unc2ok s) (= (strlen s) 96)) :pattern ((unc2ok s)))))

extern (*blst.P1Affine).Compress(p) returns (b)
  requires p != nil
  modifies
  ensures b != nil && fresh(b) && ref(b) < allocated && content(b) == cmp1(*p)
extern (*blst.P1Affine).Uncompress(p, in) returns (r)
  requires p != nil
  modifies *p
  ensures (r != nil) <==> unc1ok(content(in))
  ensures r != nil ==> r == p && *p == unc1(content(in))
extern (*blst.P1Affine).InG1(p) returns (r)
  requires p != nil
  modifies
  ensures r <==> inGroup(*p)

extern (*blst.P2Affine).Compress(p) returns (b)
  requires p != nil
  modifies
  ensures b != nil && fresh(b) && ref(b) < allocated && content(b) == cmp2(*p)
extern (*blst.P2Affine).Uncompress(p, in) returns (r)
  requires p != nil
  modifies *p
  ensures (r != nil) <==> unc2ok(content(in))
  ensures r != nil ==> r == p && *p == unc2(content(in))
extern (*blst.P2Affine).InG2(p) returns (r)
  requires p != nil
  modifies
  ensures r <==> inGroup(*p)

extern (*blst.P1Affine).Equals(p, o) returns (r)
  requires p != nil && o != nil
  modifies
  ensures r <==> *p == *o

extern (*bytes.Buffer).WriteByte(b, c) returns (err)
  requires b != nil
  modifies *b
  ensures err == nil && *b == strcat(old(*b), chr(c))
extern (*bytes.Buffer).Write(b, p) returns (n, err)
  requires b != nil
  modifies *b
  ensures err == nil && n == len(p) && *b == strcat(old(*b), old(content(p)))
extern (*bytes.Buffer).Bytes(b) returns (r)
  requires b != nil
  modifies
  ensures fresh(r) && ref(r) < allocated && content(r) == *b

// hexadecimal text
declare hexEnc(Str): Str needs hex_ax
declare hexOk(Str): Bool needs hex_ax
declare hexDec(Str): Str needs hex_ax
declare hexTOk(Str): Bool needs hex_ax
declare hexTDec(Str): Str needs hex_ax
smt hex_ax
  (assert (forall ((s Str)) (! (and (hexOk (hexEnc s)) (= (hexDec (hexEnc s)) s) (hexTOk (hexEnc s)) (= (hexTDec (hexEnc s)) s)) :pattern ((hexEnc s)))))
extern hexutil.Encode(b) returns (s)
  modifies
  ensures s == hexEnc(content(b))
extern hexutil.Decode(s) returns (b, err)
  modifies
  ensures (err == nil) <==> hexOk(s)
  ensures fresh(b) && ref(b) < allocated && (err == nil ==> content(b) == hexDec(s))
extern (hexutil.Bytes).MarshalText(b) returns (r, err)
  modifies
  ensures err == nil && fresh(r) && ref(r) < allocated && content(r) == hexEnc(content(b))
extern (*hexutil.Bytes).UnmarshalText(b, t) returns (err)
  requires b != nil
  modifies *b
  ensures (err == nil) <==> hexTOk(content(t))
  ensures err == nil ==> content(*b) == hexTDec(content(t)) && ref(*b) < allocated && fresh(*b)

define ok1(s) = unc1ok(s) && inGroup(unc1(s))
define ok2(s) = unc2ok(s) && inGroup(unc2(s))

fn (*shc.EonPublicKeyShare).Marshal(k) returns (b) props S03 use nopanic
  requires k != nil
  modifies
  ensures [the encoding of the value] fresh(b) && ref(b) < allocated && content(b) == cmp2(*k)
fn (*shc.EonPublicKeyShare).Unmarshal(k, m) returns (err) props S03 use nopanic
  requires k != nil
  modifies *k
  ensures [accepted iff the bytes encode a group element] (err == nil) <==> ok2(content(m))
  ensures [which is the value] err == nil ==> *k == unc2(content(m))
fn (*shc.EonPublicKeyShare).GobEncode(k) returns (b, err) props S03 use nopanic
  requires k != nil
  modifies
  ensures [the encoding of the value] err == nil && content(b) == cmp2(*k)
fn (*shc.EonPublicKeyShare).GobDecode(k, m) returns (err) props S03 use nopanic
  requires k != nil
  modifies *k
  ensures [accepted iff the bytes encode a group element] (err == nil) <==> ok2(content(m))
  ensures [which is the value] err == nil ==> *k == unc2(content(m))
fn (*shc.EonPublicKeyShare).Equal(k, o) returns (r) props S03 use nopanic
  requires k != nil && o != nil
  modifies
  ensures [iff the same value] r <==> *k == *o
lemma roundTripEonPublicKeyShare(k: shc.EonPublicKeyShare) props S03
  requires inGroup(k)
  ensures [decoding the encoding gives back the value] ok2(cmp2(k)) && unc2(cmp2(k)) == k

fn (*shc.EonPublicKey).Marshal(k) returns (b) props S03 use nopanic
  requires k != nil
  modifies
  ensures [the encoding of the value] fresh(b) && ref(b) < allocated && content(b) == cmp2(*k)
fn (*shc.EonPublicKey).Unmarshal(k, m) returns (err) props S03 use nopanic
  requires k != nil
  modifies *k
  ensures [accepted iff the bytes encode a group element] (err == nil) <==> ok2(content(m))
  ensures [which is the value] err == nil ==> *k == unc2(content(m))
fn (*shc.EonPublicKey).GobEncode(k) returns (b, err) props S03 use nopanic
  requires k != nil
  modifies
  ensures [the encoding of the value] err == nil && content(b) == cmp2(*k)
fn (*shc.EonPublicKey).GobDecode(k, m) returns (err) props S03 use nopanic
  requires k != nil
  modifies *k
  ensures [accepted iff the bytes encode a group element] (err == nil) <==> ok2(content(m))
  ensures [which is the value] err == nil ==> *k == unc2(content(m))
fn (*shc.EonPublicKey).Equal(k, o) returns (r) props S03 use nopanic
  requires k != nil && o != nil
  modifies
  ensures [iff the same value] r <==> *k == *o
lemma roundTripEonPublicKey(k: shc.EonPublicKey) props S03
  requires inGroup(k)
  ensures [decoding the encoding gives back the value] ok2(cmp2(k)) && unc2(cmp2(k)) == k

fn (*shc.EpochID).Marshal(k) returns (b) props S03 use nopanic
  requires k != nil
  modifies
  ensures [the encoding of the value] fresh(b) && ref(b) < allocated && content(b) == cmp1(*k)
fn (*shc.EpochID).Unmarshal(k, m) returns (err) props S03 use nopanic
  requires k != nil
  modifies *k
  ensures [accepted iff the bytes encode a group element] (err == nil) <==> ok1(content(m))
  ensures [which is the value] err == nil ==> *k == unc1(content(m))
fn (*shc.EpochID).GobEncode(k) returns (b, err) props S03 use nopanic
  requires k != nil
  modifies
  ensures [the encoding of the value] err == nil && content(b) == cmp1(*k)
fn (*shc.EpochID).GobDecode(k, m) returns (err) props S03 use nopanic
  requires k != nil
  modifies *k
  ensures [accepted iff the bytes encode a group element] (err == nil) <==> ok1(content(m))
  ensures [which is the value] err == nil ==> *k == unc1(content(m))
fn (*shc.EpochID).Equal(k, o) returns (r) props S03 use nopanic
  requires k != nil && o != nil
  modifies
  ensures [iff the same value] r <==> *k == *o
lemma roundTripEpochID(k: shc.EpochID) props S03
  requires inGroup(k)
  ensures [decoding the encoding gives back the value] ok1(cmp1(k)) && unc1(cmp1(k)) == k

fn (*shc.EpochSecretKeyShare).Marshal(k) returns (b) props S03 use nopanic
  requires k != nil
  modifies
  ensures [the encoding of the value] fresh(b) && ref(b) < allocated && content(b) == cmp1(*k)
fn (*shc.EpochSecretKeyShare).Unmarshal(k, m) returns (err) props S03 use nopanic
  requires k != nil
  modifies *k
  ensures [accepted iff the bytes encode a group element] (err == nil) <==> ok1(content(m))
  ensures [which is the value] err == nil ==> *k == unc1(content(m))
fn (*shc.EpochSecretKeyShare).GobEncode(k) returns (b, err) props S03 use nopanic
  requires k != nil
  modifies
  ensures [the encoding of the value] err == nil && content(b) == cmp1(*k)
fn (*shc.EpochSecretKeyShare).GobDecode(k, m) returns (err) props S03 use nopanic
  requires k != nil
  modifies *k
  ensures [accepted iff the bytes encode a group element] (err == nil) <==> ok1(content(m))
  ensures [which is the value] err == nil ==> *k == unc1(content(m))
fn (*shc.EpochSecretKeyShare).Equal(k, o) returns (r) props S03 use nopanic
  requires k != nil && o != nil
  modifies
  ensures [iff the same value] r <==> *k == *o
lemma roundTripEpochSecretKeyShare(k: shc.EpochSecretKeyShare) props S03
  requires inGroup(k)
  ensures [decoding the encoding gives back the value] ok1(cmp1(k)) && unc1(cmp1(k)) == k

fn (*shc.EpochSecretKey).Marshal(k) returns (b) props S03 use nopanic
  requires k != nil
  modifies
  ensures [the encoding of the value] fresh(b) && ref(b) < allocated && content(b) == cmp1(*k)
fn (*shc.EpochSecretKey).Unmarshal(k, m) returns (err) props S03 use nopanic
  requires k != nil
  modifies *k
  ensures [accepted iff the bytes encode a group element] (err == nil) <==> ok1(content(m))
  ensures [which is the value] err == nil ==> *k == unc1(content(m))
fn (*shc.EpochSecretKey).GobEncode(k) returns (b, err) props S03 use nopanic
  requires k != nil
  modifies
  ensures [the encoding of the value] err == nil && content(b) == cmp1(*k)
fn (*shc.EpochSecretKey).GobDecode(k, m) returns (err) props S03 use nopanic
  requires k != nil
  modifies *k
  ensures [accepted iff the bytes encode a group element] (err == nil) <==> ok1(content(m))
  ensures [which is the value] err == nil ==> *k == unc1(content(m))
fn (*shc.EpochSecretKey).Equal(k, o) returns (r) props S03 use nopanic
  requires k != nil && o != nil
  modifies
  ensures [iff the same value] r <==> *k == *o
lemma roundTripEpochSecretKey(k: shc.EpochSecretKey) props S03
  requires inGroup(k)
  ensures [decoding the encoding gives back the value] ok1(cmp1(k)) && unc1(cmp1(k)) == k

fn (shc.EonPublicKey).MarshalText(k) returns (b, err) props S03 use nopanic
  modifies
  ensures [the encoding of the value as text] err == nil && content(b) == hexEnc(cmp2(k))
fn (*shc.EonPublicKey).UnmarshalText(k, m) returns (err) props S03 use nopanic
  requires k != nil
  modifies *k
  ensures [accepted iff the text encodes a group element] (err == nil) <==> (hexTOk(old(content(m))) && ok2(hexTDec(old(content(m)))))
  ensures [which is the value] err == nil ==> *k == unc2(hexTDec(old(content(m))))
lemma textRoundTripEonPublicKey(k: shc.EonPublicKey) props S03
  requires inGroup(k)
  ensures [decoding the encoded text gives back the value] hexTOk(hexEnc(cmp2(k))) && ok2(hexTDec(hexEnc(cmp2(k)))) && unc2(hexTDec(hexEnc(cmp2(k)))) == k

fn (shc.EpochSecretKey).MarshalText(k) returns (b, err) props S03 use nopanic
  modifies
  ensures [the encoding of the value as text] err == nil && content(b) == hexEnc(cmp1(k))
fn (*shc.EpochSecretKey).UnmarshalText(k, m) returns (err) props S03 use nopanic
  requires k != nil
  modifies *k
  ensures [accepted iff the text encodes a group element] (err == nil) <==> (hexTOk(old(content(m))) && ok1(hexTDec(old(content(m)))))
  ensures [which is the value] err == nil ==> *k == unc1(hexTDec(old(content(m))))
lemma textRoundTripEpochSecretKey(k: shc.EpochSecretKey) props S03
  requires inGroup(k)
  ensures [decoding the encoded text gives back the value] hexTOk(hexEnc(cmp1(k))) && ok1(hexTDec(hexEnc(cmp1(k)))) && unc1(hexTDec(hexEnc(cmp1(k)))) == k

fn (*shc.EonSecretKeyShare).Marshal(k) returns (b) props S03 use nopanic
  requires k != nil
  modifies
  ensures [the encoding of the value] content(b) == i2os(*k)
fn (*shc.EonSecretKeyShare).Unmarshal(k, m) returns (err) props S03 use nopanic
  requires k != nil && orderSet() && ref(k) != ref(shc.order)
  modifies *k
  ensures [accepted iff a field element] (err == nil) <==> os2i(content(m)) < qOrder
  ensures [which is the value] err == nil ==> *k == os2i(content(m))
fn (*shc.EonSecretKeyShare).Equal(k, o) returns (r) props S03 use nopanic
  requires k != nil && o != nil
  modifies
  ensures [iff the same value] r <==> *k == *o
lemma roundTripEonSecretKeyShare(k: shc.EonSecretKeyShare) props S03
  requires inGroup(k)
  ensures [decoding the encoding gives back the value] os2i(i2os(k)) < qOrder && os2i(i2os(k)) == k

fn (shc.Block).MarshalText(b) returns (r, err) props S03 use nopanic
  modifies
  ensures [the bytes as text] err == nil && content(r) == hexEnc(content(b))
fn (*shc.Block).UnmarshalText(b, m) returns (err) props S03 use nopanic
  requires b != nil
  modifies *b
  ensures [accepted iff the text encodes 32 bytes] (err == nil) <==> (hexOk(old(content(m))) && strlen(hexDec(old(content(m)))) == 32)
  ensures [which are the value] err == nil ==> content(*b) == hexDec(old(content(m)))
lemma textRoundTripBlock(b: shc.Block) props S03
  ensures [decoding the encoded text gives back the block] hexOk(hexEnc(content(b))) && strlen(hexDec(hexEnc(content(b)))) == 32 && hexDec(hexEnc(content(b))) == content(b)

fn shc.IdentifyVersion(d) returns (v) props S03 use nopanic
  modifies

// the layout of a serialized ciphertext
define blockAt(s, i) = strsub(s, 129 + 32 * i, 32)
fn (*shc.EncryptedMessage).Marshal(m) returns (b) props S03 use
  requires m != nil
  panics [a ciphertext without first component] m.C1 == nil
  modifies
  loopinv ($buff: *bytes.Buffer, $n: int) parts() && strlen(*$buff) == 129 + 32 * $n
  loopinv ($buff: *bytes.Buffer, $n: int) strsub(*$buff, 0, 1) == chr(3)
  loopinv ($buff: *bytes.Buffer, $n: int) strsub(*$buff, 1, 96) == cmp2(*m.C1)
  loopinv ($buff: *bytes.Buffer, $n: int) strsub(*$buff, 97, 32) == content(m.C2)
  loopinv ($buff: *bytes.Buffer, $n: int) forall i: int :: 0 <= i && i < $n ==> blockAt(*$buff, i) == content(m.C3[i])
  ensures [length] len(b) == 129 + 32 * len(m.C3)
  ensures [version] strsub(content(b), 0, 1) == chr(3)
  ensures [first component] strsub(content(b), 1, 96) == cmp2(*m.C1)
  ensures [second component] strsub(content(b), 97, 32) == content(m.C2)
  ensures [blocks] forall i: int :: 0 <= i && i < len(m.C3) ==> blockAt(content(b), i) == content(m.C3[i])

fn (*shc.EncryptedMessage).Unmarshal(m, d) returns (err) props S03 use nopanic
  requires m != nil && (m.C1 != nil ==> ref(m.C1) < allocated)
  modifies m.C1, *m.C1, m.C2, m.C3
  loopinv ($i: int) $i == 129 + 32 * len(m.C3) && $i <= len(d) && (m.C3 == nil || fresh(m.C3)) && ref(m.C3) < allocated
  loopinv ($i: int) forall j: int :: 0 <= j && j < len(m.C3) ==> content(m.C3[j]) == blockAt(content(d), j)
  ensures [accepted iff well formed] (err == nil) <==> (len(d) >= 129 && d[0] == 3 && (len(d) - 129) % 32 == 0 && ok2(strsub(content(d), 1, 96)))
  ensures [first component] err == nil ==> m.C1 != nil && *m.C1 == unc2(strsub(content(d), 1, 96))
  ensures [second component] err == nil ==> content(m.C2) == strsub(content(d), 97, 32)
  ensures [number of blocks] err == nil ==> 129 + 32 * len(m.C3) == len(d)
  ensures [blocks] err == nil ==> forall j: int :: 0 <= j && j < len(m.C3) ==> content(m.C3[j]) == blockAt(content(d), j)


lemma roundTripEncryptedMessage(m: shc.EncryptedMessage, s: string, n: shc.EncryptedMessage) props S03
  requires m.C1 != nil && n.C1 != nil && inGroup(*m.C1) && parts()
  requires [what Marshal gives] strlen(s) == 129 + 32 * len(m.C3) && strsub(s, 0, 1) == chr(3) && strsub(s, 1, 96) == cmp2(*m.C1) && strsub(s, 97, 32) == content(m.C2) && (forall i: int :: 0 <= i && i < len(m.C3) ==> blockAt(s, i) == content(m.C3[i]))
  requires [what Unmarshal gives] *n.C1 == unc2(strsub(s, 1, 96)) && content(n.C2) == strsub(s, 97, 32) && 129 + 32 * len(n.C3) == strlen(s) && (forall j: int :: 0 <= j && j < len(n.C3) ==> content(n.C3[j]) == blockAt(s, j))
  ensures [accepted] strlen(s) >= 129 && s[0] == 3 && (strlen(s) - 129) % 32 == 0 && ok2(strsub(s, 1, 96))
  ensures [decoding the encoding gives back the ciphertext] *n.C1 == *m.C1 && content(n.C2) == content(m.C2) && len(n.C3) == len(m.C3) && forall i: int :: 0 <= i && i < len(m.C3) ==> content(n.C3[i]) == content(m.C3[i])
  ensures [the same blocks] n.C2 == m.C2 && forall i: int :: 0 <= i && i < len(m.C3) ==> n.C3[i] == m.C3[i]
fn (shc.EncryptedMessage).MarshalText(m) returns (b, err) props S03 use
  requires m.C1 != nil
  modifies
  ensures [the serialized ciphertext as text] err == nil && hexOk(content(b)) && strlen(hexDec(content(b))) == 129 + 32 * len(m.C3) && strsub(hexDec(content(b)), 0, 1) == chr(3) && strsub(hexDec(content(b)), 1, 96) == cmp2(*m.C1) && strsub(hexDec(content(b)), 97, 32) == content(m.C2)
  ensures [blocks] forall i: int :: 0 <= i && i < len(m.C3) ==> blockAt(hexDec(content(b)), i) == content(m.C3[i])
fn (*shc.EncryptedMessage).UnmarshalText(m, d) returns (err) props S03 use nopanic
  requires m != nil && (m.C1 != nil ==> ref(m.C1) < allocated)
  modifies m.C1, *m.C1, m.C2, m.C3
  ensures [accepted iff well formed] (err == nil) <==> (hexOk(old(content(d))) && strlen(hexDec(old(content(d)))) >= 129 && hexDec(old(content(d)))[0] == 3 && (strlen(hexDec(old(content(d)))) - 129) % 32 == 0 && ok2(strsub(hexDec(old(content(d))), 1, 96)))
  ensures [first component] err == nil ==> m.C1 != nil && *m.C1 == unc2(strsub(hexDec(old(content(d))), 1, 96))
  ensures [second component] err == nil ==> content(m.C2) == strsub(hexDec(old(content(d))), 97, 32)
  ensures [number of blocks] err == nil ==> 129 + 32 * len(m.C3) == strlen(hexDec(old(content(d))))
  ensures [blocks] err == nil ==> forall j: int :: 0 <= j && j < len(m.C3) ==> content(m.C3[j]) == blockAt(hexDec(old(content(d))), j)

// commitments: one compressed point after the other
define gammaIn(s, i) = strsub(s, 96 * i, 96)
define gammasOk(s) = strlen(s) % 96 == 0 && forall i: int :: 0 <= i && 96 * i < strlen(s) ==> ok2(gammaIn(s, i))

fn (*shc.Gammas).Marshal(g) returns (b) props S03 use nopanic
  requires g != nil ==> forall i: int :: 0 <= i && i < len(*g) ==> (*g)[i] != nil
  modifies
  loopinv ($buff: *bytes.Buffer, $n: int) parts() && strlen(*$buff) == 96 * $n
  loopinv ($buff: *bytes.Buffer, $n: int) forall i: int :: 0 <= i && i < $n ==> gammaIn(*$buff, i) == cmp2(*(*g)[i])
  ensures [one point after the other] (g == nil ==> len(b) == 0) && (g != nil ==> len(b) == 96 * len(*g))
  ensures [each compressed] g != nil ==> forall i: int :: 0 <= i && i < len(*g) ==> gammaIn(content(b), i) == cmp2(*(*g)[i])

fn (*shc.Gammas).GobEncode(g) returns (b, err) props S03 use nopanic
  requires g != nil ==> forall i: int :: 0 <= i && i < len(*g) ==> (*g)[i] != nil
  modifies
  loopinv ($buff: *bytes.Buffer, $n: int) parts() && strlen(*$buff) == 96 * $n
  loopinv ($buff: *bytes.Buffer, $n: int) forall i: int :: 0 <= i && i < $n ==> gammaIn(*$buff, i) == cmp2(*(*g)[i])
  ensures [one point after the other] err == nil && (g == nil ==> len(b) == 0) && (g != nil ==> len(b) == 96 * len(*g))
  ensures [each compressed] g != nil ==> forall i: int :: 0 <= i && i < len(*g) ==> gammaIn(content(b), i) == cmp2(*(*g)[i])

fn (*shc.Gammas).Unmarshal(g, m) returns (err) props S03 use nopanic
  requires g != nil
  modifies *g
  ensures [accepted iff all are group elements] (err == nil) <==> gammasOk(content(m))
  ensures [these points] err == nil ==> 96 * len(*g) == len(m) && (forall i: int :: 0 <= i && i < len(*g) ==> (*g)[i] != nil && *(*g)[i] == unc2(gammaIn(content(m), i)))
  ensures [valid] err == nil ==> validGammas(*g)
  loopinv ($i: int) 0 <= $i && 96 * $i <= len(m) && 96 * len(*g) == len(m) && fresh(*g) && ref(*g) < allocated
  loopinv ($i: int) forall j: int :: 0 <= j && j < $i ==> ok2(gammaIn(content(m), j))
  loopinv ($i: int) forall j: int :: 0 <= j && j < $i ==> (*g)[j] != nil && fresh((*g)[j]) && ref((*g)[j]) < allocated && *(*g)[j] == unc2(gammaIn(content(m), j))

fn (*shc.Gammas).GobDecode(g, m) returns (err) props S03 use nopanic
  requires g != nil
  modifies *g
  ensures [accepted iff all are group elements] (err == nil) <==> gammasOk(content(m))
  ensures [these points] err == nil ==> 96 * len(*g) == len(m) && (forall i: int :: 0 <= i && i < len(*g) ==> (*g)[i] != nil && *(*g)[i] == unc2(gammaIn(content(m), i)))
  ensures [valid] err == nil ==> validGammas(*g)

fn (*shc.Gammas).MarshalText(g) returns (b, err) props S03 use nopanic
  requires g != nil ==> forall i: int :: 0 <= i && i < len(*g) ==> (*g)[i] != nil
  modifies
  ensures [one point after the other, as text] err == nil && hexOk(content(b)) && (g == nil ==> strlen(hexDec(content(b))) == 0) && (g != nil ==> strlen(hexDec(content(b))) == 96 * len(*g))
  ensures [each compressed] g != nil ==> forall i: int :: 0 <= i && i < len(*g) ==> gammaIn(hexDec(content(b)), i) == cmp2(*(*g)[i])
fn (*shc.Gammas).UnmarshalText(g, m) returns (err) props S03 use nopanic
  requires g != nil
  modifies *g
  ensures [accepted iff all are group elements] (err == nil) <==> (hexOk(old(content(m))) && gammasOk(hexDec(old(content(m)))))
  ensures [these points] err == nil ==> 96 * len(*g) == strlen(hexDec(old(content(m)))) && (forall i: int :: 0 <= i && i < len(*g) ==> (*g)[i] != nil && *(*g)[i] == unc2(gammaIn(hexDec(old(content(m))), i)))
lemma roundTripGammas(g: shc.Gammas, s: string, h: shc.Gammas) props S03
  requires validGammas(g)
  requires [what Marshal gives] strlen(s) == 96 * len(g) && forall i: int :: 0 <= i && i < len(g) ==> gammaIn(s, i) == cmp2(*g[i])
  requires [what Unmarshal gives] 96 * len(h) == strlen(s) && (forall i: int :: 0 <= i && i < len(h) ==> h[i] != nil && *h[i] == unc2(gammaIn(s, i)))
  ensures [each accepted] forall i: int :: 0 <= i && i < len(g) ==> ok2(gammaIn(s, i))
  ensures [accepted] gammasOk(s)
  ensures [decoding the encoding gives back the commitment] len(h) == len(g) && forall i: int :: 0 <= i && i < len(g) ==> *h[i] == *g[i]
