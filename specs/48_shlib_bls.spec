// Aggregatable signatures (S11): bn256 points by their logarithm, as in 41.
package bls "github.com/shutter-network/shutter/shlib/shcrypto/shbls"
package bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
// minus one: a variable that holds no point yet
declare noPoint(): Int needs noPoint_ax
smt noPoint_ax (assert (= noPoint (- 1)))
opaque bn256.G1 Int noPoint
opaque bn256.G2 Int noPoint

// arithmetic modulo the order of the groups
declare bOrder(): Int needs bn_ax
declare bR(Int): Int needs bn_ax
declare badd2(Int, Int): Int needs bn_ax
declare bmul2(Int, Int): Int needs bn_ax
declare bneg2(Int): Int needs bn_ax
declare bmul3(Int, Int, Int): Int needs bn_ax
smt bn_ax
  (assert (= bOrder 21888242871839275222246405745257275088548364400416034343698204186575808495617))
  (assert (forall ((x Int)) (! (and (<= 0 (bR x)) (< (bR x) 21888242871839275222246405745257275088548364400416034343698204186575808495617)) :pattern ((bR x)))))
  (assert (forall ((x Int)) (! (=> (and (<= 0 x) (< x 21888242871839275222246405745257275088548364400416034343698204186575808495617)) (= (bR x) x)) :pattern ((bR x)))))
  (assert (forall ((x Int) (y Int)) (! (and (<= 0 (badd2 x y)) (< (badd2 x y) 21888242871839275222246405745257275088548364400416034343698204186575808495617)) :pattern ((badd2 x y)))))
  (assert (forall ((x Int) (y Int)) (! (and (<= 0 (bmul2 x y)) (< (bmul2 x y) 21888242871839275222246405745257275088548364400416034343698204186575808495617)) :pattern ((bmul2 x y)))))
  (assert (forall ((x Int)) (! (and (<= 0 (bneg2 x)) (< (bneg2 x) 21888242871839275222246405745257275088548364400416034343698204186575808495617)) :pattern ((bneg2 x)))))
  (assert (forall ((x Int) (y Int)) (! (= (bmul2 x y) (bmul2 y x)) :pattern ((bmul2 x y)))))
  (assert (forall ((x Int) (y Int)) (! (= (badd2 x y) (badd2 y x)) :pattern ((badd2 x y)))))
  (assert (forall ((x Int) (y Int)) (! (= (bmul2 (bR x) y) (bmul2 x y)) :pattern ((bmul2 (bR x) y)))))
  (assert (forall ((x Int)) (! (= (bmul2 (bneg2 1) x) (bneg2 x)) :pattern ((bmul2 (bneg2 1) x)))))
  (assert (forall ((x Int) (y Int)) (! (=> (and (<= 0 x) (< x 21888242871839275222246405745257275088548364400416034343698204186575808495617) (<= 0 y) (< y 21888242871839275222246405745257275088548364400416034343698204186575808495617)) (= (= (badd2 (bneg2 x) y) 0) (= x y))) :pattern ((badd2 (bneg2 x) y)))))
// sums over a list of pointers to points
declare bsum((Array Int Int), Int, Int, (Array Int Int)): Int needs bsum_ax,bn_ax
declare bdiff((Array Int Int), Int, (Array Int Int), Int, Int, (Array Int Int), (Array Int Int), Int): Int needs bsum_ax
smt bsum_ax
  (assert (forall ((a (Array Int Int)) (o Int) (h (Array Int Int))) (! (= (bsum a o 0 h) 0) :pattern ((bsum a o 0 h)))))
  (assert (forall ((a (Array Int Int)) (o Int) (n Int) (h (Array Int Int))) (! (and (<= 0 (bsum a o n h)) (< (bsum a o n h) 21888242871839275222246405745257275088548364400416034343698204186575808495617)) :pattern ((bsum a o n h)))))
  (assert (forall ((a (Array Int Int)) (o Int) (n Int) (h (Array Int Int))) (! (=> (<= 0 n) (= (bsum a o (+ n 1) h) (badd2 (bsum a o n h) (select h (select a (ix o n)))))) :pattern ((bsum a o n h) (select a (ix o n))))))
  (assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (n Int) (h (Array Int Int)) (g (Array Int Int)) (f Int)) (! (or (= (bsum a o n h) (bmul2 (bsum b p n g) f)) (and (<= 0 (bdiff a o b p n h g f)) (< (bdiff a o b p n h g f) n) (not (= (select h (select a (ix o (bdiff a o b p n h g f)))) (bmul2 (select g (select b (ix p (bdiff a o b p n h g f)))) f))))) :pattern ((bsum a o n h) (bmul2 (bsum b p n g) f)))))

define inB(x) = 0 <= x && x < bOrder
define bnSet() = bn256.Order != nil && *bn256.Order == bOrder && ref(bn256.Order) < allocated
extern (*bn256.G1).ScalarBaseMult(e, k) returns (r)
  requires e != nil && k != nil && *k >= 0
  modifies *e
  ensures r == e && *e == bR(*k)
extern (*bn256.G2).ScalarBaseMult(e, k) returns (r)
  requires e != nil && k != nil && *k >= 0
  modifies *e
  ensures r == e && *e == bR(*k)
extern (*bn256.G2).ScalarMult(e, a, k) returns (r)
  requires e != nil && a != nil && k != nil && *k >= 0 && inB(*a)
  modifies *e
  ensures r == e && *e == bmul2(old(*a), *k)
extern (*bn256.G1).Neg(e, a) returns (r)
  requires e != nil && a != nil && inB(*a)
  modifies *e
  ensures r == e && *e == bneg2(old(*a))
extern (*bn256.G1).Add(e, a, b) returns (r)
  requires e != nil && a != nil && b != nil && inB(*a) && inB(*b)
  modifies *e
  ensures r == e && *e == badd2(old(*a), old(*b))
extern (*bn256.G2).Add(e, a, b) returns (r)
  requires e != nil && a != nil && b != nil && inB(*a) && inB(*b)
  modifies *e
  ensures r == e && *e == badd2(old(*a), old(*b))
extern bn256.PairingCheck(a, b) returns (r)
  requires len(a) == 2 && len(b) == 2 && a[0] != nil && a[1] != nil && b[0] != nil && b[1] != nil && inB(*a[0]) && inB(*a[1]) && inB(*b[0]) && inB(*b[1])
  modifies
  ensures r <==> badd2(bmul2(*a[0], *b[0]), bmul2(*a[1], *b[1])) == 0
extern bn256.RandomG1(r) returns (k, p, err)
  requires r != nil
  ensures err == nil ==> k != nil && fresh(k) && ref(k) < allocated && 0 < *k && *k < bOrder && p != nil && fresh(p) && ref(p) < allocated && *p == bR(*k)
extern ethcrypto.Keccak256Hash(data) returns (h)
  requires len(data) == 1
  modifies
  ensures content(h) == hashOf(1, content(data[0]))
extern (common.Hash).Big(h) returns (r)
  modifies
  ensures r != nil && fresh(r) && ref(r) < allocated && *r == os2i(content(h))

// the point a message is hashed to
define msgPoint(m) = bR(os2i(hashOf(1, m)))
fn bls.hashToG2(m) returns (r) props S11 use nopanic
  modifies
  ensures [a point that depends on the message alone] r != nil && fresh(r) && ref(r) < allocated && *r == msgPoint(content(m))
fn bls.RandomKeyPair(r) returns (s, p, err) props S11 use nopanic
  requires r != nil
  ensures [a secret key and its public key] err == nil ==> s != nil && p != nil && inB(*s) && *p == bR(*s)
fn bls.SecretToPublicKey(s) returns (p) props S11 use nopanic
  requires s != nil && *s >= 0
  modifies
  ensures [the generator to the secret] p != nil && fresh(p) && ref(p) < allocated && *p == bR(*s)
fn bls.Sign(m, s) returns (r) props S11 use nopanic
  requires s != nil && *s >= 0
  modifies
  ensures [the message point to the secret] r != nil && fresh(r) && ref(r) < allocated && *r == bmul2(msgPoint(content(m)), *s)
fn bls.Verify(sig, p, m) returns (r) props S11 use nopanic
  requires sig != nil && p != nil && inB(*sig) && inB(*p)
  modifies
  ensures [iff it is the message point to the secret of the public key] r <==> *sig == bmul2(*p, msgPoint(content(m)))

define sigSum(s, n) = bsum(elems(s), off(s), n, cells(bn256.G2))
define keySum(s, n) = bsum(elems(s), off(s), n, cells(bn256.G1))
fn bls.AggregateSignatures(s) returns (r) props S11 use nopanic
  requires forall i: int {s[i]} :: 0 <= i && i < len(s) ==> s[i] != nil && ref(s[i]) < allocated && inB(*s[i])
  modifies
  loopinv ($r: *bn256.G2, $n: int) fresh($r) && *$r == old(sigSum(s, $n))
  ensures [the sum] r != nil && fresh(r) && ref(r) < allocated && *r == old(sigSum(s, len(s)))
fn bls.AggregatePublicKeys(s) returns (r) props S11 use nopanic
  requires forall i: int {s[i]} :: 0 <= i && i < len(s) ==> s[i] != nil && ref(s[i]) < allocated && inB(*s[i])
  modifies
  loopinv ($r: *bn256.G1, $n: int) fresh($r) && *$r == old(keySum(s, $n))
  ensures [the sum] r != nil && fresh(r) && ref(r) < allocated && *r == old(keySum(s, len(s)))

lemma signedVerifies(sig: int, pk: int, s: int, m: []byte) props S11
  requires inB(s) && pk == bR(s)
  ensures [the right secret key, and only its signature] (sig == bmul2(pk, msgPoint(content(m)))) <==> sig == bmul2(msgPoint(content(m)), s)
lemma aggregateVerifies(sigs: []*bls.Signature, pks: []*bls.PublicKey, m: []byte) props S11
  requires len(sigs) == len(pks) && forall i: int {sigs[i]} {pks[i]} :: 0 <= i && i < len(sigs) ==> *sigs[i] == bmul2(*pks[i], msgPoint(content(m)))
  ensures [the sum of the signatures verifies under the sum of the keys] sigSum(sigs, len(sigs)) == bmul2(keySum(pks, len(pks)), msgPoint(content(m)))

// encodings
declare g1enc(Int): Str needs bnenc_ax
declare h2enc(Int): Str needs bnenc_ax
declare g1ok(Str): Bool needs bnenc_ax
declare h2ok(Str): Bool needs bnenc_ax
declare g1dec(Str): Int needs bnenc_ax
declare h2dec(Str): Int needs bnenc_ax
smt bnenc_ax
  (assert (forall ((x Int)) (! (and (= (strlen (g1enc x)) 64) (=> (and (<= 0 x) (< x 21888242871839275222246405745257275088548364400416034343698204186575808495617)) (and (g1ok (g1enc x)) (= (g1dec (g1enc x)) x)))) :pattern ((g1enc x)))))
  (assert (forall ((x Int)) (! (and (= (strlen (h2enc x)) 128) (=> (and (<= 0 x) (< x 21888242871839275222246405745257275088548364400416034343698204186575808495617)) (and (h2ok (h2enc x)) (= (h2dec (h2enc x)) x)))) :pattern ((h2enc x)))))
  (assert (forall ((s Str)) (! (=> (g1ok s) (and (<= 0 (g1dec s)) (< (g1dec s) 21888242871839275222246405745257275088548364400416034343698204186575808495617))) :pattern ((g1ok s)))))
  (assert (forall ((s Str)) (! (=> (h2ok s) (and (<= 0 (h2dec s)) (< (h2dec s) 21888242871839275222246405745257275088548364400416034343698204186575808495617))) :pattern ((h2ok s)))))
extern (*bn256.G1).Marshal(p) returns (b)
  requires p != nil && inB(*p)
  modifies
  ensures b != nil && fresh(b) && ref(b) < allocated && content(b) == g1enc(*p)
extern (*bn256.G2).Marshal(p) returns (b)
  requires p != nil && inB(*p)
  modifies
  ensures b != nil && fresh(b) && ref(b) < allocated && content(b) == h2enc(*p)
extern (*bn256.G1).Unmarshal(p, m) returns (rest, err)
  requires p != nil
  modifies *p
  ensures (err == nil) <==> len(m) >= 64 && g1ok(strsub(content(m), 0, 64))
  ensures err == nil ==> *p == g1dec(strsub(content(m), 0, 64))
extern (*bn256.G2).Unmarshal(p, m) returns (rest, err)
  requires p != nil
  modifies *p
  ensures (err == nil) <==> len(m) >= 128 && h2ok(strsub(content(m), 0, 128))
  ensures err == nil ==> *p == h2dec(strsub(content(m), 0, 128))
extern (*big.Int).SetUint64(z, x) returns (r)
  requires z != nil
  modifies *z
  ensures r == z && *z == x

fn (*bls.SecretKey).Marshal(s) returns (b) props S11 use nopanic
  requires s != nil && inB(*s)
  modifies
  ensures [32 bytes that stand for the key] fresh(b) && ref(b) < allocated && len(b) == 32 && os2i(content(b)) == *s
fn (*bls.SecretKey).Unmarshal(s, b) returns (err) props S11 use nopanic
  requires s != nil && bnSet() && ref(s) != ref(bn256.Order)
  modifies *s
  ensures [accepted iff 32 bytes below the order] (err == nil) <==> len(b) == 32 && os2i(content(b)) < bOrder
  ensures [their number] err == nil ==> *s == os2i(content(b))
fn (*bls.PublicKey).Marshal(p) returns (b) props S11 use nopanic
  requires p != nil && inB(*p)
  modifies
  ensures [64 bytes that stand for the key] fresh(b) && ref(b) < allocated && len(b) == 64 && content(b) == g1enc(*p)
fn (*bls.PublicKey).Unmarshal(p, b) returns (err) props S11 use nopanic
  requires p != nil
  modifies *p
  ensures [accepted iff 64 bytes that stand for a point] (err == nil) <==> len(b) == 64 && g1ok(content(b))
  ensures [this point] err == nil ==> *p == g1dec(content(b)) && inB(*p)
fn (*bls.Signature).Marshal(p) returns (b) props S11 use nopanic
  requires p != nil && inB(*p)
  modifies
  ensures [128 bytes that stand for the signature] fresh(b) && ref(b) < allocated && len(b) == 128 && content(b) == h2enc(*p)
fn (*bls.Signature).Unmarshal(p, b) returns (err) props S11 use nopanic
  requires p != nil
  modifies *p
  ensures [accepted iff 128 bytes that stand for a point] (err == nil) <==> len(b) == 128 && h2ok(content(b))
  ensures [this point] err == nil ==> *p == h2dec(content(b)) && inB(*p)
fn (*bls.SecretKey).Equal(a, b) returns (r) props S11 use nopanic
  requires a != nil && b != nil
  modifies
  ensures [the same number] r <==> *a == *b
fn (*bls.PublicKey).Equal(a, b) returns (r) props S11 use nopanic
  requires a != nil && b != nil && inB(*a) && inB(*b)
  modifies
  ensures [the same point] r <==> *a == *b
fn (*bls.Signature).Equal(a, b) returns (r) props S11 use nopanic
  requires a != nil && b != nil && inB(*a) && inB(*b)
  modifies
  ensures [the same point] r <==> *a == *b
lemma roundTripKeys(x: int) props S11
  requires inB(x)
  ensures [decoding an encoded key or signature gives it back] g1ok(g1enc(x)) && g1dec(g1enc(x)) == x && h2ok(h2enc(x)) && h2dec(h2enc(x)) == x
