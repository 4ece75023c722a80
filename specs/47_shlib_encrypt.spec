// Encryption, decryption and verification of shares and keys (S01, S02, S09).
package io "io"

// values of the target group by their logarithm; the pairing is bilinear
declare ml(Int, Int): Int needs pair_ax
declare fexp(Int): Int needs pair_ax
smt pair_ax
  (assert (forall ((a Int) (b Int)) (! (= (fexp (ml a b)) (fmul a b)) :pattern ((ml a b)))))
extern blst.Fp12MillerLoop(q, p) returns (r)
  requires q != nil && p != nil && inGroup(*q) && inGroup(*p)
  ensures r != nil && fresh(r) && ref(r) < allocated && *r == ml(*q, *p)
extern (*blst.Fp12).FinalExp(p)
  requires p != nil
  modifies *p
  ensures *p == fexp(old(*p))
extern (*blst.Fp12).MulAssign(p, o)
  requires p != nil && o != nil && inGroup(*p) && inGroup(*o)
  modifies *p
  ensures *p == fadd(old(*p), old(*o))
extern blst.Fp12One() returns (r)
  modifies
  ensures r == 0
extern (*blst.Fp12).Equals(p, o) returns (r)
  requires p != nil && o != nil
  modifies
  ensures r <==> *p == *o
declare gtb(Int): Str
extern (*blst.Fp12).ToBendian(p) returns (b)
  requires p != nil
  modifies
  ensures fresh(b) && ref(b) < allocated && content(b) == gtb(*p)
declare h2g(Str, Str): Int needs h2g_ax
smt h2g_ax (assert (forall ((a Str) (b Str)) (! (and (<= 0 (h2g a b)) (< (h2g a b) 52435875175126190479447740508185965837690552500527637822603658699938581184513)) :pattern ((h2g a b)))))
extern blst.HashToG1(msg, dst, opt) returns (r)
  requires len(opt) == 0
  ensures r != nil && fresh(r) && ref(r) < allocated && *r == h2g(content(msg), content(dst))

// square and multiply: r + b*e
declare fmadd(Int, Int, Int): Int needs field_ax,halve_ax
smt halve_ax
  (assert (forall ((r Int) (b Int) (e Int)) (! (= (fmadd r b e) (fadd r (fmul b e))) :pattern ((fmadd r b e)))))
  (assert (forall ((r Int) (b Int)) (! (= (fmadd r b 0) (R r)) :pattern ((fmadd r b 0)))))
  (assert (forall ((b Int) (e Int)) (! (= (fmadd 0 b e) (fmul b e)) :pattern ((fmadd 0 b e)))))
  (assert (forall ((r Int) (b Int) (e Int)) (! (=> (<= 0 e) (= (fmadd r b e) (ite (= (mod e 2) 1) (fmadd (fadd r b) (fadd b b) (div e 2)) (fmadd r (fadd b b) (div e 2))))) :pattern ((fmadd r b e) (fadd b b)))))
extern (*big.Int).Bit(z, i) returns (b)
  requires z != nil && i == 0 && *z >= 0
  modifies
  ensures b == *z % 2
extern (*big.Int).Div(z, x, y) returns (r)
  requires z != nil && x != nil && y != nil && *y == 2 && *x >= 0
  modifies *z
  ensures r == z && *z == old(*x) / 2
fn shc.fp12Exp(base, exp) returns (r) props S01,S02 use nopanic
  requires base != nil && exp != nil && inGroup(*base) && *exp >= 0 && orderSet()
  modifies
  loopinv ($res: *blst.Fp12, $b: *blst.Fp12, $e: *big.Int) fresh($res) && fresh($b) && fresh($e) && ref($res) != ref($b) && inGroup(*$res) && inGroup(*$b) && *$e >= 0
  loopinv ($res: *blst.Fp12, $b: *blst.Fp12, $e: *big.Int) fmadd(*$res, *$b, *$e) == fmul(*base, *exp)
  ensures [the power] r != nil && fresh(r) && ref(r) < allocated && *r == fmul(*base, *exp)

// prefixed hashes, and the block with given bytes
define hpre(k, s) = hashOf(1, strcat(chr(k), s))
declare blk(Str): @shc.Block needs blk_ax
smt blk_ax
  (assert (forall ((s Str) (j Int)) (! (=> (and (<= 0 j) (< j 32)) (= (|at A32 Int| (blk s) j) (strat s j))) :pattern ((|at A32 Int| (blk s) j)))))
  (assert (forall ((a (Array Int Int)) (s Str)) (! (or (= (|mk A32 Int| a) (blk s)) (and (<= 0 (|diff A32 Int| (|mk A32 Int| a) (blk s))) (< (|diff A32 Int| (|mk A32 Int| a) (blk s)) 32) (not (= (|at A32 Int| (|mk A32 Int| a) (|diff A32 Int| (|mk A32 Int| a) (blk s))) (|at A32 Int| (blk s) (|diff A32 Int| (|mk A32 Int| a) (blk s))))))) :pattern ((|mk A32 Int| a) (blk s)))))
fn shc.hashWithPrefix(p, b) returns (r) props S01,S02 use nopanic
  ensures [the hash of prefix and data] fresh(r) && ref(r) < allocated && content(r) == hpre(p, content(b))
fn shc.Hash1(b) returns (r) props S09 use nopanic
  ensures [a point of the group that depends on the bytes alone] r != nil && fresh(r) && ref(r) < allocated && *r == h2g(strcat(chr(1), content(b)), "SHUTTER_V01_BLS12381G1_XMD:SHA-256_SSWU_RO_") && inGroup(*r)
fn shc.Hash2(gt) returns (r) props S01,S02 use nopanic
  requires gt != nil
  ensures [the hash of the element] r == blk(hpre(2, gtb(*gt)))
fn shc.Hash3(b) returns (r) props S01,S02 use nopanic
  requires orderSet()
  ensures [the hash as a field element] r != nil && fresh(r) && ref(r) < allocated && *r == R(os2i(hpre(3, content(b))))
fn shc.Hash4(b) returns (r) props S01,S02 use nopanic
  ensures [the hash] r == blk(hpre(4, content(b)))
fn shc.ComputeEpochID(b) returns (r) props S09 use nopanic
  ensures [a point of the group that depends on the bytes alone] r != nil && fresh(r) && ref(r) < allocated && *r == h2g(strcat(chr(1), content(b)), "SHUTTER_V01_BLS12381G1_XMD:SHA-256_SSWU_RO_") && inGroup(*r)

declare xb(@shc.Block, @shc.Block): @shc.Block needs xb_ax
smt xb_ax
  (assert (forall ((a @shc.Block) (b @shc.Block) (j Int)) (! (= (|at A32 Int| (xb a b) j) (bxor (|at A32 Int| a j) (|at A32 Int| b j))) :pattern ((|at A32 Int| (xb a b) j)))))
  (assert (forall ((a (Array Int Int)) (x @shc.Block) (y @shc.Block)) (! (or (= (|mk A32 Int| a) (xb x y)) (and (<= 0 (|diff A32 Int| (|mk A32 Int| a) (xb x y))) (< (|diff A32 Int| (|mk A32 Int| a) (xb x y)) 32) (not (= (|at A32 Int| (|mk A32 Int| a) (|diff A32 Int| (|mk A32 Int| a) (xb x y))) (|at A32 Int| (xb x y) (|diff A32 Int| (|mk A32 Int| a) (xb x y))))))) :pattern ((|mk A32 Int| a) (xb x y)))))
fn shc.XORBlocks(a, b) returns (r) props S01,S02 use nopanic
  modifies
  loopinv ($r: *shc.Block, $i: int) forall j: int {(*$r)[j]} :: 0 <= j && j < $i ==> (*$r)[j] == xor(a[j], b[j])
  ensures [byte by byte] r == xb(a, b)

// block keys, padding and plain text
define rOf(s, m) = R(os2i(hpre(3, strcat(content(s), m))))
define kdf(g) = blk(hpre(2, gtb(g)))
declare u64b(Int): Str needs be64_ax,u64b_ax
declare nzpos(Int): Int needs be64_ax,u64b_ax
smt u64b_ax
  (assert (= (u64b 0) (chr 0)))
  (assert (forall ((a (Array Int Int)) (o Int)) (! (or (= (str_of a o 1) (chr 0)) (not (= (select a o) 0))) :pattern ((str_of a o 1)))))
  (assert (forall ((x Int) (a (Array Int Int)) (o Int) (m Int)) (! (=> (and (<= 1 m) (<= m 8) (not (= (select a o) 0)) (forall ((j Int)) (=> (and (<= 0 j) (< j (- 8 m))) (= (strat (be64 x) j) 0))) (forall ((j Int)) (=> (and (<= 0 j) (< j m)) (= (select a (+ o j)) (strat (be64 x) (+ (- 8 m) j)))))) (= (u64b x) (str_of a o m))) :pattern ((u64b x) (str_of a o m)))))
  (assert (forall ((x Int)) (! (=> (and (< 0 x) (< x 18446744073709551616)) (and (<= 0 (nzpos x)) (< (nzpos x) 8) (not (= (strat (be64 x) (nzpos x)) 0)))) :pattern ((be64 x)))))
declare bkey(@shc.Block, Int): @shc.Block needs blk_ax,bkey_ax
smt bkey_ax (assert (forall ((s @shc.Block) (i Int)) (! (= (bkey s i) (blk (hashOf 1 (strcat (chr 4) (strcat (str_of (|toarr A32 Int| s) 0 32) (u64b i)))))) :pattern ((bkey s i)))))
declare padBlk(Str, Int): @shc.Block needs pad_ax
smt pad_ax
  (assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= 0 j) (< j 32)) (= (|at A32 Int| (padBlk s i) j) (ite (< (+ (* 32 i) j) (strlen s)) (strat s (+ (* 32 i) j)) (- 32 (mod (strlen s) 32))))) :pattern ((|at A32 Int| (padBlk s i) j)))))
  (assert (forall ((a (Array Int Int)) (s Str) (i Int)) (! (or (= (|mk A32 Int| a) (padBlk s i)) (and (<= 0 (|diff A32 Int| (|mk A32 Int| a) (padBlk s i))) (< (|diff A32 Int| (|mk A32 Int| a) (padBlk s i)) 32) (not (= (|at A32 Int| (|mk A32 Int| a) (|diff A32 Int| (|mk A32 Int| a) (padBlk s i))) (|at A32 Int| (padBlk s i) (|diff A32 Int| (|mk A32 Int| a) (padBlk s i))))))) :pattern ((|mk A32 Int| a) (padBlk s i)))))
// the padding length and the message in a list of encrypted blocks
declare padLen((Array Int @shc.Block), Int, Int, @shc.Block): Int needs xb_ax,plain_ax
declare plainOf((Array Int @shc.Block), Int, Int, @shc.Block): Str needs xb_ax,plain_ax
smt plain_ax
  (assert (forall ((a (Array Int @shc.Block)) (o Int) (n Int) (s @shc.Block)) (! (= (padLen a o n s) (|at A32 Int| (xb (select a (ix o (- n 1))) (bkey s (- n 1))) 31)) :pattern ((padLen a o n s)))))
  (assert (forall ((a (Array Int @shc.Block)) (o Int) (n Int) (s @shc.Block)) (! (=> (<= n 0) (= (strlen (plainOf a o n s)) 0)) :pattern ((plainOf a o n s)))))
  (assert (forall ((a (Array Int @shc.Block)) (o Int) (n Int) (s @shc.Block)) (! (=> (and (< 0 n) (<= 1 (padLen a o n s)) (<= (padLen a o n s) 32)) (= (strlen (plainOf a o n s)) (- (* 32 n) (padLen a o n s)))) :pattern ((plainOf a o n s)))))
  (assert (forall ((a (Array Int @shc.Block)) (o Int) (n Int) (s @shc.Block) (k Int)) (! (=> (and (<= 0 k) (< k (strlen (plainOf a o n s)))) (= (strat (plainOf a o n s) k) (|at A32 Int| (xb (select a (ix o (div k 32))) (bkey s (div k 32))) (mod k 32)))) :pattern ((strat (plainOf a o n s) k)))))
  (assert (forall ((a (Array Int @shc.Block)) (o Int) (n Int) (s @shc.Block) (b (Array Int Int)) (p Int) (m Int)) (! (or (= (str_of b p m) (plainOf a o n s)) (not (= m (strlen (plainOf a o n s)))) (and (<= 0 (strdiff (str_of b p m) (plainOf a o n s))) (< (strdiff (str_of b p m) (plainOf a o n s)) m) (not (= (strat (str_of b p m) (strdiff (str_of b p m) (plainOf a o n s))) (strat (plainOf a o n s) (strdiff (str_of b p m) (plainOf a o n s))))))) :pattern ((str_of b p m) (plainOf a o n s)))))

fn shc.computeR(s, m) returns (r) props S01,S02 use nopanic
  requires orderSet()
  modifies
  ensures [the hash of seed and message as a field element] r != nil && fresh(r) && ref(r) < allocated && *r == old(rOf(s, content(m)))
fn shc.computeC1(r) returns (c) props S01,S02 use nopanic
  requires r != nil && inGroup(*r)
  modifies
  ensures [the generator to this power] c != nil && fresh(c) && ref(c) < allocated && *c == *r
fn shc.computeC2(s, r, id, pk) returns (c) props S01,S02 use nopanic
  requires r != nil && inGroup(*r) && id != nil && inGroup(*id) && pk != nil && inGroup(*pk) && orderSet()
  modifies
  ensures [the seed hidden by the pairing to this power] c == xb(s, kdf(fmul(fmul(*pk, *id), *r)))
fn shc.Uint64toBytes(i) returns (b, n) props S01,S02 use nopanic
  modifies
  loopinv ($b: []byte, $n: int) forall j: int {strat(content($b), j)} :: 0 <= j && j < $n ==> strat(content($b), j) == 0
  ensures [the bytes without leading zeros] b != nil && fresh(b) && ref(b) < allocated && content(b) == u64b(i) && n == len(b)
fn shc.computeBlockKey(s, i) returns (r) props S01,S02 use nopanic
  modifies
  ensures [from seed and position] r == bkey(s, i)
fn shc.computeC3(blocks, s) returns (r) props S01,S02 use nopanic
  modifies
  loopinv ($r: []shc.Block, $i: int) $r != nil && fresh($r) && ref($r) < allocated && len($r) == $i && forall j: int {$r[j]} :: 0 <= j && j < $i ==> $r[j] == xb(bkey(s, j), old(blocks[j]))
  ensures [block by block] fresh(r) && ref(r) < allocated && len(r) == len(blocks) && forall j: int {r[j]} :: 0 <= j && j < len(r) ==> r[j] == xb(bkey(s, j), blocks[j])
fn shc.DecryptBlocks(blocks, s) returns (r) props S01,S02 use nopanic
  modifies
  loopinv ($r: []shc.Block, $i: int) $r != nil && fresh($r) && ref($r) < allocated && len($r) == $i && forall j: int {$r[j]} :: 0 <= j && j < $i ==> $r[j] == xb(old(blocks[j]), bkey(s, j))
  ensures [block by block] fresh(r) && ref(r) < allocated && len(r) == len(blocks) && forall j: int {r[j]} :: 0 <= j && j < len(r) ==> r[j] == xb(blocks[j], bkey(s, j))

extern bytes.Repeat(b, n) returns (r)
  requires len(b) == 1 && n >= 0
  modifies
  ensures r != nil && fresh(r) && ref(r) < allocated && len(r) == n && forall j: int {r[j]} :: 0 <= j && j < n ==> r[j] == b[0]
fn shc.PadMessage(m) returns (r) props S01,S02 use nopanic
  modifies
  loopinv ($r: []shc.Block, $i: int) $r != nil && fresh($r) && ref($r) < allocated && len($r) == $i && forall j: int {$r[j]} :: 0 <= j && j < $i ==> $r[j] == padBlk(old(content(m)), j)
  ensures [the message, then its padding] fresh(r) && ref(r) < allocated && len(r) == len(m) / 32 + 1 && forall j: int {r[j]} :: 0 <= j && j < len(r) ==> r[j] == padBlk(content(m), j)
fn shc.UnpadMessage(blocks) returns (r, err) props S01,S02 use nopanic
  modifies
  loopinv ($m: []byte, $i: int) forall k: int {$m[k]} :: 0 <= k && k < 32 * $i ==> $m[k] == blocks[k / 32][k % 32]
  ensures [no blocks, no message] len(blocks) == 0 ==> err == nil && len(r) == 0
  ensures [refused iff the padding length is invalid] len(blocks) > 0 ==> ((err == nil) <==> 1 <= blocks[len(blocks)-1][31] && blocks[len(blocks)-1][31] <= 32)
  ensures [the bytes before the padding] len(blocks) > 0 && err == nil ==> len(r) == 32 * len(blocks) - blocks[len(blocks)-1][31] && forall k: int {strat(content(r), k)} :: 0 <= k && k < len(r) ==> strat(content(r), k) == blocks[k / 32][k % 32]
  ensures err == nil ==> fresh(r) && ref(r) < allocated

fn shc.Encrypt(message, pk, id, s) returns (m) props S01,S02,S09 use nopanic
  requires id != nil && inGroup(*id) && pk != nil && inGroup(*pk) && orderSet()
  modifies
  ensures [the generator to the hash of seed and message] m != nil && fresh(m) && ref(m) < allocated && m.C1 != nil && fresh(m.C1) && ref(m.C1) < allocated && *m.C1 == rOf(s, content(message)) && inGroup(*m.C1)
  ensures [the seed hidden for holders of the epoch key] m.C2 == xb(s, kdf(fmul(fmul(*pk, *id), rOf(s, content(message)))))
  ensures [the padded message under the block keys] fresh(m.C3) && ref(m.C3) < allocated && len(m.C3) == len(message) / 32 + 1 && forall j: int {m.C3[j]} :: 0 <= j && j < len(m.C3) ==> m.C3[j] == xb(bkey(s, j), padBlk(content(message), j))

define seedOf(m, k) = xb(m.C2, kdf(fmul(*m.C1, *k)))
define padOK(m, k) = len(m.C3) == 0 || (1 <= padLen(elems(m.C3), off(m.C3), len(m.C3), seedOf(m, k)) && padLen(elems(m.C3), off(m.C3), len(m.C3), seedOf(m, k)) <= 32)
define plain(m, k) = plainOf(elems(m.C3), off(m.C3), len(m.C3), seedOf(m, k))
fn (*shc.EncryptedMessage).Sigma(m, k) returns (s) props S01,S02 use nopanic
  requires m != nil && m.C1 != nil && k != nil && inGroup(*m.C1) && inGroup(*k) && orderSet()
  modifies
  ensures [the seed] s == seedOf(m, k)
fn (*shc.EncryptedMessage).Decrypt(m, k) returns (r, err) props S01,S02,S09 use nopanic
  requires m != nil && m.C1 != nil && k != nil && inGroup(*m.C1) && inGroup(*k) && orderSet()
  modifies
  ensures [decrypted iff padded validly and committed to by the first component] (err == nil) <==> padOK(m, k) && *m.C1 == rOf(seedOf(m, k), plain(m, k))
  ensures [the message in it] err == nil ==> content(r) == plain(m, k)

// a third factor: multiplication is associative
declare mul3(Int, Int, Int): Int needs field_ax,mul3_ax
smt mul3_ax
  (assert (forall ((a Int) (b Int) (c Int)) (! (and (= (mul3 a b c) (fmul (fmul a b) c)) (= (mul3 a b c) (fmul c (fmul b a)))) :pattern ((mul3 a b c)))))
  (assert (forall ((a Int) (b Int) (c Int)) (! (= (fmul (fmul a b) c) (mul3 a b c)) :pattern ((fmul (fmul a b) c)))))

// what Encrypt gives
define encOf(m, s, msg, pk, id) = m.C1 != nil && inGroup(*m.C1) && *m.C1 == rOf(s, msg) && m.C2 == xb(s, kdf(fmul(fmul(pk, id), rOf(s, msg)))) && len(m.C3) == strlen(msg) / 32 + 1 && forall j: int {m.C3[j]} :: 0 <= j && j < len(m.C3) ==> m.C3[j] == xb(bkey(s, j), padBlk(msg, j))
lemma seedRecovered(m: *shc.EncryptedMessage, s: shc.Block, b: []byte, pk: int, id: int, k: *shc.EpochSecretKey) props S01
  requires m != nil && k != nil && inGroup(pk) && inGroup(id) && encOf(m, s, content(b), pk, id) && *k == fmul(id, pk)
  ensures [the right epoch key gives back the seed] seedOf(m, k) == s
lemma decryptEncrypt(m: *shc.EncryptedMessage, s: shc.Block, b: []byte, pk: int, id: int, k: *shc.EpochSecretKey) props S01
  requires m != nil && k != nil && encOf(m, s, content(b), pk, id) && seedOf(m, k) == s
  ensures [valid padding] padOK(m, k)
  ensures [the message itself] plain(m, k) == content(b)
  ensures [decryption accepts] padOK(m, k) && *m.C1 == rOf(seedOf(m, k), plain(m, k))

// S09: the pairing equation, and encrypting with a key and decrypting again
fn shc.VerifyEpochSecretKeyShare(s, pk, id) returns (ok) props S09 use nopanic
  requires s != nil && pk != nil && id != nil && inGroup(*s) && inGroup(*pk) && inGroup(*id)
  modifies
  ensures [iff it is the epoch id to the secret of the public share] ok <==> *s == fmul(*pk, *id)

declare encA(Str, @shc.Block): (Array Int @shc.Block) needs xb_ax,pad_ax,bkey_ax,encA_ax
declare pdiff((Array Int @shc.Block), Int, (Array Int @shc.Block), Int, Int): Int needs encA_ax
smt encA_ax
  (assert (forall ((m Str) (s @shc.Block) (j Int)) (! (= (select (encA m s) (ix 0 j)) (xb (bkey s j) (padBlk m j))) :pattern ((select (encA m s) (ix 0 j))))))
  (assert (forall ((a (Array Int @shc.Block)) (o Int) (b (Array Int @shc.Block)) (p Int) (n Int) (s @shc.Block)) (! (or (and (= (plainOf a o n s) (plainOf b p n s)) (=> (< 0 n) (= (padLen a o n s) (padLen b p n s)))) (and (<= 0 (pdiff a o b p n)) (< (pdiff a o b p n) n) (not (= (select a (ix o (pdiff a o b p n))) (select b (ix p (pdiff a o b p n))))))) :pattern ((plainOf a o n s) (plainOf b p n s)))))
define c1Of(s, msg) = rOf(s, msg)
define sgOf(k, s, msg, pk, id) = xb(xb(s, kdf(fmul(fmul(pk, id), rOf(s, msg)))), kdf(fmul(rOf(s, msg), k)))
declare accepts(Int, @shc.Block, Str, Int, Int): Bool
define acceptsDef(k, s, msg, pk, id) = 1 <= padLen(encA(msg, s), 0, strlen(msg) / 32 + 1, sgOf(k, s, msg, pk, id)) && padLen(encA(msg, s), 0, strlen(msg) / 32 + 1, sgOf(k, s, msg, pk, id)) <= 32 && rOf(s, msg) == rOf(sgOf(k, s, msg, pk, id), plainOf(encA(msg, s), 0, strlen(msg) / 32 + 1, sgOf(k, s, msg, pk, id))) && plainOf(encA(msg, s), 0, strlen(msg) / 32 + 1, sgOf(k, s, msg, pk, id)) == msg
define epochPoint(b) = h2g(strcat(chr(1), b), "SHUTTER_V01_BLS12381G1_XMD:SHA-256_SSWU_RO_")
fn shc.VerifyEpochSecretKeyDeterministic(k, pk, b, s, msg) returns (r, err) props S09 use nopanic
  requires k != nil && pk != nil && inGroup(*k) && inGroup(*pk) && orderSet()
  modifies
  ensures [the right key is accepted] err == nil && (*k == fmul(epochPoint(content(b)), *pk) ==> r)
  ensures [iff decryption with it gives back the message] r <==> acceptsDef(*k, s, content(msg), *pk, epochPoint(content(b)))
extern (io.Reader).Read(r, p) returns (n, err)
  requires r != nil
  modifies elems(p)
  ensures 0 <= n && n <= len(p)
extern rand.Read(p) returns (n, err)
  modifies elems(p)
  ensures err == nil ==> n == len(p)
fn shc.RandomSigma(r) returns (b, err) props S09 use nopanic
  requires r != nil
fn shc.VerifyEpochSecretKey(k, pk, b) returns (r, err) props S09 use nopanic
  requires k != nil && pk != nil && inGroup(*k) && inGroup(*pk) && orderSet() && rand.Reader != nil
  ensures [the right key is accepted] err == nil && *k == fmul(epochPoint(content(b)), *pk) ==> r
  ensures [an error is no acceptance] err != nil ==> !r
