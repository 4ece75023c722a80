// Shuffling (S10).
package mrand "math/rand"
package bin "encoding/binary"

// the permutation a generator in this state applies to a list of this length
declare shufPerm(Int, Int, Int): Int needs shuf_ax
declare shufPermInv(Int, Int, Int): Int needs shuf_ax
smt shuf_ax
  (assert (forall ((s Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n)) (and (<= 0 (shufPerm s n k)) (< (shufPerm s n k) n) (= (shufPermInv s n (shufPerm s n k)) k))) :pattern ((shufPerm s n k)))))
  (assert (forall ((s Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n)) (and (<= 0 (shufPermInv s n k)) (< (shufPermInv s n k) n) (= (shufPerm s n (shufPermInv s n k)) k))) :pattern ((shufPermInv s n k)))))
ghost rngState: Int
ghost srcSeed: Int
declare rngStart(Int): Int
declare le64(Str): Int
extern mrand.NewSource(seed) returns (s)
  ensures s != nil && ifref(s) >= old(allocated) && ifref(s) < allocated && srcSeed[ifref(s)] == seed
extern mrand.New(s) returns (r)
  requires s != nil
  ensures r != nil && fresh(r) && ref(r) < allocated && rngState[ref(r)] == rngStart(srcSeed[ifref(s)])
extern (bin.littleEndian).Uint64(e, b) returns (v)
  requires len(b) >= 8
  modifies
  ensures v == le64(strsub(content(b), 0, 8)) && 0 <= v

fn shc.keccak256(ds) returns (r) props S01,S02,S10 use nopanic
  requires len(ds) == 1
  loopinv ($state: hash.Hash, $n: int) hashKind[ifref($state)] == 1 && hashData[ifref($state)] == ite($n == 0, emptystr, content(ds[0]))
  ensures [the hash of the data] fresh(r) && ref(r) < allocated && content(r) == hashOf(1, content(ds[0]))

// seed of a key: the first eight bytes of the hash of its encoding, as a signed number
define wrap64(v) = ite(v < 9223372036854775808, v, v - 18446744073709551616)
define shuffleSeed(k) = wrap64(le64(strsub(hashOf(1, cmp1(k)), 0, 8)))
fn shc.computeSeed(k) returns (s) props S10 use nopanic
  requires k != nil
  modifies
  ensures [from the key alone] s == shuffleSeed(*k)

fn shc.Shuffle(txs, key) returns (r) props S10 use nopanic
  requires key != nil
  modifies
  ensures [a new list of the same length] len(r) == len(txs) && fresh(r)
  ensures [a permutation given by key and length] forall k: int :: 0 <= k && k < len(txs) ==> r[k] == txs[shufPerm(rngStart(shuffleSeed(*key)), len(txs), k)]
  ensures [every transaction is in it] forall j: int :: 0 <= j && j < len(txs) ==> r[shufPermInv(rngStart(shuffleSeed(*key)), len(txs), j)] == txs[j]
