// Assumed contracts of hashing, signatures and encodings (dependencies).
package ecdsa "crypto/ecdsa"
package ethcrypto "github.com/ethereum/go-ethereum/crypto"
package hash "hash"
package base64 "encoding/base64"
package proto "google.golang.org/protobuf/proto"
package sha3 "golang.org/x/crypto/sha3"

opaque ecdsa.PublicKey U_PubKey zeroPubKey
declare zeroPubKey(): U_PubKey
declare ifref(Iface): Int
ghost hashData: Str
// hash functions by number: 0 SHA3-256, 1 legacy Keccak-256
declare hashOf(Int, Str): Str needs hashlen
smt hashlen (assert (forall ((k Int) (s Str)) (! (= (strlen (hashOf k s)) 32) :pattern ((hashOf k s)))))
ghost hashKind: Int

extern sha3.New256() returns (h)
  ensures h != nil && ifref(h) >= old(allocated) && ifref(h) < allocated && hashData[ifref(h)] == emptystr && hashKind[ifref(h)] == 0
extern sha3.NewLegacyKeccak256() returns (h)
  ensures h != nil && ifref(h) >= old(allocated) && ifref(h) < allocated && hashData[ifref(h)] == emptystr && hashKind[ifref(h)] == 1
extern (hash.Hash).Reset(h)
  requires h != nil
  modifies hashData[ifref(h)]
  ensures hashData[ifref(h)] == emptystr
extern (hash.Hash).Size(h) returns (n)
  ensures n == 32

extern (hash.Hash).Write(h, p) returns (n, err)
  requires h != nil
  modifies hashData[ifref(h)]
  ensures err == nil && n == len(p) && hashData[ifref(h)] == strcat(old(hashData[ifref(h)]), content(p))
extern (hash.Hash).Sum(h, b) returns (r)
  requires h != nil && cap(b) == 0
  ensures fresh(r) && r != nil && ref(r) < allocated && content(r) == hashOf(hashKind[ifref(h)], hashData[ifref(h)])

declare sigOK(Str, Str): Bool
declare sigRecover(Str, Str): U_PubKey
declare pkAddr(U_PubKey): @common.Address
extern ethcrypto.SigToPub(h, sig) returns (pk, err)
  ensures (err == nil) <==> sigOK(content(h), content(sig))
  ensures err == nil ==> len(sig) == 65
  ensures err == nil ==> pk != nil && fresh(pk) && *pk == sigRecover(content(h), content(sig))
extern ethcrypto.PubkeyToAddress(pk) returns (a)
  ensures a == pkAddr(pk)
extern ethcrypto.Sign(h, key) returns (sig, err)
  requires key != nil
  ensures fresh(sig) && (err == nil ==> len(sig) == 65 && sigOK(content(h), content(sig)) && sigRecover(content(h), content(sig)) == key.PublicKey)

declare b64ok(Str): Bool
declare b64dec(Str): Str
extern (*base64.Encoding).DecodeString(enc, s) returns (b, err)
  ensures (err == nil) <==> b64ok(s)
  ensures fresh(b) && (err == nil ==> content(b) == b64dec(s))

package binary "encoding/binary"
// eight bytes, most significant first
declare be64(Int): Str needs be64_ax
declare be64dec(Str): Int
smt be64_ax (assert (forall ((x Int)) (! (and (= (strlen (be64 x)) 8) (=> (and (<= 0 x) (< x 18446744073709551616)) (= (be64dec (be64 x)) x))) :pattern ((be64 x)))))
extern (binary.bigEndian).PutUint64(o, b, x)
  requires len(b) == 8
  modifies elems(b)
  ensures content(b) == be64(x)
package bytes "bytes"
extern bytes.Equal(a, b) returns (r)
  modifies
  ensures r <==> content(a) == content(b)
