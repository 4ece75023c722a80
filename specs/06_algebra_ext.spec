// Assumed contracts of big integers and addresses (dependencies).
package big "math/big"
opaque big.Int Int 0

declare os2i(Str): Int needs os2i_nn
smt os2i_nn (assert (forall ((s Str)) (! (<= 0 (os2i s)) :pattern ((os2i s)))))
extern (*big.Int).SetBytes(z, b) returns (r)
  requires z != nil
  modifies *z
  ensures *z == os2i(content(b)) && r == z
extern common.BytesToAddress(b) returns (a)
  ensures len(b) == 20 ==> content(a) == content(b)
declare i2os(Int): Str needs i2os_inv
smt i2os_inv (assert (forall ((x Int)) (! (=> (>= x 0) (= (os2i (i2os x)) x)) :pattern ((i2os x)))))
extern (*big.Int).Bytes(z) returns (b)
  requires z != nil
  ensures fresh(b) && content(b) == i2os(*z)
