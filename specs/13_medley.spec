// Address list helpers (K18) and their use in message parsing (A06).
package medley "github.com/shutter-network/shutter/shuttermint/medley"

define uniqueAddrs(s) = forall i: int, j: int :: 0 <= i && i < j && j < len(s) ==> s[i] != s[j]

fn medley.FindAddressIndex(addresses, addr) returns (i, err) props K18 use nopanic
  modifies
  loopinv ($n: int) forall j: int :: 0 <= j && j < $n ==> addresses[j] != addr
  ensures [found iff listed] (err == nil) <==> listed(addresses, addr)
  ensures [first position] err == nil ==> 0 <= i && i < len(addresses) && addresses[i] == addr && (forall j: int :: 0 <= j && j < i ==> addresses[j] != addr)

fn medley.EnsureUniqueAddresses(addrs) returns (err) props K18 use nopanic
  modifies
  loopinv ($m: map[common.Address]struct{}, $n: int) forall a: common.Address :: a in $m <==> (exists j: int :: 0 <= j && j < $n && addrs[j] == a)
  loopinv ($n: int) forall i: int, j: int :: 0 <= i && i < j && j < $n ==> addrs[i] != addrs[j]
  ensures [passes iff no address occurs twice] (err == nil) <==> uniqueAddrs(addrs)

fn medley.DedupAddresses(addrs) returns (res) props K18 nopanic
  modifies
  loopinv ($m: map[common.Address]struct{}, $n: int) forall a: common.Address :: a in $m <==> (exists j: int :: 0 <= j && j < $n && addrs[j] == a)
  loopinv ($r: []common.Address, $n: int) len($r) <= $n
  loopinv ($r: []common.Address) $r != nil ==> fresh($r) 
  loopinv ($r: []common.Address, $m: map[common.Address]struct{}) forall a: common.Address :: a in $m <==> listed($r, a)
  loopinv ($r: []common.Address) uniqueAddrs($r)
  loopinv ($r: []common.Address, $n: int) forall i: int, j: int :: 0 <= i && i < j && j < len($r) ==> exists p: int :: 0 <= p && p < $n && addrs[p] == $r[i] && (forall q: int :: 0 <= q && q <= p ==> addrs[q] != $r[j])
  ensures [order of first occurrence] forall i: int, j: int :: 0 <= i && i < j && j < len(res) ==> exists p: int :: 0 <= p && p < len(addrs) && addrs[p] == res[i] && (forall q: int :: 0 <= q && q <= p ==> addrs[q] != res[j])
  ensures [same addresses] forall a: common.Address :: listed(res, a) <==> listed(addrs, a)
  ensures [no duplicates] uniqueAddrs(res)
