// Batch periods and configuration lookup on the keyper's side (K01 K02).
package contract "github.com/shutter-network/shutter/shuttermint/contract"
package observe "github.com/shutter-network/shutter/shuttermint/keyper/observe"

// first block of a period, as a mathematical integer
define startOf(bc, b) = bc.StartBlockNumber + (b - bc.StartBatchIndex) * bc.BatchSpan

fn (*contract.BatchConfig).IsActive(bc) returns (r) props K01 nopanic
  requires bc != nil
  modifies
  ensures [iff the span is positive] r <==> bc.BatchSpan > 0

fn (*contract.BatchConfig).BatchStartBlock(bc, b) returns (r) props K01
  requires bc != nil
  modifies
  panics [before the configuration's start] b < bc.StartBatchIndex
  ensures [start of the period] startOf(bc, b) < 18446744073709551616 ==> r == startOf(bc, b)

fn (*contract.BatchConfig).BatchEndBlock(bc, b) returns (r) props K01
  requires bc != nil
  modifies
  panics [before the configuration's start] b < bc.StartBatchIndex
  ensures [end is the start of the next period] startOf(bc, b + 1) < 18446744073709551616 ==> r == startOf(bc, b + 1)

fn (*contract.BatchConfig).BatchIndex(bc, n) returns (r) props K01 use
  requires bc != nil
  modifies
  panics [before the configuration's start] n < bc.StartBlockNumber
  ensures [without a span every block belongs to the start batch] bc.BatchSpan == 0 ==> r == bc.StartBatchIndex
  ensures [the block lies in the period] bc.BatchSpan > 0 && bc.StartBatchIndex + (n - bc.StartBlockNumber) / bc.BatchSpan < 18446744073709551616 ==> r >= bc.StartBatchIndex && startOf(bc, r) <= n && n < startOf(bc, r + 1)
  ensures [in closed form] bc.BatchSpan > 0 && bc.StartBatchIndex + (n - bc.StartBlockNumber) / bc.BatchSpan < 18446744073709551616 ==> r == bc.StartBatchIndex + (n - bc.StartBlockNumber) / bc.BatchSpan
  ensures [and in no other] bc.BatchSpan > 0 && bc.StartBatchIndex + (n - bc.StartBlockNumber) / bc.BatchSpan < 18446744073709551616 ==> forall b: int :: b >= bc.StartBatchIndex && startOf(bc, b) <= n && n < startOf(bc, b + 1) ==> b == r

fn (*contract.BatchConfig).KeyperIndex(bc, address) returns (i, ok) props K02 use nopanic
  requires bc != nil
  modifies
  loopinv ($n: int) forall j: int :: 0 <= j && j < $n ==> bc.Keypers[j] != address
  ensures [found iff listed] ok <==> listed(bc.Keypers, address)
  ensures [position of the first occurrence] ok ==> 0 <= i && i < len(bc.Keypers) && bc.Keypers[i] == address && (forall j: int :: 0 <= j && j < i ==> bc.Keypers[j] != address)

fn (*contract.BatchConfig).IsKeyper(bc, a) returns (ok) props K02 use nopanic
  requires bc != nil
  modifies
  ensures [iff listed] ok <==> listed(bc.Keypers, a)

// i is the last configuration of the main chain's list that starts at or before the block / batch
define lastByBlock(mc, n, i) = 0 <= i && i < len(mc.BatchConfigs) && mc.BatchConfigs[i].StartBlockNumber <= n && (forall j: int :: i < j && j < len(mc.BatchConfigs) ==> mc.BatchConfigs[j].StartBlockNumber > n)
define lastByBatch(mc, b, i) = 0 <= i && i < len(mc.BatchConfigs) && mc.BatchConfigs[i].StartBatchIndex <= b && (forall j: int :: i < j && j < len(mc.BatchConfigs) ==> mc.BatchConfigs[j].StartBatchIndex > b)
define noneByBlock(mc, n) = forall j: int :: 0 <= j && j < len(mc.BatchConfigs) ==> mc.BatchConfigs[j].StartBlockNumber > n
define noneByBatch(mc, b) = forall j: int :: 0 <= j && j < len(mc.BatchConfigs) ==> mc.BatchConfigs[j].StartBatchIndex > b

fn (*observe.MainChain).ActiveConfigIndex(mc, n) returns (r) props K02 use
  requires mc != nil
  modifies
  loopinv ($i: int) $i < len(mc.BatchConfigs) && forall j: int :: $i < j && j < len(mc.BatchConfigs) ==> mc.BatchConfigs[j].StartBlockNumber > n
  panics [no configuration started] noneByBlock(mc, n)
  ensures [the last one started] lastByBlock(mc, n, r)

fn (*observe.MainChain).ConfigIndexForBatchIndex(mc, b) returns (r, ok) props K02 use
  requires mc != nil
  modifies
  loopinv ($i: int) $i < len(mc.BatchConfigs) && forall j: int :: $i < j && j < len(mc.BatchConfigs) ==> mc.BatchConfigs[j].StartBatchIndex > b
  panics [no configuration started] noneByBatch(mc, b)
  ensures [the last one started, when active] ok ==> lastByBatch(mc, b, r) && mc.BatchConfigs[r].BatchSpan > 0
  ensures [reported absent only when inactive] !ok ==> r == 0 && exists i: int :: lastByBatch(mc, b, i) && mc.BatchConfigs[i].BatchSpan == 0

fn (*observe.MainChain).ActiveConfig(mc, n) returns (c) props K02 use
  requires mc != nil
  modifies
  panics [no configuration started] noneByBlock(mc, n)
  ensures [the last one started] exists i: int :: lastByBlock(mc, n, i) && c == mc.BatchConfigs[i]

fn (*observe.MainChain).CurrentConfig(mc) returns (c) props K02
  requires mc != nil
  modifies
  panics [no configuration started] noneByBlock(mc, mc.CurrentBlock)
  ensures [the last one started] exists i: int :: lastByBlock(mc, mc.CurrentBlock, i) && c == mc.BatchConfigs[i]

fn (*observe.MainChain).ActiveConfigs(mc) returns (r) props K02 use
  requires mc != nil
  modifies
  panics [no configuration started] noneByBlock(mc, mc.CurrentBlock)
  ensures [from the last one started on] exists i: int :: lastByBlock(mc, mc.CurrentBlock, i) && len(r) == len(mc.BatchConfigs) - i && (forall j: int :: 0 <= j && j < len(r) ==> r[j] == mc.BatchConfigs[i + j])

fn (*observe.MainChain).IsActiveKeyper(mc, a) returns (ok) props K02
  requires mc != nil
  modifies
  panics [no configuration started] noneByBlock(mc, mc.CurrentBlock)
  loopinv ($n: int, $l: []contract.BatchConfig) forall j: int :: 0 <= j && j < $n ==> !listed($l[j].Keypers, a)
  ensures [keyper of a current or later configuration] ok <==> exists i: int, j: int :: lastByBlock(mc, mc.CurrentBlock, i) && i <= j && j < len(mc.BatchConfigs) && listed(mc.BatchConfigs[j].Keypers, a)

fn (*observe.MainChain).ConfigForBatchIndex(mc, b) returns (c, ok) props K02
  requires mc != nil
  modifies
  panics [no configuration started] noneByBatch(mc, b)
  ensures [the last one started, when active] ok ==> exists i: int :: lastByBatch(mc, b, i) && c == mc.BatchConfigs[i] && c.BatchSpan > 0
  ensures [reported absent only when inactive] !ok ==> exists i: int :: lastByBatch(mc, b, i) && mc.BatchConfigs[i].BatchSpan == 0

fn (*observe.Shutter).FindBatchConfigByBatchIndex(sh, b) returns (c) props K02 use nopanic
  requires sh != nil
  modifies
  loopinv ($i: int) $i < len(sh.BatchConfigs) && forall j: int :: $i < j && j < len(sh.BatchConfigs) ==> sh.BatchConfigs[j].StartBatchIndex > b
  ensures [the last one started] forall i: int :: 0 <= i && i < len(sh.BatchConfigs) && sh.BatchConfigs[i].StartBatchIndex <= b && (forall j: int :: i < j && j < len(sh.BatchConfigs) ==> sh.BatchConfigs[j].StartBatchIndex > b) ==> c == sh.BatchConfigs[i]
  ensures [empty before the first start] (forall j: int :: 0 <= j && j < len(sh.BatchConfigs) ==> sh.BatchConfigs[j].StartBatchIndex > b) ==> c == zero(ev.BatchConfig)

fn (*observe.Shutter).FindBatchConfigByConfigIndex(sh, k) returns (c, err) props K02 nopanic
  requires sh != nil
  modifies
  loopinv ($n: int) forall j: int :: 0 <= j && j < $n ==> sh.BatchConfigs[j].ConfigIndex != k
  ensures [found iff listed] (err == nil) <==> exists j: int :: 0 <= j && j < len(sh.BatchConfigs) && sh.BatchConfigs[j].ConfigIndex == k
  ensures [the first with the index] err == nil ==> exists j: int :: 0 <= j && j < len(sh.BatchConfigs) && c == sh.BatchConfigs[j] && c.ConfigIndex == k && (forall i: int :: 0 <= i && i < j ==> sh.BatchConfigs[i].ConfigIndex != k)

fn (*observe.Shutter).IsKeyper(sh, a) returns (ok) props K02 nopanic
  requires sh != nil
  modifies
  loopinv ($n: int) forall j: int :: 0 <= j && j < $n ==> !listed(sh.BatchConfigs[j].Keypers, a)
  ensures [keyper of some configuration] ok <==> exists j: int :: 0 <= j && j < len(sh.BatchConfigs) && listed(sh.BatchConfigs[j].Keypers, a)
