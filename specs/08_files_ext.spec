// Assumed contracts of files and gob encoding: what a file holds and whether it is complete and flushed.
// live file 0: pending actions, 1: keeper state, 2: chain application
package os "os"
package gob "encoding/gob"
package filepath "path/filepath"
package fx "github.com/shutter-network/shutter/shuttermint/keyper/fx"
package keyper "github.com/shutter-network/shutter/shuttermint/keyper"
// set when any file operation of the call fails
ghost diskFails: Bool
ghost livePath: Str
ghost lastFile: Int
ghost fileName: Str
ghost fileStage: Int
ghost fileVal: Iface
ghost fileIDs: (Array Int Bool)
ghost fileActions: (Array Int Iface)
ghost fileHashes: (Array Int @common.Hash)
ghost fileNext: Int
ghost fileState: Int
ghost filePlan: Slice
ghost fileCounter: Int
ghost liveVal: Iface
ghost liveIDs: (Array Int Bool)
ghost liveActions: (Array Int Iface)
ghost liveHashes: (Array Int @common.Hash)
ghost liveNext: Int
ghost liveState: Int
ghost livePlan: Slice
ghost liveCounter: Int
ghost encOut: Int

define isLive(n) = n == livePath[0] || n == livePath[1] || n == livePath[2]

// no live file is another one's temporary file
define pathsApart() = forall i: int, j: int :: 0 <= i && i <= 2 && 0 <= j && j <= 2 && i != j ==> livePath[i] != strcat(livePath[j], ".tmp") && livePath[i] != livePath[j]

extern os.Create(name) returns (f, err)
  requires [the live file is never opened for writing] !isLive(name)
  modifies lastFile[0]
  ensures err != nil ==> diskFails[0]
  ensures err == nil ==> f != nil && fresh(f) && ref(f) < allocated && fileName[ref(f)] == name && fileStage[ref(f)] == 0 && lastFile[0] == ref(f)
extern gob.NewEncoder(w) returns (e)
  ensures e != nil && fresh(e) && ref(e) < allocated && (istype(w, *os.File) ==> encOut[ref(e)] == ref(as(w, *os.File)))
extern (*gob.Encoder).Encode(e, v) returns (err)
  requires e != nil
  modifies fileStage[encOut[ref(e)]], fileVal[encOut[ref(e)]], fileIDs[encOut[ref(e)]], fileActions[encOut[ref(e)]], fileHashes[encOut[ref(e)]], fileNext[encOut[ref(e)]], fileState[encOut[ref(e)]], filePlan[encOut[ref(e)]], fileCounter[encOut[ref(e)]]
  ensures err != nil ==> diskFails[0]
  ensures err == nil && old(fileStage[encOut[ref(e)]]) == 0 ==> fileStage[encOut[ref(e)]] == 1 && fileVal[encOut[ref(e)]] == v
  ensures err != nil || old(fileStage[encOut[ref(e)]]) != 0 ==> fileStage[encOut[ref(e)]] == 0
  ensures istype(v, *fx.PendingActions) ==> fileIDs[encOut[ref(e)]] == dom(as(v, *fx.PendingActions).ActionMap) && fileActions[encOut[ref(e)]] == vals(as(v, *fx.PendingActions).ActionMap) && fileHashes[encOut[ref(e)]] == vals(as(v, *fx.PendingActions).MainChainTXHashes) && fileNext[encOut[ref(e)]] == as(v, *fx.PendingActions).CurrentID
  ensures istype(v, keyper.storedState) ==> fileState[encOut[ref(e)]] == ref(as(v, keyper.storedState).State) && filePlan[encOut[ref(e)]] == as(v, keyper.storedState).State.Actions && fileCounter[encOut[ref(e)]] == as(v, keyper.storedState).State.ActionCounter
extern (*os.File).Sync(f) returns (err)
  requires f != nil
  modifies fileStage[ref(f)]
  ensures err != nil ==> diskFails[0]
  ensures fileStage[ref(f)] == ite(err == nil && old(fileStage[ref(f)]) == 1, 2, old(fileStage[ref(f)]))
extern (*os.File).Close(f) returns (err)
  requires f != nil
define takes(i, n, ok) = (ok && n == livePath[i] ==> liveVal[i] == fileVal[lastFile[0]] && liveIDs[i] == fileIDs[lastFile[0]] && liveActions[i] == fileActions[lastFile[0]] && liveHashes[i] == fileHashes[lastFile[0]] && liveNext[i] == fileNext[lastFile[0]] && liveState[i] == fileState[lastFile[0]] && livePlan[i] == filePlan[lastFile[0]] && liveCounter[i] == fileCounter[lastFile[0]])
define liveIdx(n) = ite(n == livePath[0], 0, ite(n == livePath[1], 1, ite(n == livePath[2], 2, 3)))
extern os.Rename(a, b) returns (err)
  requires [the live file is replaced only by a complete and flushed one] isLive(b) ==> a == fileName[lastFile[0]] && fileStage[lastFile[0]] == 2
  modifies liveVal[liveIdx(b)], liveIDs[liveIdx(b)], liveActions[liveIdx(b)], liveHashes[liveIdx(b)], liveNext[liveIdx(b)], liveState[liveIdx(b)], livePlan[liveIdx(b)], liveCounter[liveIdx(b)]
  ensures err != nil ==> diskFails[0]
  ensures takes(0, b, err == nil) && takes(1, b, err == nil) && takes(2, b, err == nil)
declare join2(Str, Str): Str
extern filepath.Join(parts) returns (r)
  equals join2(parts[0], parts[1])
