// Check-in and proposals of new configurations (K12).
package ed25519 "crypto/ed25519"
declare compressed(U_PubKey): Str
// the second half of the private key is the public key
extern (ed25519.PrivateKey).Public(k) returns (r)
  requires len(k) == 64
  ensures istype(r, ed25519.PublicKey) && fresh(as(r, ed25519.PublicKey)) && ref(as(r, ed25519.PublicKey)) < allocated && content(as(r, ed25519.PublicKey)) == strsub(content(k), 32, 32)
extern ethcrypto.CompressPubkey(pk) returns (b)
  requires pk != nil
  ensures b != nil && fresh(b) && ref(b) < allocated && content(b) == compressed(*pk)

define hasCheckedIn(sh, a) = a in sh.KeyperEncryptionKeys
define keyperSomewhere(sh, a) = exists j: int {sh.BatchConfigs[j]} :: 0 <= j && j < len(sh.BatchConfigs) && listed(sh.BatchConfigs[j].Keypers, a)
fn (*keyper.Decider).shouldSendCheckIn(d) returns (r) props K12 use nopanic
  requires d != nil && d.State != nil && d.Shutter != nil && d.Config.SigningKey != nil
  modifies
  ensures [a keyper that has not checked in yet, once] r <==> !d.State.CheckInMessageSent && !hasCheckedIn(d.Shutter, pkAddr(d.Config.SigningKey.PublicKey)) && keyperSomewhere(d.Shutter, pkAddr(d.Config.SigningKey.PublicKey))

define oldObj(p) = p != nil && ref(p) < allocated
define sentMsg(d, i) = as(d.Actions[i], *fx.SendShuttermintMessage)
define isSend(d, i) = istype(d.Actions[i], *fx.SendShuttermintMessage) && oldObj(sentMsg(d, i)) && oldObj(sentMsg(d, i).Msg)
define isCheckIn(m) = istype(m.Payload, *shmsg.Message_CheckIn) && oldObj(as(m.Payload, *shmsg.Message_CheckIn)) && oldObj(as(m.Payload, *shmsg.Message_CheckIn).CheckIn)
define checkInOf(m) = as(m.Payload, *shmsg.Message_CheckIn).CheckIn
fn shmsg.NewCheckIn(v, k) returns (m) props K12 use nopanic
  requires k != nil
  modifies
  ensures [own keys] m != nil && fresh(m) && ref(m) < allocated && isCheckIn(m) && fresh(as(m.Payload, *shmsg.Message_CheckIn)) && fresh(checkInOf(m)) && checkInOf(m).ValidatorPublicKey == v && ref(checkInOf(m).EncryptionPublicKey) < allocated && content(checkInOf(m).EncryptionPublicKey) == compressed(exported(*k))

define announces(d, i) = isSend(d, i) && isCheckIn(sentMsg(d, i).Msg) && content(checkInOf(sentMsg(d, i).Msg).ValidatorPublicKey) == strsub(content(d.Config.ValidatorKey), 32, 32) && content(checkInOf(sentMsg(d, i).Msg).EncryptionPublicKey) == compressed(exported(d.Config.EncryptionKey.PublicKey))
define actionsKept(d) = (ref(d.Actions) == old(ref(d.Actions)) || fresh(d.Actions)) && forall i: int {d.Actions[i]} :: 0 <= i && i < old(len(d.Actions)) ==> d.Actions[i] == old(d.Actions[i])
define needsCheckIn(d) = !d.State.CheckInMessageSent && !hasCheckedIn(d.Shutter, pkAddr(d.Config.SigningKey.PublicKey)) && keyperSomewhere(d.Shutter, pkAddr(d.Config.SigningKey.PublicKey))
fn (*keyper.Decider).maybeSendCheckIn(d) props K12
  requires d != nil && d.State != nil && d.Shutter != nil && d.Config.SigningKey != nil && d.Config.EncryptionKey != nil && len(d.Config.ValidatorKey) == 64
  requires ref(d.Config.ValidatorKey) < allocated && ref(d.Config.EncryptionKey) < allocated
  modifies d.Actions, elems(d.Actions), d.State.CheckInMessageSent
  maypanic [not a pointer] true
  ensures [earlier actions stay] actionsKept(d)
  ensures [sent iff needed] len(d.Actions) == old(len(d.Actions)) + ite(old(needsCheckIn(d)), 1, 0)
  ensures [with the own validator and encryption keys] old(needsCheckIn(d)) ==> announces(d, old(len(d.Actions)))
  ensures [remembered] d.State.CheckInMessageSent <==> old(d.State.CheckInMessageSent) || old(needsCheckIn(d))

define isCfgMsg(m) = istype(m.Payload, *shmsg.Message_BatchConfig) && oldObj(as(m.Payload, *shmsg.Message_BatchConfig)) && oldObj(as(m.Payload, *shmsg.Message_BatchConfig).BatchConfig)
define cfgMsg(m) = as(m.Payload, *shmsg.Message_BatchConfig).BatchConfig
define addrTexts(r, ks) = len(r) == len(ks) && forall i: int {r[i]} :: 0 <= i && i < len(ks) ==> content(r[i]) == content(ks[i])
fn shmsg.NewBatchConfig(sb, ks, th, cc, ci, st, vu) returns (m) props K12 use nopanic
  modifies
  loopinv ($r: [][]byte, $n: int) len($r) == $n && ($r != nil ==> fresh($r) && ref($r) < allocated) && ($n > 0 ==> $r != nil) && forall i: int {$r[i]} :: 0 <= i && i < $n ==> content($r[i]) == content(ks[i]) && fresh($r[i]) && ref($r[i]) < allocated
  ensures [a new message] m != nil && fresh(m) && ref(m) < allocated && isCfgMsg(m) && fresh(as(m.Payload, *shmsg.Message_BatchConfig)) && fresh(cfgMsg(m))
  ensures [the configuration as given] cfgMsg(m).StartBatchIndex == sb && cfgMsg(m).Threshold == th && cfgMsg(m).ConfigIndex == ci && content(cfgMsg(m).ConfigContractAddress) == content(cc) && cfgMsg(m).Started == st && cfgMsg(m).ValidatorsUpdated == vu
  ensures [its keypers in order] addrTexts(cfgMsg(m).Keypers, ks)
  ensures [own lists] (cfgMsg(m).Keypers != nil ==> fresh(cfgMsg(m).Keypers)) && ref(cfgMsg(m).Keypers) < allocated && fresh(cfgMsg(m).ConfigContractAddress) && ref(cfgMsg(m).ConfigContractAddress) < allocated && forall i: int {cfgMsg(m).Keypers[i]} :: 0 <= i && i < len(ks) ==> fresh(cfgMsg(m).Keypers[i]) && ref(cfgMsg(m).Keypers[i]) < allocated

define nextCfg(sh) = sh.BatchConfigs[len(sh.BatchConfigs) - 1].ConfigIndex + 1
define needsConfig(d) = len(d.Shutter.BatchConfigs) > 0 && nextCfg(d.Shutter) > d.State.LastSentBatchConfigIndex && nextCfg(d.Shutter) < len(d.MainChain.BatchConfigs)
define proposes(d, i, n) = isSend(d, i) && isCfgMsg(sentMsg(d, i).Msg) && cfgMsg(sentMsg(d, i).Msg).ConfigIndex == n && cfgMsg(sentMsg(d, i).Msg).StartBatchIndex == d.MainChain.BatchConfigs[n].StartBatchIndex && cfgMsg(sentMsg(d, i).Msg).Threshold == d.MainChain.BatchConfigs[n].Threshold && addrTexts(cfgMsg(sentMsg(d, i).Msg).Keypers, d.MainChain.BatchConfigs[n].Keypers) && content(cfgMsg(sentMsg(d, i).Msg).ConfigContractAddress) == content(d.Config.ConfigContractAddress) && !cfgMsg(sentMsg(d, i).Msg).Started && !cfgMsg(sentMsg(d, i).Msg).ValidatorsUpdated
fn (*keyper.Decider).maybeSendBatchConfig(d) props K12
  requires d != nil && d.State != nil && d.Shutter != nil && d.MainChain != nil
  requires forall j: int {d.Shutter.BatchConfigs[j]} :: 0 <= j && j < len(d.Shutter.BatchConfigs) ==> d.Shutter.BatchConfigs[j].ConfigIndex < 9223372036854775808
  requires ref(d.MainChain.BatchConfigs) < allocated && forall j: int {d.MainChain.BatchConfigs[j]} :: 0 <= j && j < len(d.MainChain.BatchConfigs) ==> ref(d.MainChain.BatchConfigs[j].Keypers) < allocated
  modifies d.Actions, elems(d.Actions), d.State.LastSentBatchConfigIndex
  maypanic [not a pointer] true
  ensures [earlier actions stay] actionsKept(d)
  ensures [one proposal when the main chain has the next one and it was not sent yet] len(d.Actions) == old(len(d.Actions)) + ite(old(needsConfig(d)), 1, 0)
  ensures [of exactly the next configuration, as on the main chain] old(needsConfig(d)) ==> proposes(d, old(len(d.Actions)), nextCfg(d.Shutter))
  ensures [remembered] d.State.LastSentBatchConfigIndex == ite(old(needsConfig(d)), nextCfg(d.Shutter), old(d.State.LastSentBatchConfigIndex))
