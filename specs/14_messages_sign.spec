// Message signing and authentication (K14) and transaction decoding.
declare pbEnc(Iface): Str
declare pbOK(Str): Bool
declare pbChain(Str): Str
declare pbNonce(Str): Int needs pbNonceRange
smt pbNonceRange (assert (forall ((s Str)) (! (and (<= 0 (pbNonce s)) (< (pbNonce s) 18446744073709551616)) :pattern ((pbNonce s)))))
ghost pbFrom: Str

extern proto.Marshal(m) returns (b, err)
  ensures fresh(b) && (err == nil ==> content(b) == pbEnc(m))
extern proto.Unmarshal(b, m) returns (err)
  requires istype(m, *shmsg.MessageWithNonce) && as(m, *shmsg.MessageWithNonce) != nil
  modifies *as(m, *shmsg.MessageWithNonce), pbFrom[as(m, *shmsg.MessageWithNonce)]
  ensures (err == nil) <==> pbOK(content(b))
  ensures pbFrom[as(m, *shmsg.MessageWithNonce)] == content(b)
  ensures err == nil ==> payloadOK(as(m, *shmsg.MessageWithNonce).Msg) && content(as(m, *shmsg.MessageWithNonce).ChainId) == pbChain(content(b)) && as(m, *shmsg.MessageWithNonce).RandomNonce == pbNonce(content(b))
  ensures err == nil ==> typeok(*as(m, *shmsg.MessageWithNonce)) && fresh(as(m, *shmsg.MessageWithNonce).ChainId)

// the bytes a signature covers: prefix, then everything after the signature
define signedHash(payload) = hashOf(0, strcat(strcat(emptystr, content(shmsg.hashPrefix)), payload))
define payloadOf(raw) = strsub(raw, 65, strlen(raw) - 65)
define signerOK(raw) = strlen(raw) >= 65 && sigOK(signedHash(payloadOf(raw)), strsub(raw, 0, 65))
define signerOf(raw) = pkAddr(sigRecover(signedHash(payloadOf(raw)), strsub(raw, 0, 65)))

fn shmsg.SignMessage(msg, key) returns (s, err) props K14 use
  requires key != nil
  modifies
  ensures [signature then payload] err == nil ==> len(s) >= 65 && content(s[65:]) == pbEnc(msg)
  ensures [signed by the key] err == nil ==> signerOK(content(s)) && sigRecover(signedHash(payloadOf(content(s))), strsub(content(s), 0, 65)) == key.PublicKey

fn shmsg.GetSigner(m) returns (a, err) props K14 use nopanic
  modifies
  ensures [accept iff signature valid for exactly this payload] (err == nil) <==> signerOK(content(m))
  ensures [signer of exactly this payload] err == nil ==> a == signerOf(content(m))

fn shmsg.GetMessage(m) returns (r, err) props K14 use nopanic
  requires len(m) >= 65
  modifies
  ensures [accept iff decodable] (err == nil) <==> pbOK(content(m[65:]))
  ensures [exactly the signed payload] err == nil ==> r != nil && fresh(r) && pbFrom[r] == content(m[65:]) && payloadOK(r.Msg) && content(r.ChainId) == pbChain(content(m[65:])) && r.RandomNonce == pbNonce(content(m[65:]))
