-------------------------------- MODULE Canon -------------------------------
(* Canonical bytes of what an attestation binds, and the trees over them.         *)
(* 64- and 32-bit numbers are given as little-endian 16-bit limbs.                *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL M == INSTANCE Merkle
Rng(s) == {s[q] : q \in DOMAIN s}
RECURSIVE Uleb(_), Cat(_), Limbs(_)
Uleb(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Uleb(n \div 128)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Limbs(l) == IF l = <<>> THEN <<>> ELSE <<l[1] % 256, l[1] \div 256>> \o Limbs(Tail(l))
Index(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, 0, 0, 0, 0, 0>>
Bytes(b) == Uleb(Len(b)) \o b
List(ss) == Uleb(Len(ss)) \o Cat(ss)
Typed(h) == <<h.alg>> \o Bytes(h.value)
VKey(k) == <<k.alg>> \o Bytes(k.data)
Conn(c) == Limbs(c.time) \o <<IF c.ver = "12" THEN 0 ELSE 1>> \o Limbs(c.sent) \o Limbs(c.recv)
EKey(k) == <<0>> \o Bytes(k)
Exten(x) == Bytes(x.id) \o Bytes(x.value)
Commit(c) == <<0, IF c.d = "s" THEN 0 ELSE 1>> \o List([q \in DOMAIN c.x |-> Index(c.x[q][1]) \o Index(c.x[q][2])]) \o Typed(c.hash)
HeadOf(h) == h.id \o <<0, 0, 0, 0>> \o Typed(h.root)
SigAlgs == <<"ECDSA_NISTP256_SHA256", "ECDSA_NISTP256_SHA384", "ECDSA_NISTP384_SHA256", "ECDSA_NISTP384_SHA384", "ED25519",
  "RSA_PKCS1_2048_8192_SHA256", "RSA_PKCS1_2048_8192_SHA384", "RSA_PKCS1_2048_8192_SHA512",
  "RSA_PSS_2048_8192_SHA256_LEGACY_KEY", "RSA_PSS_2048_8192_SHA384_LEGACY_KEY", "RSA_PSS_2048_8192_SHA512_LEGACY_KEY">>
AlgIndex(a) == (CHOOSE q \in DOMAIN SigAlgs : SigAlgs[q] = a) - 1
Hand(h) == List([q \in DOMAIN h.certs |-> Bytes(h.certs[q])]) \o <<AlgIndex(h.alg)>> \o Bytes(h.sig)
           \o <<0>> \o h.cr \o h.sr \o EKey(h.key)
(* the fields of a body, in the order of their identifiers                        *)
Map(s, F(_)) == [q \in DOMAIN s |-> F(s[q])]
LExt(x) == [dom |-> "Extension", b |-> Exten(x)]
LCom(c) == [dom |-> "tlsn_core::transcript::TranscriptCommitment", b |-> Commit(c)]
Fields(b) == << [dom |-> "VerifyingKey", b |-> VKey(b.key)],
                [dom |-> "tlsn_core::connection::ConnectionInfo", b |-> Conn(b.conn)],
                [dom |-> "tlsn_core::connection::ServerEphemKey", b |-> EKey(b.ekey)],
                [dom |-> "ServerCertCommitment", b |-> Typed(b.cert)] >> \o Map(b.exts, LExt) \o Map(b.cms, LCom)
Shape(n) == M!Root([q \in 1..n |-> <<q>>])
==============================================================================
