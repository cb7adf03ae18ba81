-------------------------------- MODULE Pki ---------------------------------
(* Server identity: which certificate chains, certificate timestamps and        *)
(* handshake signatures are accepted.                                           *)
(* A certificate: subj, iss (name ids), key, by (key that signed it), good      *)
(* (signature untampered), nb, na (validity), ca, pl (path length or -1), eku,  *)
(* names (list of label lists), der ("ok" | "trunc").                           *)
EXTENDS Integers, Sequences, FiniteSets
Ran(s) == {s[q] : q \in 1..Len(s)}

Signed(c, k) == c.by = k /\ c.good
(* properties of a certificate that do not depend on its issuer *)
Fit(c, t, role, n) ==
  /\ c.nb <= c.na /\ c.nb <= t /\ t <= c.na
  /\ (role = "ee") => c.ca # "yes"
  /\ (role = "ca") => (c.ca = "yes" /\ (c.pl < 0 \/ n <= c.pl))
  /\ c.eku \in {"none", "server", "both"}
RECURSIVE Path(_, _, _, _, _)
Path(s, c, role, used, n) ==
  /\ Fit(c, s.t, role, n)
  /\ \/ \E r \in Ran(s.roots) : r.subj = c.iss /\ Signed(c, r.key)
     \/ \E i \in Ran(s.ints) :
          /\ i.der = "ok" /\ i.subj = c.iss /\ <<i.subj, i.key>> \notin used
          /\ Signed(c, i.key)
          /\ Path(s, i, "ca", used \cup {<<i.subj, i.key>>}, IF role = "ca" THEN n + 1 ELSE n)
Chains(s) == Path(s, s.ee, "ee", {<<s.ee.subj, s.ee.key>>}, 0)

Matches(p, name) == /\ Len(p) = Len(name)
                    /\ \A q \in 1..Len(p) : p[q] = name[q] \/ (q = 1 /\ p[q] = "*")
Named(s) == \E p \in Ran(s.ee.names) : Matches(p, s.name)

(* Certificate transparency: opportunistic, any good timestamp suffices,        *)
(* timestamps that cannot be judged are passed over, wrong ones are fatal.      *)
Sct(s, x) == IF x.ver # 0 THEN "UnsupportedSctVersion"
             ELSE IF x.mal THEN "MalformedSct"
             ELSE IF x.log \notin Ran(s.ct.logs) THEN "UnknownLog"
             ELSE IF x.by # x.log \/ x.cert # "this" THEN "InvalidSignature"
             ELSE IF x.ts > s.t THEN "TimestampInFuture" ELSE "good"
Soft == {"UnknownLog", "UnsupportedSctVersion"}
RECURSIVE CtRun(_, _, _)
CtRun(s, q, last) == IF q > Len(s.scts) THEN last
                     ELSE LET r == Sct(s, s.scts[q]) IN
                          IF r = "good" THEN "ok"
                          ELSE IF r \in Soft THEN CtRun(s, q + 1, "sct:" \o r)
                          ELSE "sct:" \o r
Ct(s) == IF ~s.ct.on \/ s.ct.logs = <<>> \/ s.t > s.ct.dl THEN "ok" ELSE CtRun(s, 1, "ok")

Accept(s) == s.ee.der = "ok" /\ s.t >= 0 - 1000000000 /\ Chains(s) /\ Ct(s) = "ok" /\ Named(s)
(* the error may name any fault there is *)
Clean(s) == \A c \in {s.ee} \cup Ran(s.ints) : c.good /\ c.der = "ok"
            /\ \A d \in {s.ee} \cup Ran(s.ints) \cup Ran(s.roots) : d.subj = c.iss => d.key = c.by
Errors(s) ==
  (IF s.t < 0 - 1000000000 THEN {"time"} ELSE {})
  \cup (IF s.ee.der # "ok" THEN {"encoding", "data"}
        ELSE (IF Chains(s) THEN {} ELSE IF Clean(s) THEN {"data"} ELSE {"data", "sig", "encoding"})
             \cup (IF Ct(s) = "ok" THEN {} ELSE {Ct(s)})
             \cup (IF Named(s) THEN {} ELSE {"data"}))
ChainAllowed(s) == IF Accept(s) THEN {"ok"} ELSE Errors(s)

(*** handshake signatures *******************************************************)
(* scheme -> list of <<key kind, mechanism, name>> *)
Conv12(x) == CASE x = 1027 -> <<<<"p256", "ecdsa-sha256", "ECDSA_NISTP256_SHA256">>, <<"p384", "ecdsa-sha256", "ECDSA_NISTP384_SHA256">>>>
               [] x = 1283 -> <<<<"p256", "ecdsa-sha384", "ECDSA_NISTP256_SHA384">>, <<"p384", "ecdsa-sha384", "ECDSA_NISTP384_SHA384">>>>
               [] x = 2055 -> <<<<"ed25519", "ed25519", "ED25519">>>>
               [] x = 1025 -> <<<<"rsa", "pkcs1-sha256", "RSA_PKCS1_2048_8192_SHA256">>>>
               [] x = 1281 -> <<<<"rsa", "pkcs1-sha384", "RSA_PKCS1_2048_8192_SHA384">>>>
               [] x = 1537 -> <<<<"rsa", "pkcs1-sha512", "RSA_PKCS1_2048_8192_SHA512">>>>
               [] x = 2052 -> <<<<"rsa", "pss-sha256", "RSA_PSS_2048_8192_SHA256_LEGACY_KEY">>>>
               [] x = 2053 -> <<<<"rsa", "pss-sha384", "RSA_PSS_2048_8192_SHA384_LEGACY_KEY">>>>
               [] x = 2054 -> <<<<"rsa", "pss-sha512", "RSA_PSS_2048_8192_SHA512_LEGACY_KEY">>>>
               [] OTHER -> <<>>
Conv13(x) == CASE x = 1027 -> <<<<"p256", "ecdsa-sha256", "">>>>
               [] x = 1283 -> <<<<"p384", "ecdsa-sha384", "">>>>
               [] x \in {1025, 1281, 1537} -> <<>>
               [] OTHER -> Conv12(x)
Supported == <<1283, 1027, 2055, 2054, 2053, 2052, 1537, 1281, 1025>>
Kind(k) == CASE k \in {"p256", "p256b"} -> "p256" [] k \in {"rsa", "rsa1024"} -> "rsa" [] OTHER -> k
SigAlgs(e) == IF e.fn \in {"13", "s13", "c13"} THEN Conv13(e.scheme) ELSE Conv12(e.scheme)
SigHit(e) == {a \in Ran(SigAlgs(e)) : a[1] = Kind(e.key)}
SigGood(e) == \E a \in SigHit(e) : a[2] = e.alg /\ e.by = e.key /\ e.key # "rsa1024" /\ e.same /\ e.intact
SigAllowed(e) ==
  LET pre == (IF SigAlgs(e) = <<>> THEN {"misbehaved"} ELSE {}) \cup (IF e.cert = "ok" THEN {} ELSE {"encoding", "data"}) IN
  IF pre # {} THEN pre
  ELSE IF SigHit(e) = {} THEN {"sigtype"}
  ELSE IF ~SigGood(e) THEN {"sig"}
  ELSE IF e.fn = "det" THEN {"det:" \o (CHOOSE a \in SigHit(e) : TRUE)[3]} ELSE {"ok"}

(*** TLS 1.3 CertificateVerify content (RFC 8446, 4.4.3) **************************)
(* e.ctx: the ASCII of the context strings *)
Cv(e) == [q \in 1..64 |-> 32] \o e.ctx \o <<0>> \o e.hash

(*** handshake data ***************************************************************)
(* e: chain (ids), scts, ocsp, cr, sr, kx, sig, scheme, name, t; the verifier's     *)
(* answers vc, vs.  out = [res, calls]                                              *)
HsCert(e) == [c |-> "cert", ee |-> e.chain[1], ints |-> SubSeq(e.chain, 2, Len(e.chain)), name |-> e.name,
              scts |-> e.scts, ocsp |-> e.ocsp, t |-> e.t]
HsSig(e) == [c |-> "sig", msg |-> e.cr \o e.sr \o e.kx, cert |-> e.chain[1], scheme |-> e.scheme, sig |-> e.sig]
HsHeld(e) == [chain |-> e.chain, ocsp |-> e.ocsp, scts |-> e.scts, has |-> e.has, kx |-> e.kx, scheme |-> e.scheme,
              sig |-> e.sig, cr |-> e.cr, sr |-> e.sr]
HsOk(e) ==
  /\ e.acc = HsHeld(e)
  /\ IF e.chain = <<>> THEN e.out = [res |-> "nocerts", calls |-> <<>>]
     ELSE
       /\ Ran(e.out.calls) \subseteq {HsCert(e), HsSig(e)}
       /\ e.out.res \in {"ok", e.vc, e.vs}
       /\ e.out.res = "ok" => (e.vc = "ok" /\ e.vs = "ok" /\ Ran(e.out.calls) = {HsCert(e), HsSig(e)})
       /\ e.out.res # "ok" => (HsCert(e) \in Ran(e.out.calls) /\ e.out.res = e.vc) \/ (HsSig(e) \in Ran(e.out.calls) /\ e.out.res = e.vs)
HsExp(e) == IF e.chain = <<>> THEN [res |-> "nocerts", calls |-> <<>>]
            ELSE [res |-> IF e.vc = "ok" THEN e.vs ELSE e.vc, calls |-> <<HsCert(e), HsSig(e)>>]
(* the same with real certificates and keys: s plus kx = [by, msg, intact]          *)
HsrAllowed(s) ==
  LET sg == s.kx.by = s.ee.key /\ s.kx.msg = "right" /\ s.kx.intact IN
  IF Accept(s) /\ sg THEN {"ok"}
  ELSE Errors(s) \cup (IF sg \/ s.ee.der # "ok" THEN {} ELSE {"sig"})

Exp(e) == CASE e.ev = "chain" -> ChainAllowed(e)
            [] e.ev = "hsr" -> HsrAllowed(e)
            [] e.ev = "sig" -> SigAllowed(e)
            [] e.ev = "cv" -> {Cv(e)}
            [] e.ev = "schemes" -> {Supported}
            [] e.ev = "offer" -> {<<e.offer, e.offer, TRUE>>}   \* trait defaults: offered, and then mandatory
            [] e.ev = "hs" -> {HsExp(e)}
Ok(e) == IF e.ev = "hs" THEN HsOk(e) ELSE e.out \in Exp(e)
==============================================================================
