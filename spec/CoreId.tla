-------------------------------- MODULE CoreId ------------------------------
(* Server identity as tlsn-core establishes it from recorded handshake data:     *)
(* the ephemeral key of the session, the certificate chain, the name, and the    *)
(* signature over the key exchange by the declared algorithm.                    *)
(*  s: Pki scenario (ee, ints, roots, name, t) and                               *)
(*     eph   "same" | "byte" | "short" | "long"   key of the session vs. recorded *)
(*     none  no certificates    badroot  a root that is no certificate            *)
(*     kx    [by, msg, intact]  decl  the declared algorithm                      *)
EXTENDS Pki
Decl(x) == CASE x = "ECDSA_NISTP256_SHA256" -> <<"p256", "ecdsa-sha256">> [] x = "ECDSA_NISTP384_SHA256" -> <<"p384", "ecdsa-sha256">>
             [] x = "ECDSA_NISTP256_SHA384" -> <<"p256", "ecdsa-sha384">> [] x = "ECDSA_NISTP384_SHA384" -> <<"p384", "ecdsa-sha384">>
             [] x = "ED25519" -> <<"ed25519", "ed25519">>
             [] x = "RSA_PKCS1_2048_8192_SHA256" -> <<"rsa", "pkcs1-sha256">> [] x = "RSA_PKCS1_2048_8192_SHA384" -> <<"rsa", "pkcs1-sha384">>
             [] x = "RSA_PKCS1_2048_8192_SHA512" -> <<"rsa", "pkcs1-sha512">> [] x = "RSA_PSS_2048_8192_SHA256_LEGACY_KEY" -> <<"rsa", "pss-sha256">>
             [] x = "RSA_PSS_2048_8192_SHA384_LEGACY_KEY" -> <<"rsa", "pss-sha384">> [] x = "RSA_PSS_2048_8192_SHA512_LEGACY_KEY" -> <<"rsa", "pss-sha512">>
             [] OTHER -> <<"", "">>
ChainErr(s) == (IF s.ee.der # "ok" THEN {"ee"} ELSE (IF Chains(s) THEN {} ELSE {"path"}) \cup (IF Named(s) THEN {} ELSE {"name"}))
(* keys of these scenarios are P-256 and sign with SHA-256                        *)
Signs(s) == s.kx.by = s.ee.key /\ s.kx.msg = "right" /\ s.kx.intact /\ s.decl = "ECDSA_NISTP256_SHA256"
Faults(s) == (IF s.badroot THEN {"root"} ELSE {})
             \cup (IF s.eph = "same" THEN {} ELSE {"eph"})
             \cup (IF s.none THEN {"missing"} ELSE ChainErr(s) \cup (IF Signs(s) \/ s.ee.der # "ok" THEN {} ELSE {"sig"}))
ChainAns(s) == LET f == (IF s.badroot THEN {"root"} ELSE {}) \cup ChainErr(s) IN IF f = {} THEN {"ok"} ELSE f
(* a store with a bad root cannot be used at all                                  *)
HsAns(s) == LET f == Faults(s) IN IF f = {} THEN {"ok"} ELSE IF s.badroot THEN {"root"} ELSE f
(* algorithms: a certificate for e.key, a signature by e.by with mechanism e.alg   *)
AlgGood(e) == Decl(e.decl) = <<Kind(e.key), e.alg>> /\ e.by = e.key /\ e.key # "rsa1024" /\ e.same /\ e.intact
(* captured sessions of real servers                                              *)
Cap(e) == CASE e.p = "" -> {"ok"} [] e.p = "noca" -> {"ok"} [] e.p = "time" -> {"path"} [] e.p = "noint" -> {"path"} [] e.p = "host" -> {"name"}
            [] e.p \in {"cr", "sr", "sig", "alg"} -> {"sig"} [] e.p \in {"key", "keylen"} -> {"eph"} [] e.p = "none" -> {"missing"}
            [] e.p = "noroot" -> {"path"} [] e.p = "both" -> {"sig"}
CExp(e) == CASE e.ev = "chain" -> ChainAns(e) [] e.ev = "hsr" -> HsAns(e)
             [] e.ev = "alg" -> (IF AlgGood(e) THEN {"ok"} ELSE {"sig"})
             [] e.ev = "cap" -> Cap(e)
COk(e) == e.out \in CExp(e)
==============================================================================
