------------------------------ MODULE CoreIdMC ------------------------------
(* The chain scenarios of PkiMC without timestamps, and key exchange faults.     *)
EXTENDS PkiMC, CoreId
Plain(x) == ~x.ct.on /\ x.t > 0 - 1000000000
Core(x) == [ev |-> x.ev, ee |-> x.ee, ints |-> x.ints, roots |-> x.roots, name |-> x.name, t |-> x.t,
            eph |-> "same", none |-> FALSE, badroot |-> FALSE, kx |-> [by |-> 9, msg |-> "right", intact |-> TRUE], decl |-> "ECDSA_NISTP256_SHA256"]
Mu(x) == {Core(m) : m \in {y \in Muts(x) : Plain(y)}}
KxF(c) == {[c EXCEPT !.kx.by = 7], [c EXCEPT !.kx.intact = FALSE], [c EXCEPT !.eph = "byte"], [c EXCEPT !.eph = "short"], [c EXCEPT !.eph = "long"],
           [c EXCEPT !.none = TRUE], [c EXCEPT !.badroot = TRUE]}
          \cup {[c EXCEPT !.kx.msg = m] : m \in {"swapped", "noclient", "noserver", "params", "empty"}}
          \cup {[c EXCEPT !.decl = d] : d \in {"ECDSA_NISTP256_SHA384", "ECDSA_NISTP384_SHA256", "ECDSA_NISTP384_SHA384", "ED25519", "RSA_PKCS1_2048_8192_SHA256", "RSA_PSS_2048_8192_SHA512_LEGACY_KEY"}}
CoreChains == UNION {Mu(x) \cup {Core(x)} \cup {[Core(x) EXCEPT !.badroot = TRUE]} : x \in Shapes}
AsHs(S) == {[c EXCEPT !.ev = "hsr"] : c \in S}
CoreHs == LET a == AsHs(UNION {Mu(x) \cup {Core(x)} : x \in Few})
              b == AsHs({Core(x) : x \in Few}) IN
          a \cup UNION {KxF(c) : c \in a} \cup UNION {KxF(d) : d \in UNION {KxF(c) : c \in b}}
CInit == n = 9 /\ s \in (IF Part = "cchain" THEN CoreChains ELSE CoreHs)
CSpec == CInit /\ [][FALSE]_vars
(* acceptance needs every single thing to be right                                *)
CSound == ("ok" \in CExp(s)) =>
   /\ s.ee.good /\ s.ee.nb <= s.t /\ s.t <= s.ee.na /\ Named(s) /\ s.roots # <<>> /\ ~s.badroot
   /\ s.ev = "hsr" => s.eph = "same" /\ s.kx.intact /\ s.kx.msg = "right" /\ s.kx.by = s.ee.key
CSome == CExp(s) # {} /\ ("ok" \in CExp(s) => CExp(s) = {"ok"})
==============================================================================
