------------------------------- MODULE AttestMC ------------------------------
EXTENDS Attest, TLC, Json
CONSTANT Part
VARIABLE e
B(n, x) == [q \in 1..n |-> (x + 7 * q) % 256]
(* ---- bodies for the root ---- *)
Cm0 == [d |-> "s", x |-> <<<<0, 5>>>>, hash |-> [alg |-> 2, value |-> B(32, 9)]]
Body1 == [ev |-> "root", alg |-> 2, key |-> [alg |-> 1, data |-> B(33, 1)], conn |-> [time |-> <<1, 2, 3, 4>>, ver |-> "12", sent |-> <<10, 0>>, recv |-> <<20, 0>>],
          ekey |-> B(65, 2), cert |-> [alg |-> 2, value |-> B(32, 3)], exts |-> <<>>, cms |-> <<>>]
Lens == {0, 1, 2, 127, 128, 129, 255, 256, 300}
Ext(a, b) == [id |-> B(a, 4), value |-> B(b, 5)]
Limb == {0, 1, 255, 256, 65535}
Roots == LET b == Body1 IN
  {[b EXCEPT !.alg = a] : a \in {1, 2, 3, 200}}
  \cup {[b EXCEPT !.key.alg = a] : a \in {0, 2, 127, 128, 255}} \cup {[b EXCEPT !.key.data = B(n, 6)] : n \in Lens}
  \cup {[b EXCEPT !.conn.time[q] = v] : q \in 1..4, v \in Limb} \cup {[b EXCEPT !.conn.ver = "13"]}
  \cup {[b EXCEPT !.conn.sent[q] = v] : q \in 1..2, v \in Limb} \cup {[b EXCEPT !.conn.recv[q] = v] : q \in 1..2, v \in Limb}
  \cup {[b EXCEPT !.ekey = B(n, 6)] : n \in Lens} \cup {[b EXCEPT !.cert.alg = a] : a \in {0, 1, 3, 255}}
  \cup {[b EXCEPT !.cert.value = B(n, 6)] : n \in {0, 1, 20, 48, 63, 64}}
  \cup {[b EXCEPT !.exts = <<Ext(x, y)>>] : x \in Lens, y \in {0, 1, 128}} \cup {[b EXCEPT !.exts = <<Ext(1, y)>>] : y \in Lens}
  \cup {[b EXCEPT !.exts = [q \in 1..n |-> Ext(q % 3, q)], !.cms = [q \in 1..m |-> [Cm0 EXCEPT !.x = <<<<q, q + 1>>>>]]] : n \in 0..4, m \in 0..4}
  \cup {[b EXCEPT !.exts = <<Ext(1, 1), Ext(1, 1)>>], [b EXCEPT !.cms = <<Cm0, Cm0>>]}
  \cup {[b EXCEPT !.cms = <<[Cm0 EXCEPT !.d = d, !.hash.alg = a, !.x = x]>>] : d \in {"s", "r"}, a \in {1, 3, 200},
          x \in {<<>>, <<<<0, 1>>>>, <<<<0, 1>>, <<3, 70000>>>>, <<<<255, 256>>, <<1000, 1001>>, <<65535, 65537>>>>}}
  \cup {[b EXCEPT !.cms = <<[Cm0 EXCEPT !.hash.value = B(n, 1)]>>] : n \in {0, 31, 48, 64}}

(* ---- openings ---- *)
Hs0 == [certs |-> <<B(10, 1), B(20, 2)>>, alg |-> "ECDSA_NISTP256_SHA256", sig |-> B(70, 3), cr |-> B(32, 4), sr |-> B(32, 5), key |-> B(65, 6)]
Have(a, b, c, d) == [name |-> a, hs |-> b, tr |-> c, hash |-> d]
Open0 == [ev |-> "open", alg |-> 2, sig |-> 1, exts |-> <<>>, have |-> Have(TRUE, TRUE, TRUE, TRUE), hs |-> Hs0]
Opens == LET o == Open0 IN
  {[o EXCEPT !.alg = a, !.have = Have(n, h, t, p)] : a \in {1, 2, 3, 200}, n \in BOOLEAN, h \in BOOLEAN, t \in BOOLEAN, p \in BOOLEAN}
  \cup {[o EXCEPT !.hs.certs = [q \in 1..n |-> B(q * 50, q)]] : n \in 0..5} \cup {[o EXCEPT !.hs.certs = <<B(n, 1)>>] : n \in Lens}
  \cup {[o EXCEPT !.hs.alg = a] : a \in Rng(SigAlgs)} \cup {[o EXCEPT !.hs.sig = B(n, 9)] : n \in Lens} \cup {[o EXCEPT !.hs.key = B(n, 9)] : n \in Lens}
  \cup {[o EXCEPT !.sig = a, !.exts = x] : a \in {1, 2, 3, 128, 255}, x \in {<<>>, <<Ext(1, 1)>>, <<Ext(1, 2), Ext(0, 0), Ext(1, 2)>>}}
Faults == {"name", "ekey", "early", "late", "noca", "value", "alg", "fresh", "other", "nohash"}
Idents == {[ev |-> "ident", alg |-> a, f |-> f] : a \in {1, 2, 3, 200}, f \in {<<>>} \cup {<<x>> : x \in Faults}}
          \cup {[ev |-> "ident", alg |-> 2, f |-> <<x, y>>] : x \in Faults, y \in Faults}

(* ---- notaries ---- *)
X1 == [id |-> <<1>>, value |-> <<5>>]
X2 == [id |-> <<2>>, value |-> <<>>]
Not0 == [ev |-> "notary", sup |-> [sig |-> <<1>>, hash |-> <<>>], val |-> "none", prov |-> [sig |-> <<1>>, hash |-> <<>>],
         req |-> [sig |-> 1, hash |-> 2, exts |-> <<>>], conn |-> <<1>>, ekey |-> <<1>>, more |-> <<>>, cms |-> <<>>]
Notaries == LET n == Not0 IN
  {[n EXCEPT !.sup.sig = s, !.req.sig = a, !.prov.sig = p] : s \in {<<>>, <<1>>, <<1, 2>>, <<3, 1>>, <<2, 3, 130>>}, a \in {1, 2, 3, 130}, p \in {<<>>, <<1>>, <<2, 3>>, <<1, 3, 130>>}}
  \cup {[n EXCEPT !.sup.hash = s, !.req.hash = a, !.prov.hash = p] : s \in {<<>>, <<1>>, <<2, 3>>, <<200>>, <<1, 200, 201>>}, a \in {0, 1, 2, 3, 200, 201}, p \in {<<>>, <<200>>}}
  \cup {[n EXCEPT !.val = v, !.req.exts = x, !.more = m] : v \in {"none", "any", "one"}, x \in {<<>>, <<X1>>, <<X2>>, <<X1, X1>>, <<X1, X2>>, <<X2, X1>>}, m \in {<<>>, <<X1>>, <<X2, X1>>}}
  \cup {[n EXCEPT !.conn = c, !.ekey = k, !.cms = m] : c \in {<<>>, <<1>>, <<1, 2>>}, k \in {<<>>, <<1>>, <<2, 1>>}, m \in {<<>>, <<<<1>>>>, <<<<1, 2>>, <<3>>>>, <<<<1, 2, 3>>>>, <<<<1>>, <<>>>>, <<<<2, 2>>>>}}
  \cup {[n EXCEPT !.val = "any", !.req.exts = <<X2>>, !.req.sig = a, !.req.hash = h, !.conn = c] : a \in {1, 2}, h \in {2, 200}, c \in {<<>>, <<3>>}}

(* ---- adversaries ---- *)
Base(v, s, h, nE, nC, o) == [ev |-> v, sig |-> s, hash |-> h, nE |-> nE, nC |-> nC, ops |-> o]
Op(o) == [o |-> o]
Ops(s, h, n) == {Op(o) : o \in {"sig", "hid", "hver", "hroot", "add", "reroot", "resign", "lacksig", "lackhash"}}
  \cup {[o |-> "sigalg", v |-> v] : v \in {1, 2, 3, 130, 131} \ {s}} \cup {[o |-> "halg", v |-> v] : v \in {1, 2, 3, 200, 201} \ {h}}
  \cup {[o |-> "val", k |-> k, v |-> v] : k \in 1..n, v \in 1..4} \cup {[o |-> "id", k |-> k, v |-> v] : k \in {1, 2, n}, v \in {0, 1, n - 1, n, 99}}
  \cup {[o |-> "swap", k |-> k, j |-> k + 1] : k \in 1..(n - 1)} \cup {[o |-> "dup", k |-> k] : k \in 5..n} \cup {[o |-> "del", k |-> k] : k \in 5..n}
Counts == {[o |-> "count", v |-> v] : v \in {-1, 1, 2}}
Legal(o, n) == o.o # "val" \/ o.v <= (CASE o.k = 2 -> 4 [] o.k \in {3, 4} -> 2 [] OTHER -> 3)
OpsL(s, h, n, c) == {o \in Ops(s, h, n) \cup c : Legal(o, n)}
Pairs == Part \in {"attack2", "validate2"}
Prefix == {<<>>, <<Op("reroot"), Op("resign")>>, <<Op("resign")>>, <<Op("reroot")>>}
Attacks(v, c) ==
  UNION {UNION {{Base(v, s, h, x[1], x[2], <<o>>) : o \in OpsL(s, h, 4 + x[1] + x[2], c)} \cup {Base(v, s, h, x[1], x[2], <<>>)}
           : s \in {1, 2, 3, 130}, h \in (IF Pairs THEN {2} ELSE {1, 2, 3, 200})} : x \in (IF Pairs THEN {} ELSE {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 1>>, <<3, 2>>})}
  \cup (IF Pairs THEN UNION {{Base(v, s, 200, 2, 1, <<o>> \o f) : o \in OpsL(s, 200, 7, c), f \in Prefix} : s \in {1, 130}}
             \cup {Base(v, 1, 2, 2, 1, <<o, [o |-> "val", k |-> 1, v |-> 1]>> \o f) : o \in OpsL(1, 2, 7, c), f \in Prefix}
             \cup {Base(v, 130, 1, 2, 0, <<o, r>>) : o \in OpsL(130, 1, 6, c), r \in OpsL(130, 1, 6, c)} ELSE {})
(* the prover asked for what the notary signed, or for something else              *)
WithReq(b, s, h, c, x) == [ev |-> b.ev, sig |-> b.sig, hash |-> b.hash, nE |-> b.nE, nC |-> b.nC, ops |-> b.ops, rsig |-> s, rhash |-> h, rcert |-> c, rexts |-> x]
Own(b) == [q \in 1..b.nE |-> q]
Validations == {WithReq(b, b.sig, b.hash, 0, Own(b)) : b \in Attacks("validate", {})}
  \cup UNION {{WithReq(b, s, h, c, x) : x \in {Own(b), <<>>, <<1>>, <<2, 1>>, <<11>>, <<1, 9>>}} :
         b \in {Base("validate", 1, 2, n, 1, o) : n \in 0..2, o \in {<<>>, <<Op("add")>>}}, s \in {1, 3, 130}, h \in {1, 2}, c \in {0, 10, 20}}
Press == {[ev |-> "pres", sig |-> s, hash |-> h, nE |-> n, id |-> i, tr |-> t] : s \in {1, 2}, h \in {2, 200}, n \in {0, 2},
           i \in {"", "good", "name", "opening", "ekey", "early", "noca"}, t \in {"", "good", "part", "data", "len", "blind", "other", "cut"}}

(* ---- signatures ---- *)
Signs == {[ev |-> "sign", by |-> [kind |-> a[1], n |-> 1], alg |-> a[2], key |-> [kind |-> k[1], n |-> k[2], as |-> k[3], t |-> k[4]], ver |-> v, same |-> m, t |-> t] :
            a \in {<<"k256", 1>>, <<"p256", 2>>, <<"k256", 3>>}, v \in 1..3, m \in BOOLEAN, t \in {"", "flip", "short", "long", "zero"},
            k \in {<<"k256", 1, "k256", "">>, <<"k256", 2, "k256", "">>, <<"p256", 1, "p256", "">>, <<"k256", 1, "p256", "">>, <<"p256", 1, "k256", "">>, <<"k256", 1, "own", "">>, <<"k256", 1, "k256", "bad">>, <<"p256", 1, "p256", "bad">>}}
Keys == {[ev |-> "skey", alg |-> a, k |-> k] : a \in 1..3, k \in {"ok", "zero", "order", "big", "short", "long", "empty"}}
AlgIds == {[ev |-> "ids", id |-> n] : n \in 0..255}

Init == e \in (CASE Part = "root" -> Roots
                 [] Part = "open" -> Opens \cup Idents
                 [] Part = "notary" -> Notaries
                 [] Part = "sign" -> Signs \cup Keys \cup AlgIds
                 [] Part \in {"validate", "validate2"} -> Validations \cup Attacks("makes", {})
                 [] Part \in {"attack", "attack2"} -> Attacks("verify", Counts) \cup Press)
Spec == Init /\ [][FALSE /\ UNCHANGED e]_e
(* what is accepted was written and signed by the holder of the key                 *)
P == Fold(Start(e), e.ops)
Wrote(p) == \A q \in DOMAIN p.body : \E k \in DOMAIN Body0(e) : Body0(e)[k] = p.body[q]
Sound == e.ev = "verify" /\ Verify(P) /\ Vals(P, 1)[1] = 0 => Wrote(P) /\ P.hdr = Start(e).hdr
Complete == e.ev \in {"verify", "validate"} /\ e.ops = <<>> => Verify(P)
SoundV == e.ev = "validate" /\ Validate(e, P) => Verify([P EXCEPT !.count = Len(P.body)]) /\ Presents(P)
SoundN == e.ev = "notary" /\ Notary(e).at = "ok" => Accepts(e) /\ Len(Notary(e).exts) >= Len(e.req.exts)
(* different fields have different bytes                                            *)
Inj == e.ev = "root" => \A q, k \in 1..Len(Fields(e)) : Fields(e)[q].dom # Fields(e)[k].dom \/ q = k \/ q > 4
Emit == PrintT("SCN " \o ToJson(e))
==============================================================================
