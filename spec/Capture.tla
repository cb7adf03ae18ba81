------------------------------- MODULE Capture ------------------------------
(* From the bytes of a TLS 1.2 connection to the transcript a prover works with.  *)
(* An input e (one build):                                                        *)
(*  time    <<>> or <<t>>            giv  values supplied instead of parsed        *)
(*  sraw, rraw   <<>> or <<c>>: captured bytes. c.ms: plaintext handshake messages *)
(*    [k, id, v, g, sch, cs], c.ccs: whether a change of cipher spec follows,      *)
(*    c.enc: records after it [typ, data], c.bad: "" or what is wrong with bytes   *)
(*  srec, rrec   <<>> or <<l>>: records supplied [seq, typ, data, plain]           *)
(*  sapp, rapp   <<>> or <<bytes>>: application data                               *)
EXTENDS Integers, Sequences, FiniteSets
RngOf(s) == {s[q] : q \in DOMAIN s}
Sum(s) == LET F[q \in 0..Len(s)] == IF q = 0 THEN 0 ELSE s[q] + F[q - 1] IN F[Len(s)]
Given(x) == x # <<>>
HasK(ms, k) == \E q \in DOMAIN ms : ms[q].k = k
First(ms, k) == CHOOSE q \in DOMAIN ms : ms[q].k = k /\ \A p \in DOMAIN ms : ms[p].k = k => q <= p
Msg(ms, k) == ms[First(ms, k)]

(* ---- the key exchange ---- *)
Curve(c) == CASE c \in {"p256", "p256b"} -> "P256" [] c = "p384" -> "P384" [] OTHER -> ""
Ecdsa(curve, h) == CASE curve = "P256" -> "ECDSA_NISTP256_" \o h [] curve = "P384" -> "ECDSA_NISTP384_" \o h [] OTHER -> ""
Alg(sch, cs) == CASE sch = 1025 -> "RSA_PKCS1_2048_8192_SHA256" [] sch = 1281 -> "RSA_PKCS1_2048_8192_SHA384" [] sch = 1537 -> "RSA_PKCS1_2048_8192_SHA512"
                  [] sch = 2052 -> "RSA_PSS_2048_8192_SHA256_LEGACY_KEY" [] sch = 2053 -> "RSA_PSS_2048_8192_SHA384_LEGACY_KEY"
                  [] sch = 2054 -> "RSA_PSS_2048_8192_SHA512_LEGACY_KEY" [] sch = 2055 -> "ED25519"
                  [] sch \in {1027, 1283} -> IF cs = <<>> THEN "" ELSE Ecdsa(Curve(cs[1]), IF sch = 1027 THEN "SHA256" ELSE "SHA384")
                  [] OTHER -> ""
Version(v) == CASE v = 771 -> "12" [] v = 772 -> "13" [] OTHER -> ""

(* ---- the plaintext handshake of both sides ---- *)
Hs(e) == Given(e.sraw) /\ Given(e.rraw)
Sm(e) == e.sraw[1].ms
Rm(e) == e.rraw[1].ms
HsOk(e) == /\ \A q \in RngOf(Sm(e)) \cup RngOf(Rm(e)) : q.k # "bad"
           (* without a change of cipher spec what follows counts as plaintext    *)
           /\ \A c \in {e.sraw[1], e.rraw[1]} : c.ccs \/ \A q \in DOMAIN c.enc : c.enc[q].typ # 22
           /\ Len(Sm(e)) > 0 /\ Sm(e)[1].k = "CH" /\ HasK(Sm(e), "CKE")
           /\ \A k \in {"SH", "CERT", "SKE", "SHD"} : HasK(Rm(e), k)
           /\ Version(Msg(Rm(e), "SH").v) # ""
           /\ Msg(Rm(e), "SKE").g = 23
           /\ Alg(Msg(Rm(e), "SKE").sch, Msg(Rm(e), "CERT").cs) # ""
Ids(ms) == [q \in DOMAIN ms |-> ms[q].id]
Upto(s, n) == SubSeq(s, 1, n)
From(s, n) == SubSeq(s, n + 1, Len(s))
(* what each hash covers, as message ids; 0 is the client's Finished             *)
Shd(e) == First(Rm(e), "SHD")
Cke(e) == First(Sm(e), "CKE")
CfHash(e) == Upto(Ids(Sm(e)), 1) \o Upto(Ids(Rm(e)), Shd(e)) \o From(Ids(Sm(e)), 1)
Session(e) == Upto(Ids(Sm(e)), 1) \o Upto(Ids(Rm(e)), Shd(e)) \o SubSeq(Ids(Sm(e)), 2, Cke(e))
SfHash(e) == CfHash(e) \o <<0>> \o From(Ids(Rm(e)), Shd(e))

(* ---- records ---- *)
Nonce == 8
Tag == 16
Body(d) == SubSeq(d, Nonce + 1, Len(d) - Tag)
Split(seq, r, plain) == [seq |-> seq, typ |-> r.typ, nonce |-> Upto(r.data, Nonce), ct |-> Body(r.data),
                         tag |-> From(r.data, Len(r.data) - Tag), plain |-> plain]
App(c, q) == IF c.enc[q].typ = 23 /\ q > 1 THEN Len(Body(c.enc[q].data)) ELSE 0
Before(c, q) == Sum([p \in 1..(q - 1) |-> App(c, p)])
RawOk(c, app) == /\ c.bad = "" /\ c.ccs /\ c.enc # <<>> /\ c.enc[1].typ = 22
                 /\ \A q \in DOMAIN c.enc : Len(c.enc[q].data) >= Nonce + Tag
                 /\ Given(app) => Len(app[1]) >= Before(c, Len(c.enc) + 1)
RawRecords(c, app) ==
  [q \in DOMAIN c.enc |-> Split(q - 1, c.enc[q],
     IF Given(app) /\ c.enc[q].typ = 23 /\ q > 1 THEN <<SubSeq(app[1], Before(c, q) + 1, Before(c, q + 1))>> ELSE <<>>)]
Finished(p) == Len(p) >= 4 /\ p[1] = 20 /\ Len(p) = 4 + p[2] * 65536 + p[3] * 256 + p[4]
RecOk(l) == /\ l # <<>> /\ l[1].typ = 22 /\ l[1].seq = 0
            /\ Given(l[1].plain) => Finished(l[1].plain[1])
            /\ \A q \in 1..(Len(l) - 1) : l[q].seq < l[q + 1].seq
Supplied(l) == [q \in DOMAIN l |-> Split(l[q].seq, l[q], l[q].plain)]
SideOk(rec, raw, app) == IF Given(rec) THEN RecOk(rec[1]) ELSE Given(raw) /\ RawOk(raw[1], app)
SideRecs(rec, raw, app) == IF Given(rec) THEN Supplied(rec[1]) ELSE RawRecords(raw[1], app)

(* ---- the build ---- *)
Bytes(x) == Given(x) => x[1].bad = ""
Accept(e) == /\ Given(e.time) /\ Bytes(e.sraw) /\ Bytes(e.rraw)
             /\ Hs(e) => HsOk(e)
             /\ SideOk(e.srec, e.sraw, e.sapp) /\ SideOk(e.rrec, e.rraw, e.rapp)
             /\ Hs(e) \/ (e.giv.ver # "" /\ e.giv.bind)
Vd(rs) == IF Given(rs[1].plain) THEN <<From(rs[1].plain[1], 4)>> ELSE <<>>
Gap(rs) == {q \in DOMAIN rs : rs[q].typ = 23 /\ ~Given(rs[q].plain)}
RECURSIVE Flat(_)
Flat(rs) == IF rs = <<>> THEN <<>> ELSE (IF rs[1].typ = 23 THEN rs[1].plain[1] ELSE <<>>) \o Flat(Tail(rs))
Result(e) ==
  LET s == SideRecs(e.srec, e.sraw, e.sapp) r == SideRecs(e.rrec, e.rraw, e.rapp) IN
  [ok |-> TRUE, time |-> e.time[1],
   ver |-> IF e.giv.ver # "" THEN e.giv.ver ELSE Version(Msg(Rm(e), "SH").v),
   sig |-> IF e.giv.sig THEN <<"ED25519", "given">> ELSE IF Hs(e) THEN <<Alg(Msg(Rm(e), "SKE").sch, Msg(Rm(e), "CERT").cs), "sig">> ELSE <<>>,
   certs |-> IF e.giv.certs THEN <<<<"given">>>> ELSE IF Hs(e) THEN <<Msg(Rm(e), "CERT").cs>> ELSE <<>>,
   bind |-> IF e.giv.bind THEN <<99, 99, 99>> ELSE <<Msg(Sm(e), "CH").id, Msg(Rm(e), "SH").id, Msg(Rm(e), "SKE").id>>,
   cf |-> IF Hs(e) THEN <<CfHash(e)>> ELSE <<>>, session |-> IF Hs(e) THEN <<Session(e)>> ELSE <<>>, sf |-> IF Hs(e) THEN <<SfHash(e)>> ELSE <<>>,
   s |-> s, r |-> r, cvd |-> Vd(s), svd |-> Vd(r)]
Text(e) == LET x == Result(e) IN
   IF Gap(x.s) = {} /\ Gap(x.r) = {} THEN {[ok |-> TRUE, s |-> Flat(x.s), r |-> Flat(x.r)]}
   ELSE {[ok |-> FALSE, d |-> "sent", seq |-> x.s[q].seq] : q \in Gap(x.s)} \cup {[ok |-> FALSE, d |-> "received", seq |-> x.r[q].seq] : q \in Gap(x.r)}
Refused == [ok |-> FALSE]
Exp(e) == IF Accept(e) THEN {[x |-> Result(e), t |-> t] : t \in Text(e)} ELSE {[x |-> Refused, t |-> Refused]}
Ok(e) == e.out \in Exp(e)
==============================================================================
