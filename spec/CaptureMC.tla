------------------------------ MODULE CaptureMC -----------------------------
(* Handshakes with and without optional messages, with every single fault, and    *)
(* every way to supply records and values instead of bytes.                       *)
EXTENDS Capture, TLC, Json
CONSTANT Deep
M(k, id) == [k |-> k, id |-> id, v |-> 771, g |-> 23, sch |-> 1027, cs |-> <<>>]
Certs(cs) == [M("CERT", 22) EXCEPT !.cs = cs]
D(n, x) == [q \in 1..n |-> (q * 7 + x) % 256]
R(t, n, x) == [typ |-> t, data |-> D(n, x)]
C0(ms) == [ms |-> ms, cuts |-> <<>>, pre |-> FALSE, ccs |-> TRUE, enc |-> <<R(22, 40, 1), R(23, 27, 2), R(23, 31, 3)>>, bad |-> ""]
Flight == <<M("SH", 21), Certs(<<"p256">>), M("SKE", 24), M("SHD", 27)>>
NoGiv == [ver |-> "", sig |-> FALSE, certs |-> FALSE, bind |-> FALSE]
Base == [ev |-> "build", time |-> <<1700>>, giv |-> NoGiv, sraw |-> <<C0(<<M("CH", 11), M("CKE", 13)>>)>>, rraw |-> <<C0(Flight)>>,
         srec |-> <<>>, rrec |-> <<>>, sapp |-> <<D(10, 5)>>, rapp |-> <<D(10, 9)>>]
InsertAt(s, q, x) == SubSeq(s, 1, q - 1) \o <<x>> \o SubSeq(s, q, Len(s))
Drop(s, q) == SubSeq(s, 1, q - 1) \o SubSeq(s, q + 1, Len(s))
(* optional messages at their places                                              *)
SentFlights == {<<M("CH", 11)>> \o (IF c THEN <<[M("CERT", 12) EXCEPT !.cs = <<"rsa">>]>> ELSE <<>>) \o <<M("CKE", 13)>> \o (IF v THEN <<M("CV", 14)>> ELSE <<>>)
                  : c \in BOOLEAN, v \in BOOLEAN}
RecvFlights == {<<M("SH", 21), Certs(cs)>> \o (IF st THEN <<M("CS", 23)>> ELSE <<>>) \o <<[M("SKE", 24) EXCEPT !.sch = IF cs[1] = "rsa" THEN 2052 ELSE 1283]>> \o (IF cr THEN <<M("CR", 25)>> ELSE <<>>)
                 \o <<M("SHD", 27)>> \o (IF nst THEN <<M("NST", 28)>> ELSE <<>>)
                  : cs \in {<<"p256">>, <<"rsa", "p256">>}, st \in BOOLEAN, cr \in BOOLEAN, nst \in BOOLEAN}
SideFaults(c) ==
  {[c EXCEPT !.ms = Drop(c.ms, q)] : q \in DOMAIN c.ms}
  \cup {[c EXCEPT !.ms[q].k = "bad"] : q \in DOMAIN c.ms}
  \cup {[c EXCEPT !.bad = b] : b \in {"trunc", "header", "ctype"}}
  \cup {[c EXCEPT !.cuts = k] : k \in {<<1>>, <<3, 4>>, <<5, 40, 41>>, <<90>>}} \cup {[c EXCEPT !.pre = TRUE]}
  \cup {[c EXCEPT !.ccs = FALSE], [c EXCEPT !.enc = <<>>], [c EXCEPT !.enc = SubSeq(@, 1, 1)], [c EXCEPT !.enc[1].typ = 23], [c EXCEPT !.enc[1].typ = 20]}
  \cup {[c EXCEPT !.enc[q].data = D(n, 4)] : q \in {1, 2, 3}, n \in {23, 24, 25}}
  \cup {[c EXCEPT !.enc[q].typ = t] : q \in {2, 3}, t \in {20, 21, 22}}
  \cup {[c EXCEPT !.enc = InsertAt(c.enc, q, R(t, 26, 8))] : q \in {2, 3, 4}, t \in {21, 22, 23}}
KxFaults(c) == {[c EXCEPT !.ms[1].v = v] : v \in {770, 772, 0}}
               \cup {[c EXCEPT !.ms[3].g = g] : g \in {24, 29}}
               \cup {[c EXCEPT !.ms[3].sch = x, !.ms[2].cs = cs] :
                        x \in {1025, 1281, 1537, 2052, 2053, 2054, 2055, 1027, 1283, 1539, 513, 515, 2056, 0},
                        cs \in {<<>>, <<"p256">>, <<"p384">>, <<"p521">>, <<"ed25519">>, <<"rsa">>, <<"garbage">>, <<"p384", "p256">>, <<"garbage", "p256">>}}
Givs == [ver : {"", "12", "13"}, sig : BOOLEAN, certs : BOOLEAN, bind : BOOLEAN]
Fin(p) == [seq |-> 0, typ |-> 22, data |-> D(40, 1), plain |-> p]
Rec(seq, t, n, p) == [seq |-> seq, typ |-> t, data |-> D(n, 2), plain |-> p]
FinPlain == <<20, 0, 0, 12>> \o D(12, 3)
Recs == {<<>>, <<Fin(<<>>)>>, <<Fin(<<FinPlain>>), Rec(1, 23, 30, <<D(6, 1)>>)>>, <<Fin(<<FinPlain>>), Rec(1, 23, 30, <<>>), Rec(4, 23, 30, <<D(6, 2)>>)>>,
         <<Fin(<<FinPlain>>), Rec(1, 21, 30, <<>>), Rec(2, 23, 30, <<D(6, 2)>>), Rec(3, 23, 26, <<D(2, 4)>>)>>,
         <<[Fin(<<>>) EXCEPT !.seq = 1]>>, <<[Fin(<<>>) EXCEPT !.typ = 23]>>, <<[Fin(<<>>) EXCEPT !.typ = 21]>>, <<Fin(<<<<14, 0, 0, 0>>>>)>>, <<Fin(<<<<20, 0, 0, 13>> \o D(12, 3)>>)>>, <<Fin(<<<<20, 0>>>>)>>,
         <<Fin(<<>>), Rec(1, 23, 30, <<>>), Rec(1, 23, 30, <<>>)>>, <<Fin(<<>>), Rec(2, 23, 30, <<>>), Rec(1, 23, 30, <<>>)>>, <<Fin(<<>>), Rec(0, 23, 30, <<>>)>>}
Opt(l) == <<l>>
OneFault(b) ==
  {[b EXCEPT !.sraw = Opt(c)] : c \in SideFaults(b.sraw[1])} \cup {[b EXCEPT !.rraw = Opt(c)] : c \in SideFaults(b.rraw[1])}
  \cup {[b EXCEPT !.sraw = <<>>], [b EXCEPT !.rraw = <<>>], [b EXCEPT !.time = <<>>]}
  \cup {[b EXCEPT !.srec = Opt(l)] : l \in Recs} \cup {[b EXCEPT !.rrec = Opt(l)] : l \in Recs}
  \cup {[b EXCEPT !.sapp = a] : a \in {<<>>, <<<<>>>>, <<D(9, 5)>>, <<D(3, 5)>>}} \cup {[b EXCEPT !.rapp = a] : a \in {<<>>, <<<<>>>>, <<D(9, 9)>>}}
  \cup {[b EXCEPT !.giv = g] : g \in Givs}
Flights == {[Base EXCEPT !.sraw = Opt(C0(s)), !.rraw = Opt(C0(r))] : s \in SentFlights, r \in RecvFlights}
Plain == [Base EXCEPT !.srec = Opt(CHOOSE l \in Recs : Len(l) = 2), !.rrec = Opt(CHOOSE l \in Recs : Len(l) = 4)]
Given2 == {[Plain EXCEPT !.giv = g, !.sraw = a, !.rraw = b] : g \in Givs, a \in {<<>>, Base.sraw}, b \in {<<>>, Base.rraw}}
Kx == {[Base EXCEPT !.rraw = Opt(c)] : c \in KxFaults(C0(Flight))}
(* leftover application data is not the subject here                              *)
Trim(e) == LET n(raw) == Before(raw[1], Len(raw[1].enc) + 1)
               cut(app, raw) == IF Given(app) /\ Given(raw) THEN <<SubSeq(app[1], 1, IF n(raw) < Len(app[1]) THEN n(raw) ELSE Len(app[1]))>> ELSE app IN
           IF /\ Given(e.sraw) => \A q \in DOMAIN e.sraw[1].enc : Len(e.sraw[1].enc[q].data) >= 24
              /\ Given(e.rraw) => \A q \in DOMAIN e.rraw[1].enc : Len(e.rraw[1].enc[q].data) >= 24
           THEN [e EXCEPT !.sapp = cut(@, e.sraw), !.rapp = cut(@, e.rraw)] ELSE e
VARIABLES e, n
vars == <<e, n>>
Init == n = 0 /\ e \in {Trim(x) : x \in Flights \cup Given2 \cup Kx}
Next == /\ n < Deep /\ n' = n + 1
        /\ e.srec = <<>> /\ Given(e.sraw) /\ Given(e.rraw) /\ e \notin Kx \* faults on top of every flight
        /\ \E x \in OneFault(e) : e' = Trim(x)
Spec == Init /\ [][Next]_vars
(* nothing is made up: a record's pieces are its bytes, in order                  *)
Whole == Accept(e) => LET x == Result(e) IN
   /\ ~Given(e.srec) => \A q \in DOMAIN x.s : x.s[q].nonce \o x.s[q].ct \o x.s[q].tag = e.sraw[1].enc[q].data
   /\ \A q \in 1..(Len(x.s) - 1) : x.s[q].seq < x.s[q + 1].seq
   /\ x.s[1].typ = 22 /\ x.r[1].typ = 22 /\ x.s[1].seq = 0 /\ x.r[1].seq = 0
(* hash inputs: the session hash is a prefix of the client's Finished hash, which  *)
(* is a prefix of the server's                                                    *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Nested == (Accept(e) /\ Hs(e)) => /\ Prefix(Session(e), CfHash(e)) /\ Prefix(CfHash(e), SfHash(e))
                                  /\ Session(e)[Len(Session(e))] = Msg(Sm(e), "CKE").id
                                  /\ Len(SfHash(e)) = Len(Sm(e)) + Len(Rm(e)) + 1
Emit == PrintT("SCN " \o ToJson(e))
==============================================================================
