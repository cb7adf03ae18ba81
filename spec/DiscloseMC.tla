------------------------------ MODULE DiscloseMC ----------------------------
EXTENDS Disclose, Json
CONSTANTS Family
VARIABLE e
T == [s |-> <<11, 12, 13>>, r |-> <<21, 0>>]
C(d, x, alg, b) == [d |-> d, x |-> x, alg |-> alg, b |-> b]
UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
(* -- configurations -- *)
XS == {<<<<0, 2>>>>, <<<<2, 3>>>>, <<<<0, 1>>, <<1, 2>>>>, <<<<2, 4>>>>, <<>>}
COps == {[op |-> "default", alg |-> 1]} \cup {[op |-> "with", x |-> x, d |-> d, alg |-> 3] : x \in XS, d \in {"s", "r"}}
        \cup {[op |-> "commit", x |-> x, d |-> d] : x \in XS, d \in {"s", "r"}}
        \cup {[op |-> o, x |-> x] : o \in {"sent", "recv"}, x \in XS}
POps == {[op |-> "id"], [op |-> "commit", ops |-> <<>>], [op |-> "commit", ops |-> <<[op |-> "sent", x |-> <<<<0, 1>>>>]>>]}
        \cup {[op |-> "all", d |-> d] : d \in {"s", "r"}} \cup {[op |-> "reveal", d |-> d, x |-> x] : d \in {"s", "r"}, x \in XS}
Config == {[ev |-> "commits", t |-> T, ops |-> o] : o \in UpTo(COps, 2)}
          \cup {[ev |-> "prove", t |-> T, ops |-> o] : o \in UpTo(POps, 3)}
(* -- proofs -- *)
Pool == {C("s", <<<<0, 1>>>>, 1, 1), C("s", <<<<0, 2>>>>, 1, 2), C("r", <<<<1, 2>>>>, 2, 3), C("s", <<<<2, 3>>>>, 200, 4), C("s", <<>>, 3, 5)}
Coms == {<<>>} \cup {<<a>> : a \in Pool} \cup {<<C("s", <<<<0, 1>>>>, 1, 1), C("r", <<<<1, 2>>>>, 2, 3)>>,
         <<C("s", <<<<0, 2>>>>, 1, 2), C("s", <<<<2, 3>>>>, 200, 4), C("r", <<<<1, 2>>>>, 2, 3)>>,
         <<C("s", <<<<0, 1>>>>, 1, 1), C("s", <<<<0, 2>>>>, 1, 2)>>}
Secs == Pool \cup {C("s", <<<<0, 1>>>>, 2, 1), C("s", <<<<0, 1>>>>, 1, 9), C("r", <<<<0, 1>>>>, 1, 1), C("s", <<<<2, 4>>>>, 200, 4), C("r", <<<<1, 2>>>>, 7, 3)}
PT(sx, rx, m, sn, rn) == [s |-> IF m = 1 /\ Idx(sx) # {} THEN [At(T.s, Idx(sx)) EXCEPT ![1] = 99] ELSE At(T.s, Idx(sx)),
                          r |-> IF m = 2 /\ Idx(rx) # {} THEN [At(T.r, Idx(rx)) EXCEPT ![1] = 99] ELSE At(T.r, Idx(rx)),
                          sx |-> sx, rx |-> rx, sn |-> sn, rn |-> rn]
PTs == {PT(sx, rx, m, 3, 2) : sx \in {<<>>, <<<<0, 1>>>>, <<<<0, 2>>>>, <<<<0, 3>>>>, <<<<2, 3>>>>}, rx \in {<<>>, <<<<1, 2>>>>}, m \in 0..2}
       \cup {PT(<<<<0, 1>>>>, <<>>, 0, n[1], n[2]) : n \in {<<4, 2>>, <<3, 3>>, <<2, 2>>}}
Proofs == {[ev |-> "verify", t |-> T, com |-> c, sec |-> s, p |-> p, len |-> <<3, 2>>, prov |-> v] :
             c \in Coms, s \in UpTo(Secs, 2), p \in PTs, v \in {<<1, 2, 3>>, <<1, 2, 3, 200>>}}
(* one of everything changed from an honest proof, and a sample of the rest          *)
Honest(f) == \E S \in SUBSET DOMAIN f.com : Opened(f, "s") = Idx(f.p.sx) \/ Opened(f, "r") = Idx(f.p.rx)
Near(f) == Honest(f) /\ (f.prov = <<1, 2, 3>> => \E q \in DOMAIN f.sec : f.sec[q].alg = 200)
(* -- building -- *)
BPool == {C("s", <<<<0, 1>>>>, 1, 1), C("s", <<<<0, 2>>>>, 2, 2), C("s", <<<<1, 3>>>>, 2, 3), C("r", <<<<0, 2>>>>, 3, 4), C("s", <<<<2, 3>>>>, 1, 5), C("s", <<>>, 1, 6)}
BOps == {[op |-> "reveal", d |-> d, x |-> x] : d \in {"s", "r"}, x \in {<<<<0, 1>>>>, <<<<0, 2>>>>, <<<<0, 3>>>>, <<<<2, 3>>>>, <<>>}}
Builds == {[ev |-> "build", t |-> T, sec |-> SetToSortSeq(S, LAMBDA a, b : a.b < b.b), kinds |-> k, ops |-> o] :
             S \in SUBSET BPool, k \in {<<>>, <<2>>, <<2, 1>>, <<3, 2, 1>>, <<1, 1, 2>>}, o \in UpTo(BOps, 2)}
Init == \/ Family = "config" /\ e \in Config
        \/ Family = "proof" /\ \E c \in Coms, s \in UpTo(Secs, 2), p \in PTs, v \in {<<1, 2, 3>>, <<1, 2, 3, 200>>} :
              e = [ev |-> "verify", t |-> T, com |-> c, sec |-> s, p |-> p, len |-> <<3, 2>>, prov |-> v] /\ Near(e)
        \/ Family = "build" /\ e \in Builds
Spec == Init /\ [][FALSE /\ UNCHANGED e]_e
(* an accepted proof shows only bytes of the transcript, only where committed          *)
Sound == e.ev = "verify" /\ Accept(e) =>
           LET p == Claim(e) IN /\ \A q \in p.sa : p.s[q + 1] = e.t.s[q + 1]
                                /\ \A q \in p.ra : p.r[q + 1] = e.t.r[q + 1]
                                /\ p.sa \subseteq Covered(e.com, "s") /\ p.ra \subseteq Covered(e.com, "r")
                                /\ Len(p.s) = Len(e.t.s) /\ Len(p.r) = Len(e.t.r)
(* what can be built is accepted, whichever usable openings cover the query            *)
Works == e.ev = "build" /\ Buildable(e, Query(e)) =>
           LET q == Query(e)
               rs(S) == LET a == Asc(S) IN [k \in 1..Len(a) |-> <<a[k], a[k] + 1>>]
               f == [ev |-> "verify", t |-> e.t, com |-> e.sec, sec |-> SetToSeq({e.sec[k] : k \in Choice(e, q)}),
                     p |-> [s |-> At(e.t.s, q.s), r |-> At(e.t.r, q.r), sx |-> rs(q.s), rx |-> rs(q.r), sn |-> 3, rn |-> 2],
                     len |-> <<3, 2>>, prov |-> <<1, 2, 3>>] IN Accept(f)
(* a query is answered whenever one kind's commitments make it up                       *)
OneKind == e.ev = "build" => LET q == Query(e) IN
   (e.kinds = <<2>> /\ q.r = {} /\ UNION {Idx(e.sec[k].x) : k \in Usable(e, "s", 2, q.s)} = q.s) => Buildable(e, q)
Emit == PrintT("SCN " \o ToJson(e))
==============================================================================
