--------------------------- MODULE RecordLayerMC ---------------------------
(* Every sequence of operations of one family, up to Depth, followed by the
   taking of everything. h is what was done and answered; the properties speak
   only of h. Each maximal behaviour is a scenario for the real pair. *)
EXTENDS RecordLayer, Json
CONSTANTS Family_, Depth
VARIABLES c, h
vars == <<c, h>>
Enc(t, n) == [op |-> "penc", typ |-> t, n |-> n, pl |-> "ok", pf |-> IF t = "app" THEN "none" ELSE "ok"]
EncX(t, n, a, b) == [op |-> "penc", typ |-> t, n |-> n, pl |-> a, pf |-> b]
Dec(t, n, how) == [op |-> "pdec", typ |-> t, n |-> n, how |-> how]
ManyE(t, k, n) == Enc(t, n) @@ [k |-> k, dir |-> "enc"]
FlushT == [op |-> "flush", dec |-> TRUE]
FlushF == [op |-> "flush", dec |-> FALSE]
O(x) == [op |-> x]
Cfg(ns, nr, ms, mo, mr) == [op |-> "new", id |-> 3, ns |-> ns, nr |-> nr, ms |-> ms, mo |-> mo, mr |-> mr]
Types == {"app", "hs", "alert", "ccs", "hb", "junk"}
Cfgs == CASE Family_ = "lim" -> {Cfg(2, 2, 33, 16, 33), Cfg(2, 2, 32, 32, 32), Cfg(3, 1, 16, 33, 40), Cfg(1, 3, 48, 0, 17)}
          [] Family_ = "many" -> {Cfg(1030, 1030, 20000, 20000, 20000), Cfg(1100, 1100, 1022, 900, 1022)}
          [] Family_ = "how" -> {Cfg(3, 3, 80, 48, 80)}
          [] OTHER -> {Cfg(6, 6, 160, 160, 160)}
Ops == CASE Family_ = "enc" -> {Enc("app", 5), Enc("app", 33), Enc("hs", 16), Enc("alert", 2), FlushF, O("start"), O("nenc"), O("wants")}
         [] Family_ = "dec" -> {Dec("app", 5, "ok"), Dec("app", 33, "ok"), Dec("alert", 2, "ok"), FlushF, FlushT, O("start"), O("ndec"), O("wants")}
         [] Family_ = "how" -> {Dec(t, 18, w) : t \in {"app", "alert", "hs"}, w \in {"ok", "tag", "ct", "seq", "typ", "ver", "nonce", "len"}}
                                 \cup {FlushF, FlushT}
         [] Family_ = "lim" -> {Enc("app", 16), Enc("app", 17), Enc("hs", 1), Enc("app", 0), Dec("app", 16, "ok"), Dec("app", 17, "ok"),
                                Dec("hs", 1, "ok"), FlushF, FlushT}
         [] Family_ = "both" -> {Enc("app", 5), Enc("alert", 2), Dec("app", 17, "ok"), Dec("alert", 2, "ok"), FlushF, FlushT, O("start"), O("commit"), O("ndec"), O("nenc")}
         [] Family_ = "told" -> {EncX(t, n, a, b) : t \in Types, n \in {3}, a \in {"ok", "none", "len"}, b \in {"ok", "none", "len"}}
                                 \cup {Dec(t, 3, "ok") : t \in Types} \cup {FlushT}
         [] Family_ = "huge" -> {EncX(t, n, a, b) : t \in {"app", "hs"}, n \in {3}, a \in {"ok", "huge"}, b \in {"ok", "none", "huge"}} \cup {FlushF}
         [] OTHER -> {ManyE(t, k, 1) : t \in {"app", "hs"}, k \in {1021, 1022, 1023, 1024}}
                       \cup {Dec("app", 1, "ok") @@ [k |-> k, dir |-> "dec"] : k \in {1022, 1023}}
TailOps == IF Family_ = "many" THEN <<O("wants")>>
           ELSE <<FlushF, O("commit"), O("start"), O("nenc"), O("nenc"), O("nenc"), O("ndec"), O("ndec"), O("ndec"), O("wants"), FlushT, O("leaks")>>
D == Len(h) - 1
Menu == IF D < Depth THEN Ops ELSE IF D - Depth < Len(TailOps) THEN {TailOps[D - Depth + 1]} ELSE {}
Init == \E g \in Cfgs : c = New(g) /\ h = <<g @@ [out |-> Two(OK)]>>
Next == \E e \in Menu : LET r == Do(c, e) IN c' = r.c /\ h' = Append(h, e @@ [out |-> r.out])
Spec == Init /\ [][Next]_vars
Bare(e) == [k \in DOMAIN e \ {"out"} |-> e[k]]
Emit == IF Menu = {} THEN PrintT("SCN " \o ToJson([i \in 1..Len(h) |-> Bare(h[i])])) ELSE TRUE

(* ---- what must hold, in terms of what was done and answered -------------- *)
H(op) == SelectSeq(h, LAMBDA e: e.op = op)
Good(op, k) == SelectSeq(h, LAMBDA e: e.op = op /\ e.out[k] = OK)
SumBy(s, F(_)) == FoldSeq(LAMBDA x, y: F(x) + y, 0, s)
Popped(op, k) == LET x == SelectSeq(h, LAMBDA e: e.op = op /\ e.out[k].r = "rec") IN [i \in 1..Len(x) |-> x[i].out[k]]
Done == SelectSeq(h, LAMBDA e: e.op = "commit" /\ e.out[1].r = "done")
At(e) == CHOOSE i \in 1..Len(h) : h[i] = e
Before(i) == SubSeq(h, 1, i - 1)
Idx(op) == {i \in 1..Len(h) : h[i].op = op}
Pushed == Good("penc", 1)
Given == Good("pdec", 1)

\* R01: what goes to the server is the records pushed, in order, numbered from 0, sealed
Sequenced == \A k \in 1..2 : LET p == Popped("nenc", k) IN
   /\ Len(p) <= Len(Pushed)
   /\ \A i \in 1..Len(p) : /\ p[i].seq = i - 1 /\ p[i].typ = Pushed[i].typ /\ p[i].n = Pushed[i].n
                           /\ p[i].ct /\ (k = 1 => p[i].tag = "ok")
\* R02
WithinLimits == /\ SumBy(Pushed, LAMBDA e: e.n) <= h[1].ms
                /\ SumBy(Given, LAMBDA e: DecLen(e)) <= h[1].mr
                \* nothing decrypted together exceeds what was agreed
                /\ (\A i \in Idx("commit") : Len(SelectSeq(Before(i), LAMBDA e: e.op = "ndec" /\ e.out[1].r = "rec")) <= h[1].nr)
NotTooEarly == \A i \in Idx("penc") : (h[i].out[1] = ERR /\ h[i].pl = "ok") =>
   SumBy(SelectSeq(Before(i), LAMBDA e: e.op = "penc" /\ e.out[1] = OK), LAMBDA e: e.n) + h[i].n > h[1].ms
\* R03: no application data before traffic starts, in either direction
Gate == \A i \in 1..Len(h), k \in 1..2 : (h[i].op \in {"nenc", "ndec"} /\ h[i].out[k].r = "rec" /\ h[i].out[k].typ = "app")
          => \E j \in Idx("start") : j < i
InOrder == \A k \in 1..2 : LET p == Popped("ndec", k) IN
   /\ Len(p) <= Len(Given) /\ \A i \in 1..Len(p) : p[i].typ = Given[i].typ
\* no application record is decrypted together unless decrypting was asked for
Deferred == \A i \in Idx("ndec") : h[i].out[1].r = "rec" /\ h[i].out[1].typ = "app"
              => \E j \in 1..(i - 1) : (h[j].op = "flush" /\ h[j].dec) \/ h[j].op = "commit"
\* R04: application data is the leader's alone
Secret == \A i \in 1..Len(h) : h[i].op = "ndec" /\ h[i].out[2].r = "rec" => ((h[i].out[2].pt = "none") <=> (h[i].out[2].typ = "app"))
\* R05: nothing that does not authenticate, and nothing after it, is released
Authentic == \A i \in 1..Len(Popped("ndec", 1)) : \A j \in 1..i : Given[j].how = "ok"
LeaderNotices == \A i \in Idx("commit") : h[i].out[1].r = "done" => \A e \in ToSet(SelectSeq(Before(i), LAMBDA x: x.op = "pdec" /\ x.out[1] = OK)) : e.how = "ok"
\* R06: the transcript is everything that was sent and received, once
Complete == \A i \in Idx("commit") : h[i].out[1].r = "done" =>
   LET s == SelectSeq(Before(i), LAMBDA x: x.op = "penc" /\ x.out[1] = OK)
       r == SelectSeq(Before(i), LAMBDA x: x.op = "pdec" /\ x.out[1] = OK) IN
   \A k \in 1..2 : LET o == h[i].out[k] IN
     /\ Len(o.sent) = Len(s) /\ \A j \in 1..Len(s) : o.sent[j].typ = s[j].typ /\ o.sent[j].n = s[j].n /\ o.sent[j].seq = j - 1 /\ o.sent[j].nonce
     /\ Len(o.recv) = Len(r) /\ \A j \in 1..Len(r) : o.recv[j].typ = r[j].typ /\ o.recv[j].n = r[j].n /\ o.recv[j].seq = j - 1 /\ o.recv[j].raw
OnceCommitted == \A i \in Idx("commit") : \A j \in (i + 1)..Len(h) : h[j].op \in {"flush", "commit"} => h[j].out[1] \in {ERR, ANY}
NothingPending == \A i \in Idx("commit") : h[i].out[1].r = "done" => h[i].out[2].r = "done"
=============================================================================
