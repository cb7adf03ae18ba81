----------------------------- MODULE FollowerMC -----------------------------
(* Everything a leader may tell a follower, of one family. *)
EXTENDS Follower, Json
CONSTANTS Family_, Depth
VARIABLES f, h, pre
vars == <<f, h, pre>>
O(x) == [op |-> x]
Sh(w) == [op |-> "sh", how |-> w]
Vdm(o, x) == [op |-> o, h |-> x]
OutP(c, x, p) == [op |-> "out", c |-> c, h |-> x, n |-> 9, pf |-> p]
OutC(c) == OutP(c, 1, IF TypeOf(c) = "app" THEN "none" ELSE "ok")
InP(c, x, how) == [op |-> "in", c |-> c, h |-> x, n |-> 11, how |-> how]
InC(c) == InP(c, 2, "ok")
Fl(d) == [op |-> "flush", dec |-> d]
Cfg(low) == [op |-> "new", id |-> 7, ns |-> 6, nr |-> 6, ms |-> 40, mo |-> 30, mr |-> 40, defer |-> TRUE, low |-> low]
Cfgs == IF Family_ = "hello" THEN {Cfg(FALSE), Cfg(TRUE)} ELSE IF Family_ = "order" THEN {Cfg(TRUE)} ELSE {Cfg(FALSE)}
P(k) == SubSeq(<<O("cr"), Sh("ok"), Vdm("cf", 1), OutC("fin"), Fl(FALSE), InC("fin"), Vdm("sf", 2), Fl(FALSE), O("start")>>, 1, k)
Openings == CASE Family_ = "order" -> {P(0), P(1), P(2), P(4)} [] Family_ = "ends" -> {P(2)} [] Family_ = "hello" -> {P(0)} [] OTHER -> {P(9)}
TailOps == CASE Family_ = "order" -> <<OutC("close"), InC("close"), Fl(FALSE), O("close"), O("ftr")>>
             [] Family_ = "hello" -> Tail(Tail(P(9))) \o <<OutC("data"), InC("data"), Fl(TRUE), O("close"), O("ftr")>>
             [] Family_ = "ends" -> <<Fl(FALSE), O("close"), O("ftr")>>
             [] OTHER -> <<OutC("close"), Fl(FALSE), O("close"), O("ftr")>>
Skip == O("start")
Contents == {"fin", "other", "short", "long", "hid", "data", "close"}
Lasts == {"fin", "data", "close", "warn", "fatal", "mal", "ccs", "other"}
EndMenus == <<{Vdm("cf", 1), Vdm("cf", 2), Skip}, {Vdm("sf", 2), Skip},
              {OutC(c) : c \in Contents} \cup {OutP("fin", 2, "ok"), OutP("fin", 1, "none"), Skip},
              {InC(c) : c \in Contents} \cup {InP("fin", 1, "ok"), Skip},
              {OutC(c) : c \in Lasts} \cup {OutP("close", 0, "none"), Skip}, {InC(c) : c \in Lasts} \cup {Skip}>>
Hellos == {Sh(x) : x \in {"ok", "p5", "m4", "m6", "p7", "zero", "max", "group", "x25519", "point", "trunc", "empty", "infinity"}}
HelloMenus == <<{O("cr"), Skip}, Hellos, {O("cr"), Skip} \cup Hellos>>
OrderOps == {O("cr"), Sh("ok"), Vdm("cf", 1), Vdm("sf", 2), OutC("fin"), InC("fin"), OutC("data"), InC("data"), Fl(FALSE), Fl(TRUE), O("close")}
DataOps == {OutC("data"), OutC("close"), OutP("data", 1, "ok"), OutP("close", 1, "none"), OutP("data", 1, "huge"), OutP("close", 1, "len"), InC("data"), InC("close"),
            InP("data", 2, "tag"), InP("close", 2, "ct"), InP("data", 2, "tag3"), InP("data", 2, "nonce3"), InP("close", 2, "tag0"), InP("close", 2, "nonce3"), Fl(TRUE), Fl(FALSE)}
N == Len(h) - 1
D == N - Len(pre)
Ops == CASE Family_ = "order" -> OrderOps [] Family_ = "ends" -> EndMenus[D + 1] [] Family_ = "hello" -> HelloMenus[D + 1] [] OTHER -> DataOps
Menu == IF N < Len(pre) THEN {pre[N + 1]}
        ELSE IF D < Depth THEN Ops
        ELSE IF D - Depth < Len(TailOps) THEN {TailOps[D - Depth + 1]} ELSE {}
Init == /\ pre \in Openings
        /\ \E g \in Cfgs : f = FStart(g) /\ h = <<g @@ [out |-> [l |-> OK, f |-> "run"]]>>
Next == /\ \E e \in Menu : LET r == FAct(f, e) IN f' = r.f /\ h' = Append(h, e @@ [out |-> [l |-> r.l, f |-> r.f.F]])
        /\ UNCHANGED pre
Spec == Init /\ [][Next]_vars
Bare(e) == [k \in DOMAIN e \ {"out"} |-> e[k]]
Emit == IF Menu = {} THEN PrintT("SCN " \o ToJson([i \in 1..Len(h) |-> Bare(h[i])])) ELSE TRUE

(* ---- what must hold, of the messages alone --------------------------- *)
Msgs(op) == SelectSeq(h, LAMBDA e: e.op = op)
At(op) == CHOOSE i \in 1..Len(h) : h[i].op = op /\ \A j \in 1..(i - 1) : h[j].op # op
\* a transcript is given only of a session that went as sessions go
Sound == (\E i \in 1..Len(h) : h[i].op = "ftr" /\ h[i].out.l.r = "done") =>
  /\ \A o \in {"cr", "sh", "cf", "sf"} : Len(Msgs(o)) = 1
  /\ At("cr") < At("sh") /\ At("sh") < At("cf") /\ At("sh") < At("sf")
  /\ Msgs("sh")[1].how \in InTime
  /\ LET w == Msgs("out")  r == Msgs("in") IN
     /\ w # <<>> /\ r # <<>>
     /\ w[1].c = "fin" /\ w[1].h = Msgs("cf")[1].h /\ w[1].pf = "ok"
     /\ r[1].c = "fin" /\ r[1].h = Msgs("sf")[1].h
     /\ Last(w).c \in {"data", "hid", "close"} /\ Last(r).c \in {"data", "hid", "close"}
     \* everything but application data was shown to the follower, nothing else was
     /\ \A i \in 1..Len(w) : w[i].pf = (IF TypeOf(w[i].c) = "app" THEN "none" ELSE "ok")
     /\ \A i \in 1..Len(r) : r[i].how = "ok" \/ TypeOf(r[i].c) = "app"
\* no way back
Final == \A i \in 1..Len(h), j \in 1..Len(h) : (i < j /\ h[i].out.f \in {"ok", "err"}) => h[j].out.f = h[i].out.f
=============================================================================
