----------------------------- MODULE SessionMC -----------------------------
(* Sessions of one family: a beginning, Depth operations of a menu, an end.
   The properties speak of h, what was done and answered. *)
EXTENDS Session, Json
CONSTANTS Family_, Depth
VARIABLES s, h, pre
vars == <<s, h, pre>>
O(x) == [op |-> x]
Prep(w) == [op |-> "prep", how |-> w]
Cf(x) == [op |-> "cf", h |-> x, short |-> FALSE]
Sf(x) == [op |-> "sf", h |-> x, short |-> FALSE]
Bad(o) == [op |-> o, h |-> 1, short |-> TRUE]
OutX(c, x, n) == [op |-> "out", c |-> c, h |-> x, n |-> n]
InX(c, x, n, how) == [op |-> "in", c |-> c, h |-> x, n |-> n, how |-> how]
OutC(c) == OutX(c, 1, 9)
InC(c) == InX(c, 2, 11, "ok")
Enable(b) == [op |-> "enable", b |-> b]
Cfg(defer, low, ms, mo, mr) == [op |-> "new", id |-> 5, ns |-> 6, nr |-> 6, ms |-> ms, mo |-> mo, mr |-> mr, defer |-> defer, low |-> low]
Cfgs == CASE Family_ = "life" -> {Cfg(TRUE, FALSE, 64, 64, 64)}
          [] Family_ = "hs" -> {Cfg(FALSE, TRUE, 64, 64, 64)}
          [] OTHER -> {Cfg(TRUE, FALSE, 20, 10, 30), Cfg(FALSE, FALSE, 64, 40, 64)}
P(k) == SubSeq(<<O("alloc"), O("pre"), O("cr"), O("ks"), Prep("good"), O("keys"), Cf(1), OutC("fin"), O("flush"), O("nout"),
                 InC("fin"), O("flush"), O("nin"), Sf(2), O("start")>>, 1, k)
Openings == CASE Family_ = "life" -> {P(0), P(1), P(2), P(5), P(15)}
              [] Family_ = "hs" -> {P(6)}
              [] OTHER -> {P(15)}
End == <<O("state"), OutC("close"), InC("close"), O("flush"), O("close"), O("nin"), O("nin"), O("nin"), O("nout"), O("nout"), O("finish"), O("finish"), O("ftr"), O("state")>>
TailOps == CASE Family_ = "life" -> <<O("close"), O("finish"), O("ftr"), O("state")>>
             [] Family_ = "hs" -> <<O("flush"), O("start"), O("nin"), O("close"), O("nin"), O("finish"), O("ftr")>>
             [] OTHER -> End
Skip == O("state")
FirstOut == {OutC(c) : c \in {"fin", "other", "short", "long", "hid", "data", "close"}} \cup {OutX("fin", 2, 0), Skip}
FirstIn == {InC(c) : c \in {"fin", "other", "short", "long", "hid", "data", "close"}} \cup {InX("fin", 1, 0, "ok"), Skip}
LastOut == {OutC(c) : c \in {"fin", "data", "close", "warn", "fatal", "mal", "ccs", "other"}} \cup {Skip}
LastIn == {InC(c) : c \in {"fin", "data", "close", "warn", "fatal", "mal", "ccs", "other"}} \cup {Skip}
Menus == <<{Cf(1), Cf(2), Bad("cf"), Skip}, {Sf(2), Skip}, FirstOut, FirstIn, LastOut, LastIn>>
LifeOps == {O(x) : x \in {"alloc", "pre", "cr", "ks", "nout", "nin", "flush", "start", "state", "close", "finish", "ftr"}}
             \cup {Prep("good"), Prep("group"), Prep("point"), Prep("curve"), Cf(1), Sf(2), OutC("fin"), InC("fin"), InX("data", 2, 4, "short"), Enable(TRUE)}
DataOps == {OutC("data"), OutC("close"), InC("data"), InC("close"), InX("data", 2, 11, "tag"), InX("close", 2, 0, "ct"), O("flush"), Enable(TRUE), Enable(FALSE),
            O("nout"), O("nin"), O("close")}
N == Len(h) - 1
D == N - Len(pre)
Ops == CASE Family_ = "life" -> LifeOps [] Family_ = "hs" -> Menus[D + 1] [] OTHER -> DataOps
Menu == IF N < Len(pre) THEN {pre[N + 1]}
        ELSE IF D < Depth THEN Ops
        ELSE IF D - Depth < Len(TailOps) THEN {TailOps[D - Depth + 1]} ELSE {}
Init == /\ pre \in Openings
        /\ \E g \in Cfgs : s = Start(g) /\ h = <<g @@ [out |-> [l |-> OK, f |-> "new"]]>>
Next == /\ \E e \in Menu : LET r == Act(s, e) IN s' = r.s /\ h' = Append(h, e @@ [out |-> [l |-> r.l, f |-> r.s.F]])
        /\ UNCHANGED pre
Spec == Init /\ [][Next]_vars
Bare(e) == [k \in DOMAIN e \ {"out"} |-> e[k]]
Emit == IF Menu = {} THEN PrintT("SCN " \o ToJson([i \in 1..Len(h) |-> Bare(h[i])])) ELSE TRUE

(* ---- what must hold -------------------------------------------------- *)
Idx(op) == {i \in 1..Len(h) : h[i].op = op}
Before(i) == SubSeq(h, 1, i - 1)
Did(i, op) == SelectSeq(Before(i), LAMBDA e: e.op = op /\ e.out.l.r = "ok")
Closed == {i \in Idx("close") : h[i].out.l = OK}
Given == {i \in Idx("finish") : h[i].out.l.r = "done"}
\* a connection is closed only after both Finished messages were computed, sent and received as computed,
\* and both directions ended
ClosedProperly == \A i \in Closed :
  LET w == Did(i, "out")  r == Did(i, "in")  cf == Did(i, "cf")  sf == Did(i, "sf") IN
  /\ Len(cf) = 1 /\ Len(sf) = 1 /\ w # <<>> /\ r # <<>>
  /\ w[1].c = "fin" /\ w[1].h = cf[1].h /\ r[1].c = "fin" /\ r[1].h = sf[1].h
  /\ Last(w).c \in {"data", "hid", "close"} /\ Last(r).c \in {"data", "hid", "close"}
  /\ \A j \in 1..Len(r) : r[j].how = "ok"
\* nothing of the session before the keys, nothing after it was closed
Phases == \A i \in 1..Len(h) : h[i].op \in {"out", "in", "cf", "sf", "start"} /\ h[i].out.l.r = "ok" =>
  /\ \E j \in 1..(i - 1) : h[j].op = "prep" /\ h[j].out.l = OK
  /\ \A j \in 1..(i - 1) : j \notin Closed
\* the transcript is given once, of a closed connection, and both have the same
OneTranscript == Cardinality(Given) <= 1 /\ \A i \in Given : \E j \in Closed : j < i
SameTranscript == \A i \in Given, j \in Idx("ftr") : h[j].out.l.r = "done" =>
  LET a == h[i].out.l  b == h[j].out.l IN
  /\ Len(a.sent) = Len(b.sent) /\ Len(a.recv) = Len(b.recv)
  /\ \A k \in 1..Len(a.sent) : a.sent[k].typ = b.sent[k].typ /\ a.sent[k].pt = "ok" /\ (b.sent[k].pt = "ok" <=> a.sent[k].typ # "app")
  /\ \A k \in 1..Len(a.recv) : a.recv[k].typ = b.recv[k].typ /\ a.recv[k].pt = "ok" /\ (b.recv[k].pt = "ok" <=> a.recv[k].typ # "app")
\* the leader gets to a transcript only together with the follower
Together == \A i \in Closed : h[i].out.f = "ok"
\* no application data leaves before traffic starts
Gate == \A i \in Idx("nout") \cup Idx("nin") : (h[i].out.l.r = "rec" /\ h[i].out.l.typ = "app") => \E j \in Idx("start") : j < i
\* with decryption deferred, application data is had after the end only
Deferral == \A i \in Idx("nin") : (h[i].out.l.r = "rec" /\ h[i].out.l.typ = "app" /\ h[1].defer)
   => \E j \in 1..(i - 1) : j \in Closed \/ (h[j].op = "enable" /\ h[j].b)
=============================================================================
