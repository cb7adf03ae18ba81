------------------------------ MODULE Session ------------------------------
(* A session of MPC-TLS: the leader's interface, as the TLS client uses it, and
   the follower that runs along. s.c is the record layer both share.

   s.L  init setup ready active closed, failed (nothing can be had of it any
        more), any (used in a way that is not provided for)
   s.F  new run ok err, any
   s.w, s.r  the contents of the records sent and received so far
   s.cf, s.sf  the handshake hashes verify data was computed of (0: none) *)
EXTENDS RecordLayer
TypeOf(c) == CASE c \in {"fin", "other", "short", "long"} -> "hs" [] c \in {"hid", "data"} -> "app"
               [] c = "ccs" -> "ccs" [] OTHER -> "alert"
SizeOf(e) == CASE e.c \in {"fin", "hid"} -> 16 [] e.c = "short" -> 15 [] e.c = "long" -> 17 [] e.c = "other" -> 4
               [] e.c \in {"mal", "ccs"} -> 1 [] e.c = "data" -> e.n [] OTHER -> 2
PROTO == 32
Start(e) == [L |-> "init", F |-> "new", dec |-> ~e.defer, cf |-> 0, sf |-> 0, w |-> <<>>, r |-> <<>>,
             c |-> New([ns |-> e.ns, nr |-> e.nr, ms |-> e.ms + PROTO, mo |-> e.mo + PROTO, mr |-> e.mr + PROTO])]
GOOD == [r |-> "ok", good |-> TRUE]

\* what both demand of the records of a connection that was closed
FinishedBy(recs, h) == h # 0 /\ recs # <<>> /\ recs[1] = [c |-> "fin", h |-> h]
Ended(recs) == recs # <<>> /\ (TypeOf(Last(recs).c) = "app" \/ Last(recs).c = "close")
Complete(s) == FinishedBy(s.w, s.cf) /\ FinishedBy(s.r, s.sf) /\ Ended(s.w) /\ Ended(s.r)

Is(s, out) == [s |-> s, l |-> out]
\* the leader is used in a way not provided for
Misused(s) == [s |-> [s EXCEPT !.L = "any", !.F = IF @ \in {"ok", "err"} THEN @ ELSE "any"], l |-> ERR]
Fol(s, out) == [s EXCEPT !.F = IF @ # "run" THEN @ ELSE IF out = ANY THEN "any" ELSE IF out = ERR THEN "err" ELSE @]
Rec(e) == [c |-> e.c, h |-> IF e.c \in {"fin"} THEN e.h ELSE 0]
\* on the record layer
OnRl(s, op) == LET x == Do(s.c, op) IN [s |-> Fol([s EXCEPT !.c = x.c], x.out[2]), l |-> x.out[1], f |-> x.out[2]]
PushOut(s, e) ==
  LET t == TypeOf(e.c)
      x == Do(s.c, [op |-> "penc", typ |-> t, n |-> SizeOf(e), pl |-> "ok", pf |-> IF t = "app" THEN "none" ELSE "ok"]) IN
  IF x.out[1] = OK THEN Is([s EXCEPT !.c = x.c, !.w = Append(@, Rec(e))], OK) ELSE Is([s EXCEPT !.c = x.c], x.out[1])
PushIn(s, e) ==
  LET x == Do(s.c, [op |-> "pdec", typ |-> TypeOf(e.c), n |-> SizeOf(e), how |-> e.how]) IN
  IF e.how = "short" THEN Is(s, ERR)
  ELSE IF x.out[1] = OK THEN Is([s EXCEPT !.c = x.c, !.r = Append(@, Rec(e))], OK) ELSE Is([s EXCEPT !.c = x.c], x.out[1])
Vd(s, e, k) ==
  IF s.L # "active" \/ e.short THEN Is(s, ERR)
  ELSE IF s[k] # 0 THEN [s |-> [s EXCEPT !.L = "any", !.F = IF @ = "run" THEN "err" ELSE @], l |-> ANY]
  ELSE Is([s EXCEPT ![k] = e.h], GOOD)
Close(s) ==
  LET x == OnRl(s, [op |-> "commit"])
      fail == [x.s EXCEPT !.L = "failed"] IN
  IF s.F = "err" \/ x.l = ERR THEN Is(fail, ERR)
  ELSE IF x.l = ANY THEN [s |-> [x.s EXCEPT !.L = "any"], l |-> ANY]
  ELSE IF Complete(s) THEN Is([x.s EXCEPT !.L = "closed", !.F = "ok"], OK)
  ELSE Is([fail EXCEPT !.F = "err"], ERR)
Transcript(s, leader) == [r |-> "done", meta |-> TRUE, sent |-> Sent(s.c.es, leader), recv |-> Recd(s.c.ds, leader)]
WithVer(x) == IF x.r = "rec" THEN x @@ [ver |-> TRUE] ELSE x

Call(s, e) ==
  CASE e.op = "alloc" -> IF s.L = "init" THEN Is([s EXCEPT !.L = "setup"], OK) ELSE Misused(s)
    [] e.op = "pre" -> IF s.L = "setup" THEN Is([s EXCEPT !.L = "ready", !.F = "run"], OK) ELSE Misused(s)
    [] e.op \in {"cr", "ks"} -> Is(s, IF s.L = "ready" THEN GOOD ELSE ERR)
    [] e.op = "prep" ->
         IF s.L # "ready" THEN Misused(s)
         ELSE IF e.how = "good" THEN Is([s EXCEPT !.L = "active"], OK)
         ELSE Is([s EXCEPT !.L = "failed", !.F = "err"], ERR)
    [] e.op = "keys" -> Is(s, IF s.L = "active" THEN [r |-> "keys", good |-> TRUE] ELSE ANY)
    [] e.op \in {"cf", "sf"} -> Vd(s, e, e.op)
    [] e.op = "out" -> IF s.L = "active" THEN PushOut(s, e) ELSE Is(s, ERR)
    [] e.op = "in" -> IF s.L = "active" THEN PushIn(s, e) ELSE Is(s, ERR)
    [] e.op = "nout" -> IF s.L \in {"ready", "active", "closed"}
                        THEN LET x == OnRl(s, [op |-> "nenc"]) IN Is([x.s EXCEPT !.F = s.F], WithVer(x.l)) ELSE Is(s, ERR)
    [] e.op = "nin" -> IF s.L \in {"ready", "active", "closed"}
                       THEN LET x == OnRl(s, [op |-> "ndec"]) IN Is([x.s EXCEPT !.F = s.F], x.l) ELSE Is(s, ERR)
    [] e.op = "flush" ->
         IF s.L \in {"ready", "closed"} THEN Is(s, OK)
         ELSE IF s.L # "active" THEN Is(s, ERR)
         ELSE IF s.c.m = "ok" /\ s.c.eb = <<>> /\ s.c.db = <<>> THEN Is(s, OK)
         ELSE LET x == OnRl(s, [op |-> "flush", dec |-> s.dec]) IN Is(x.s, x.l)
    [] e.op = "start" -> IF s.L # "active" THEN Is(s, ERR) ELSE Is([s EXCEPT !.c.started = TRUE], IF s.c.m = "ok" THEN OK ELSE ANY)
    [] e.op = "enable" -> Is([s EXCEPT !.dec = e.b], OK)
    [] e.op = "state" -> Is(s, IF s.L \in {"active", "closed"} /\ s.c.m # "ok" THEN ANY
                               ELSE [r |-> "state", dec |-> s.dec,
                                     empty |-> s.L \notin {"active", "closed"} \/ Wants(s.c).out[1].empty])
    [] e.op = "close" -> IF s.L = "active" THEN Close(s) ELSE Misused(s)
    [] e.op = "finish" -> IF s.L = "closed" THEN Is([s EXCEPT !.L = "failed"], Transcript(s, TRUE)) ELSE Is(s, NONE)
\* what the follower came to
    [] e.op = "ftr" -> Is(s, IF s.F = "ok" THEN Transcript(s, FALSE) ELSE NONE)
Act(s, e) ==
  IF e.op = "ftr" /\ s.F = "any" THEN Is(s, ANY)
  ELSE IF s.L = "any" /\ e.op # "ftr"
  THEN \* a connection whose follower gave up cannot be brought to an end
       Is(s, IF e.op = "close" /\ s.F = "err" THEN ERR ELSE IF e.op = "finish" /\ s.F = "err" THEN NONE ELSE ANY)
  \* a connection that failed stays so
  ELSE IF s.L = "failed" /\ e.op \in {"alloc", "pre", "prep", "close"} THEN Is(s, ERR)
  ELSE Call(s, e)
\* the follower, once the leader is gone, notices sooner or later
FMatch(F, f) == CASE F = "any" -> f \in {"new", "run", "ok", "err"}
                  [] F = "held" -> f \in {"run", "err"}
                  [] OTHER -> F = f
=============================================================================
