------------------------------ MODULE Follower ------------------------------
(* What the follower of a session makes of the messages it is sent, whoever
   sends them. f.F is "run" until the follower returns: "ok" with a transcript,
   "err" without; "held" if it returns no transcript, or nothing; "any" if it was told what cannot be judged by it. *)
EXTENDS Session
FStart(e) == [F |-> "run", cr |-> FALSE, sh |-> FALSE, cf |-> 0, sf |-> 0, w |-> <<>>, r |-> <<>>, c |-> Start(e).c]
InTime == {"ok", "p5", "m4"}
Fail(f) == [f EXCEPT !.F = "err"]
After(f, x) == [f EXCEPT !.c = x.c, !.F = IF x.out[2] = ERR THEN "err" ELSE IF x.out[2] = ANY THEN "any" ELSE @]
\* nobody can tell the Finished message before the keys are known
Told(f, e) == IF f.sh THEN Rec(e) ELSE [Rec(e) EXCEPT !.h = 0]
Hear(f, e) ==
  CASE e.op = "cr" -> IF f.cr THEN Fail(f) ELSE [f EXCEPT !.cr = TRUE]
    [] e.op = "sh" -> IF f.sh \/ ~f.cr \/ e.how \notin InTime THEN Fail(f) ELSE [f EXCEPT !.sh = TRUE]
    [] e.op \in {"cf", "sf"} -> IF ~f.sh \/ f[e.op] # 0 THEN Fail(f) ELSE [f EXCEPT ![e.op] = e.h]
    [] e.op = "out" ->
         LET x == Do(f.c, [op |-> "penc", typ |-> TypeOf(e.c), n |-> SizeOf(e), pl |-> IF e.pf = "huge" THEN "huge" ELSE "ok", pf |-> e.pf]) IN
         [After(f, x) EXCEPT !.w = Append(@, Told(f, e))]
    [] e.op = "in" ->
         \* there is no key to seal it with before the server hello
         LET x == Do(f.c, [op |-> "pdec", typ |-> TypeOf(e.c), n |-> SizeOf(e), how |-> IF f.sh THEN e.how ELSE "tag"]) IN
         [After(f, x) EXCEPT !.r = Append(@, Told(f, e)),
                             \* the leader here does not take part in what cannot be a record
                             !.F = IF @ = "run" /\ e.how \in {"nonce3", "tag3", "tag0"} THEN "any" ELSE @]
    [] e.op = "start" -> [f EXCEPT !.c.started = TRUE]
    [] e.op = "flush" ->
         LET k == IF e.dec THEN Len(f.c.db) ELSE FirstApp(f.c.db) - 1 IN
         IF ~f.sh THEN IF f.c.eb = <<>> /\ k = 0 THEN f ELSE Fail(f)
         ELSE After(f, Do(f.c, [op |-> "flush", dec |-> e.dec]))
    [] e.op = "close" ->
         LET x == After(f, Do(f.c, [op |-> "commit"])) IN
         \* the keys were never computed: it fails, or waits for a leader who has failed
         IF ~f.sh THEN [f EXCEPT !.F = "held"]
         ELSE IF x.F # "run" THEN x
         ELSE IF Complete(f) THEN [x EXCEPT !.F = "ok"] ELSE [x EXCEPT !.F = "err"]
FAct(f, e) ==
  IF e.op = "ftr" THEN [f |-> f, l |-> IF f.F = "ok" THEN Transcript(f, FALSE) ELSE IF f.F = "any" THEN ANY ELSE NONE]
  \* who has returned hears nothing
  ELSE [f |-> IF f.F = "run" THEN Hear(f, e) ELSE f, l |-> OK]
=============================================================================
