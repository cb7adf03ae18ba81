---------------------------- MODULE RecordLayer ----------------------------
(* The record layer the two parties of MPC-TLS share (mpc-tls, record_layer).
   Leader and follower are told to send and to receive the same records; the
   leader knows the contents of application data, the follower never does.
   Both are in one state while they are told the same things.

   c.m = "ok"     both are in the state the model is in
         "frozen" a joint step failed: what had been released can still be
                  taken, nothing else is known
         "lone"   the leader alone found the step to have failed: of the
                  follower nothing is known
         "any"    the parties were told different things
   An operation e returns [c, out], out one record for each party; [r |-> "any"]
   stands for whatever is not a panic. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Blk(n) == (n + 15) \div 16
MaxBuffered == (16 * 1024 * 1024) \div (1026 * 16)
OK == [r |-> "ok"]
ERR == [r |-> "err"]
ANY == [r |-> "any"]
NONE == [r |-> "none"]
Two(x) == <<x, x>>

New(e) == [m |-> "ok", ms |-> e.ms, mo |-> e.mo, mr |-> e.mr, ph |-> "online", started |-> FALSE,
           ws |-> 0, rs |-> 0, sent |-> 0, recv |-> 0, onl |-> 0,
           \* blocks of input and keystream, and one-record masks, left for each direction
           ei |-> Blk(e.ms), ek |-> Blk(e.ms), ej |-> e.ns,
           di |-> Blk(e.mo), dk |-> Blk(e.mo), dj |-> e.nr,
           eb |-> <<>>, db |-> <<>>, eq |-> <<>>, dq |-> <<>>, es |-> <<>>, ds |-> <<>>]

Lose(c, m) == [c EXCEPT !.m = IF "any" \in {@, m} THEN "any" ELSE IF "lone" \in {@, m} THEN "lone" ELSE m]

(* ---- pushing --------------------------------------------------------- *)
\* what one party answers, given what it is told of the plaintext ("len" and "huge":
\* a length other than the plaintext's, or beyond every limit)
EncRefused(c, e) == Len(c.eb) >= MaxBuffered \/ c.sent + e.n > c.ms
EncBad(typ, how) == how \in {"len", "huge"} \/ (how = "none" /\ typ # "app")
Normal(e) == e.pl = "ok" /\ e.pf = (IF e.typ = "app" THEN "none" ELSE "ok")
PushEnc(c, e) ==
  IF EncRefused(c, e) \/ (e.pl = "huge" /\ e.pf = "huge") THEN [c |-> c, out |-> Two(ERR)]
  ELSE LET side(h) == IF EncBad(e.typ, h) THEN ERR ELSE OK IN
       [c |-> IF Normal(e)
              THEN [c EXCEPT !.ws = @ + 1, !.sent = @ + e.n, !.eb = Append(@, [seq |-> c.ws, typ |-> e.typ, n |-> e.n])]
              ELSE Lose(c, "any"),
        out |-> <<side(e.pl), side(e.pf)>>]
DecLen(e) == IF e.how = "len" THEN e.n - 1 ELSE e.n
PushDec(c, e) ==
  LET n == DecLen(e) IN
  IF Len(c.db) >= MaxBuffered \/ c.recv + n > c.mr THEN [c |-> c, out |-> Two(ERR)]
  ELSE [c |-> [c EXCEPT !.rs = @ + 1, !.recv = @ + n,
                        !.db = Append(@, [seq |-> c.rs, typ |-> e.typ, n |-> n, ok |-> e.how = "ok"])],
        out |-> Two(OK)]
\* the same push k times
RECURSIVE Rep(_, _, _, _)
Rep(c, e, k, n) ==
  IF k = 0 THEN [c |-> c, out |-> Two([r |-> "n", ok |-> n])]
  ELSE LET x == IF e.dir = "enc" THEN PushEnc(c, e) ELSE PushDec(c, e) IN
       Rep(x.c, e, k - 1, IF x.out[1] = OK THEN n + 1 ELSE n)

(* ---- resources ------------------------------------------------------- *)
\* each application record takes input blocks and keystream, other records
\* keystream only (but never beyond what input is left)
RECURSIVE Use(_, _, _, _)
Use(ops, i, inp, key) ==
  IF i > Len(ops) THEN [ok |-> TRUE, inp |-> inp, key |-> key]
  ELSE LET b == Blk(ops[i].n) IN
       IF b = 0 \/ b > inp \/ b > key THEN [ok |-> FALSE, inp |-> inp, key |-> key]
       ELSE Use(ops, i + 1, IF ops[i].typ = "app" THEN inp - b ELSE inp, key - b)
SumN(ops) == FoldSeq(LAMBDA x, y: x.n + y, 0, ops)
\* the position of the first application record
FirstApp(ops) == LET S == {i \in 1..Len(ops) : ops[i].typ = "app"} IN
                 IF S = {} THEN Len(ops) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j

(* ---- flushing -------------------------------------------------------- *)
Flush(c, e) ==
  IF c.ph # "online" THEN [c |-> c, out |-> Two(ERR)]
  ELSE
  LET E == c.eb
      k == IF e.dec THEN Len(c.db) ELSE FirstApp(c.db) - 1
      D == SubSeq(c.db, 1, k)
      ue == Use(E, 1, c.ei, c.ek)
      ud == Use(D, 1, c.di, c.dk)
      fail(o) == [c |-> Lose(c, "frozen"), out |-> o] IN
  IF E = <<>> /\ D = <<>> THEN [c |-> c, out |-> Two(OK)]
  ELSE IF e.dec /\ c.onl + SumN(D) > c.mo THEN fail(Two(ERR))
  ELSE IF ~ue.ok \/ ~ud.ok \/ Len(E) > c.ej \/ Len(D) > c.dj THEN fail(Two(ERR))
  \* the leader finds out; the follower cannot tell
  ELSE IF \E i \in 1..k : ~D[i].ok THEN [c |-> Lose(c, "lone"), out |-> <<ERR, ANY>>]
  ELSE [c |-> [c EXCEPT !.eb = <<>>, !.db = SubSeq(@, k + 1, Len(@)),
                        !.onl = IF e.dec THEN @ + SumN(D) ELSE @,
                        !.ei = ue.inp, !.ek = ue.key, !.ej = @ - Len(E),
                        !.di = ud.inp, !.dk = ud.key, !.dj = @ - Len(D),
                        !.eq = @ \o E, !.es = @ \o E, !.dq = @ \o D, !.ds = @ \o D],
        out |-> Two(OK)]

(* ---- taking ---------------------------------------------------------- *)
Gated(c, q) == q = <<>> \/ (Head(q).typ = "app" /\ ~c.started)
EncRec(op, leader) == [r |-> "rec", seq |-> op.seq, typ |-> op.typ, n |-> op.n, ct |-> TRUE, tag |-> IF leader THEN "ok" ELSE "none"]
Known(op, leader) == IF leader \/ op.typ # "app" THEN "ok" ELSE "none"
DecRec(op, leader) == [r |-> "rec", typ |-> op.typ, ver |-> TRUE, pt |-> Known(op, leader)]
NextEnc(c) == IF Gated(c, c.eq) THEN [c |-> c, out |-> Two(NONE)]
              ELSE [c |-> [c EXCEPT !.eq = Tail(@)], out |-> <<EncRec(Head(c.eq), TRUE), EncRec(Head(c.eq), FALSE)>>]
NextDec(c) == IF Gated(c, c.dq) THEN [c |-> c, out |-> Two(NONE)]
              ELSE [c |-> [c EXCEPT !.dq = Tail(@)], out |-> <<DecRec(Head(c.dq), TRUE), DecRec(Head(c.dq), FALSE)>>]
Wants(c) == LET w == c.eb # <<>> \/ c.db # <<>> IN
            [c |-> c, out |-> Two([r |-> "w", flush |-> w, empty |-> ~w /\ c.eq = <<>> /\ c.dq = <<>>])]

(* ---- committing ------------------------------------------------------ *)
\* deferred application records are decrypted by the leader alone, with the key
PubOf(ops) == SelectSeq(ops, LAMBDA o: o.typ # "app")
Sent(es, leader) == [i \in 1..Len(es) |-> EncRec(es[i], leader) @@ [nonce |-> TRUE, pt |-> Known(es[i], leader)]]
Recd(ds, leader) == [i \in 1..Len(ds) |-> [r |-> "rec", seq |-> ds[i].seq, typ |-> ds[i].typ, n |-> ds[i].n, pt |-> Known(ds[i], leader), raw |-> TRUE]]
Commit(c) ==
  LET u == Use(PubOf(c.db), 1, c.di, c.dk)
      x == [c EXCEPT !.ph = "complete", !.db = <<>>, !.dq = @ \o c.db, !.ds = @ \o c.db]
      bad == [Lose(c, "frozen") EXCEPT !.ph = "error"] IN
  IF c.ph # "online" THEN [c |-> [c EXCEPT !.ph = "error"], out |-> Two(ERR)]
  ELSE IF c.eb # <<>> THEN [c |-> bad, out |-> Two(ERR)]
  ELSE IF \E i \in 1..Len(c.db) : ~c.db[i].ok THEN [c |-> Lose(bad, "lone"), out |-> <<ERR, ANY>>]
  ELSE IF ~u.ok THEN [c |-> bad, out |-> Two(ERR)]
  ELSE [c |-> x, out |-> <<[r |-> "done", sent |-> Sent(x.es, TRUE), recv |-> Recd(x.ds, TRUE)],
                           [r |-> "done", sent |-> Sent(x.es, FALSE), recv |-> Recd(x.ds, FALSE)]>>]

Op(c, e) == CASE e.op = "penc" -> PushEnc(c, e)
              [] e.op = "pdec" -> PushDec(c, e)
              [] e.op = "many" -> Rep(c, e, e.k, 0)
              [] e.op = "flush" -> Flush(c, e)
              [] e.op = "start" -> [c |-> [c EXCEPT !.started = TRUE], out |-> Two(OK)]
              [] e.op = "wants" -> Wants(c)
              [] e.op = "nenc" -> NextEnc(c)
              [] e.op = "ndec" -> NextDec(c)
              [] e.op = "commit" -> Commit(c)
              \* which secrets have been among the values revealed so far
              [] e.op = "leaks" -> [c |-> c, out |-> Two([r |-> "leaks", what |-> <<>>])]
Do(c, e) ==
  IF e.op = "leaks" THEN Op(c, e)
  ELSE IF c.m = "any" THEN [c |-> c, out |-> Two(ANY)]
  ELSE IF c.m \in {"frozen", "lone"}
  THEN CASE e.op \in {"nenc", "ndec", "start"} ->
              LET x == Op(c, e) IN [x EXCEPT !.out = IF c.m = "lone" THEN <<@[1], ANY>> ELSE @]
         [] e.op \in {"flush", "commit"} -> [c |-> Lose(c, "any"), out |-> Two(ANY)]
         [] OTHER -> [c |-> c, out |-> Two(ANY)]
  ELSE Op(c, e)
\* anything but a panic
Answers == {"ok", "err", "stall", "none", "rec", "done", "n", "w", "state", "keys"}
Match(x, o) == IF x = ANY THEN o.r \in Answers ELSE x = o
=============================================================================
