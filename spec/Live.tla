-------------------------------- MODULE Live --------------------------------
(* A whole session as its users see it: a prover and a verifier agree on a
   protocol, the prover's application talks to a server, both parties end with
   the connection and the prover proves it; the server, the network or a party
   may spoil that at any point. Between two events everybody does whatever is
   left to do, in any order, so each event has one outcome. Where the code may
   choose (a limit is in blocks, a party may or may not notice that the other
   one is gone), Act is told what was observed and takes it only if allowed.

   p, v   where the parties are: "asks" "accepted" "run" "done" / "asked" "run"
          "done" "rejected", "user" (refused by the other one), "fail", "gone" *)
EXTENDS Integers, Sequences, SequencesExt, TLC
FAILED == {"io", "config", "err"}
Cat(x) == IF x \in FAILED THEN "fail" ELSE x
Sum(q) == FoldSeq(LAMBDA x, y : x + y, 0, q)
Flight == 6                       \* records of the server's part of the handshake
Start(e) ==
  [mode |-> e.mode, lim |-> e.lim, dec |-> e.mode = "proxy" \/ ~e.defer,
   good |-> e.chain = "ok" /\ e.suites = "ok", cut |-> e.cut, flip |-> e.flip,
   p |-> IF e.version = "same" THEN "asks" ELSE "user", v |-> IF e.version = "same" THEN "asked" ELSE "fail",
   conn |-> "no", close |-> FALSE, pend |-> <<>>,      \* the application's end
   rs |-> <<>>, rr |-> <<>>,                           \* application records each way
   held |-> 0, blind |-> FALSE,                        \* records kept undecrypted, a close_notify among them
   got |-> 0, srv |-> 0, n |-> 0,                      \* n: records the server has sent
   hs |-> FALSE, notif |-> FALSE, bye |-> FALSE, late |-> 0, split |-> FALSE, sgone |-> e.cut = 0, seof |-> e.cut = 0, sfail |-> FALSE,
   bad |-> FALSE,                                      \* a record was altered, and nobody has seen it yet
   ends |-> {}, gone |-> {}]

(* within a limit, beyond it, or in the part that depends on blocks *)
Within(q, n, lim) == Sum(q) + n + 16 * (Len(q) + 1) <= lim
Beyond(q, n, lim) == Sum(q) + n > lim + 32
Fits(q, n, lim, seen) == IF Within(q, n, lim) THEN TRUE ELSE IF Beyond(q, n, lim) THEN FALSE ELSE seen

(* The session is over: the connection is what it is, or nothing *)
Fail(s) == [s EXCEPT !.p = IF @ \in {"gone", "done"} THEN @ ELSE "fail", !.v = IF @ \in {"gone", "done"} THEN @ ELSE "fail", !.seof = TRUE]
Closable(s) == s.mode = "proxy" \/ ((Len(s.rs) > 0 \/ s.notif) /\ (Len(s.rr) > 0 \/ s.bye))
Finish(s, out) ==
  IF s.mode = "mpc" /\ s.blind /\ ~Within(s.rr, 2, s.lim.online) /\ out.p \in FAILED THEN Fail(s)
  ELSE IF s.bad \/ ~Closable(s) \/ s.gone # {} \/ (s.mode = "proxy" /\ s.late > 0) THEN Fail(s)
  ELSE [s EXCEPT !.p = "done", !.v = "done", !.seof = TRUE,
                 !.got = IF s.conn \in {"open", "closed"} THEN Sum(s.rr) ELSE @]
(* the server goes away *)
Leave(s, out) == LET t == [s EXCEPT !.sgone = TRUE, !.seof = TRUE] IN
            IF s.p # "run" THEN t
            ELSE IF ~s.hs THEN Fail(t) ELSE Finish(t, out)
(* the application writes n bytes *)
Put(s, n, out) ==
  IF n = 0 THEN s
  ELSE IF s.gone # {} THEN Fail(s)
  ELSE IF s.mode = "proxy" \/ Fits(s.rs, n, s.lim.sent, out.p \notin FAILED)
       THEN [s EXCEPT !.rs = Append(@, n), !.srv = @ + n]
       ELSE Fail(s)
(* the application closes; the alert counts as data sent *)
Shut(s, how, out) ==
  IF s.gone # {} /\ out.p \in FAILED THEN Fail([s EXCEPT !.conn = how])
  ELSE IF s.gone # {} /\ (s.notif \/ ~Within(s.rs, 2, s.lim.sent)) THEN [s EXCEPT !.conn = how]
  ELSE IF s.gone # {} THEN Fail([s EXCEPT !.conn = how])
  ELSE IF s.mode = "mpc" /\ ~Within(s.rs, 2, s.lim.sent) /\ out.p \in FAILED THEN Fail([s EXCEPT !.conn = how])
  ELSE [s EXCEPT !.conn = how, !.notif = @ \/ s.mode = "proxy" \/ Fits(s.rs, 2, s.lim.sent, out.bye)]
(* one record of the server arrives: it is decrypted at once unless it is to be
   kept, or follows one which is kept; what follows close_notify is ignored *)
Arrive(s, n, kind, out) ==
  LET k == s.n
      t == [s EXCEPT !.n = @ + 1]
      alt == s.flip = k
      now == s.dec \/ (kind = "alert" /\ s.held = 0)
      fits == s.mode = "proxy" \/ (/\ Fits(s.rr, n, s.lim.recv, out.p \notin FAILED)
                                  /\ (now => Fits(s.rr, n, s.lim.online, out.p \notin FAILED)))
      u == IF s.bye /\ ~s.blind THEN [t EXCEPT !.late = @ + 1]
           ELSE IF s.gone # {} \/ (alt /\ now) \/ ~fits THEN Fail(t)
           ELSE IF kind = "alert" THEN [t EXCEPT !.bye = TRUE, !.bad = @ \/ alt, !.blind = ~now, !.held = IF now THEN @ ELSE @ + 1]
           ELSE [t EXCEPT !.rr = Append(@, n), !.bad = @ \/ alt, !.held = IF now THEN @ ELSE @ + 1,
                          !.got = IF now /\ s.conn \in {"open", "closed"} THEN @ + n ELSE @] IN
  IF s.cut = k THEN Leave(s, out) ELSE IF u.p = "run" /\ u.cut = u.n THEN Leave(u, out) ELSE u

Connect(s, out) ==
  IF s.p # "accepted" THEN s
  ELSE IF s.mode = "proxy" /\ "v" \in s.gone THEN [s EXCEPT !.p = "fail"]
  ELSE LET t == [s EXCEPT !.p = "run", !.conn = "open", !.n = Flight]
           broken == ~s.good \/ (s.cut \in 0..(Flight - 1)) \/ s.flip \in 0..(Flight - 1) \/ "v" \in s.gone \/ s.sgone IN
       IF broken THEN Fail([t EXCEPT !.n = 0])
       ELSE LET u == [t EXCEPT !.hs = TRUE]
                w == IF s.pend = <<>> THEN u ELSE Put(u, Sum(s.pend), out)
                x == IF s.close /\ w.p = "run" THEN Shut(w, "closed", out) ELSE w IN
            
            \* the server may go before it has what the application was quick to send:
            \* then the proxy did not see it pass, and the parties differ
            IF x.p = "run" /\ x.cut = Flight
            THEN Leave([x EXCEPT !.srv = out.srv, !.notif = out.bye, !.split = s.mode = "proxy" /\ (s.pend # <<>> \/ s.close)], out)
            ELSE x

(* a party is gone, with its sockets *)
Vanish(s, who, out) ==
  IF who \in s.gone THEN IF who = "p" THEN [s EXCEPT !.p = "gone"] 
                      ELSE IF s.p = "run" /\ out.p \in FAILED THEN [Fail(s) EXCEPT !.v = "gone"] ELSE [s EXCEPT !.v = "gone"]
  ELSE LET t == [s EXCEPT !.gone = @ \cup {who}] IN
       IF who = "p"
       THEN [t EXCEPT !.p = "gone", !.v = IF @ \in {"run", "proves"} THEN "fail" ELSE @,
                      !.seof = @ \/ s.p = "run" \/ (s.mode = "proxy" /\ s.v = "run"), !.sgone = @ \/ s.p = "run" \/ (s.mode = "proxy" /\ s.v = "run")]
       ELSE IF s.mode = "proxy" /\ s.v = "run" THEN [t EXCEPT !.v = "gone", !.p = IF @ = "run" THEN "fail" ELSE @, !.seof = TRUE, !.sgone = TRUE]
       ELSE LET u == [t EXCEPT !.v = "gone", !.p = IF @ = "asks" THEN "fail" ELSE @] IN
            IF s.p = "run" /\ out.p \in FAILED THEN Fail(u) ELSE u

(* both parties closed the session: whoever still needs the other one fails *)
Over(s, out) == LET t == [s EXCEPT !.v = IF @ = "run" THEN "fail" ELSE @, !.p = IF @ = "asks" THEN "fail" ELSE @,
                                 !.gone = IF s.p \in {"asks", "accepted"} THEN {"p", "v"} ELSE @] IN
  IF s.p # "run" THEN IF s.mode = "proxy" /\ s.v = "run" THEN [t EXCEPT !.sgone = TRUE, !.seof = TRUE] ELSE t
  ELSE IF s.mode = "proxy" \/ ~s.hs THEN Fail(t) ELSE [t EXCEPT !.gone = @ \cup {"v"}]

Act(s, e, out) ==
  CASE e.ev = "answer" ->
         IF s.v # "asked" THEN s
         ELSE IF "p" \in s.gone
              THEN [s EXCEPT !.v = IF e.yes THEN "fail" ELSE IF Cat(out.v) \in {"fail", "rejected"} THEN Cat(out.v) ELSE "fail",
                             !.sgone = @ \/ (e.yes /\ s.mode = "proxy"), !.seof = @ \/ (e.yes /\ s.mode = "proxy")]
         ELSE IF e.yes THEN [s EXCEPT !.p = "accepted", !.v = "run"] ELSE [s EXCEPT !.p = "user", !.v = "rejected"]
    [] e.ev = "connect" -> Connect(s, out)
    [] e.ev = "write" ->
         IF s.conn = "no" THEN [s EXCEPT !.pend = Append(@, e.n)]
         ELSE IF s.conn = "open" /\ s.p = "run" THEN Put(s, e.n, out) ELSE s
    [] e.ev = "close" ->
         IF s.conn = "open" /\ s.p = "run" THEN Shut(s, "closed", out) ELSE [s EXCEPT !.close = TRUE]
    [] e.ev = "drop" ->
         IF s.conn \in {"open", "closed"} THEN IF s.p = "run" THEN Shut(s, "dropped", out) ELSE [s EXCEPT !.conn = "dropped"] ELSE s
    [] e.ev = "defer" ->
         IF s.conn = "no" \/ s.mode = "proxy" \/ s.p # "run" THEN s
         ELSE IF s.gone # {} /\ out.p \in FAILED THEN Fail(s)
         ELSE IF s.conn # "open" \/ s.dec = ~e.on THEN s
         ELSE IF e.on THEN [s EXCEPT !.dec = FALSE]
         ELSE IF s.bad \/ (s.held > 0 /\ (s.gone # {} \/ ~Fits(s.rr, 0, s.lim.online, out.p \notin FAILED))) THEN Fail(s)
         ELSE [s EXCEPT !.dec = TRUE, !.held = 0, !.blind = FALSE, !.got = Sum(s.rr)]
    [] e.ev = "send" ->
         IF s.p # "run" \/ ~s.hs \/ s.sgone \/ e.n = 0 THEN s ELSE Arrive(s, e.n, "app", out)
    [] e.ev = "bye" ->
         LET t == IF s.p # "run" \/ s.sgone \/ ~s.hs \/ s.bye THEN s ELSE Arrive(s, 2, "alert", out) IN
         IF e.cut /\ ~t.sgone THEN Leave(t, out) ELSE t
    [] e.ev = "cut" -> IF s.sgone THEN s ELSE Leave(s, out)
    [] e.ev = "flip" -> [s EXCEPT !.flip = s.n]
    [] e.ev = "vanish" -> Vanish(s, e.who, out)
    [] e.ev = "prove" ->
         IF s.p # "done" \/ s.v # "done" THEN s
         ELSE IF s.ends \cup s.gone = {"p", "v"} \/ (s.split /\ out.p \in FAILED) THEN [s EXCEPT !.p = "fail", !.v = "fail"]
         ELSE IF ~e.yes THEN [s EXCEPT !.p = "user"] ELSE s
    [] e.ev = "end" ->
         LET t == [s EXCEPT !.ends = @ \cup {e.who}] IN
         IF t.ends \cup t.gone = {"p", "v"} THEN Over(t, out) ELSE t
    [] OTHER -> s

(* ---- what is seen ----------------------------------------------------- *)
Eof(s) == s.conn \in {"open", "closed"} /\ s.p # "run"
(* what had just arrived when somebody failed may be lost *)
Upto(s, x, y) == IF s.p \in {"fail", "gone"} \/ s.v = "fail" THEN x <= y ELSE x = y
Match(s, e, out) ==
  /\ out.calm
  /\ Cat(out.p) = s.p /\ Cat(out.v) = s.v
  /\ out.appok /\ Upto(s, out.app, s.got)
  /\ out.srvok /\ Upto(s, out.srv, s.srv)
  /\ IF s.p = "fail" THEN out.bye => s.notif ELSE out.bye = s.notif
  /\ (s.conn # "dropped" => out.eof = Eof(s))
  /\ out.seof = s.seof
  /\ (s.p = "done" /\ ~s.split => out.held.p.ok /\ out.held.p.rs = s.rs /\ out.held.p.rr = s.rr /\ out.held.same)
  /\ (s.v = "done" /\ ~s.split => out.held.v.rs = s.rs /\ out.held.v.rr = s.rr)
  /\ (IF e.ev = "prove" /\ e.yes /\ s.p = "done" /\ s.v = "done"
      THEN out.x = [got |-> TRUE, name |-> "server.io", sent |-> TRUE, recv |-> TRUE]
      ELSE ~out.x.got)
=============================================================================
