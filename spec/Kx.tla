--------------------------------- MODULE Kx ----------------------------------
(* The key exchange of three parties: leader and follower together are the
   client. The secret both end up with (hidden from either) is the one the
   server derives from the client key the leader hands out; a conversion that
   went wrong is noticed by both at the end. *)
EXTENDS Naturals, Sequences
Parties == {"L", "F"}
Start(o) == [bad |-> o.bad, st |-> [p \in Parties |-> "init"], key |-> [p \in Parties |-> 0], used |-> [p \in Parties |-> 0], got |-> FALSE, ran |-> FALSE,
             wrong |-> FALSE, part |-> FALSE, lost |-> FALSE, gave |-> [p \in Parties |-> FALSE]]
Other(p) == IF p = "L" THEN "F" ELSE "L"
(* a call by p: in state from it succeeds and leads to to; anywhere else it fails and ends the protocol *)
Move(s, p, from, to) == IF s.st[p] = from THEN [s |-> [s EXCEPT !.st[p] = to], r |-> "ok"] ELSE [s |-> [s EXCEPT !.st[p] = "error"], r |-> "err"]
Num == [n \in 0..2 |-> <<"none", "1", "2">>[n + 1]]
One(s, r) == [s |-> s, out |-> [r |-> r, k |-> "none"]]
(* both call, and need each other; the sender of a message does not wait for it to be read *)
Joint(s, from, to, ready(_)) ==
  LET in(p) == s.st[p] = from
      can(p) == in(p) /\ ready(p)
      t == [p \in Parties |-> IF can("L") /\ can("F") THEN to ELSE "error"] IN
  [s |-> [s EXCEPT !.st = t, !.part = @ \/ ~(can("L") /\ can("F"))],
   ok |-> [p \in Parties |-> IF ~can(p) THEN "err" ELSE IF can(Other(p)) THEN "ok" ELSE "hang"]]
Same(s) == s.used["L"] = s.used["F"]
Act(s0, e) == LET s == [s0 EXCEPT !.lost = s0.part] IN
  CASE e.op = "new" -> One(s, "ok")
    [] e.op = "alloc" -> LET r == Move(s, e.p, "init", "setup") IN One(r.s, r.r)
    [] e.op = "server" -> One([s EXCEPT !.key[e.p] = e.v], "ok")
    [] e.op = "get" -> [s |-> s, out |-> [r |-> "ok", k |-> Num[s.key[e.p]]]]
    [] e.op = "key" -> IF e.p = "L" /\ s.st["L"] = "fkey" THEN One([s EXCEPT !.got = TRUE], "ok") ELSE One(s, "err")
    [] e.op = "setup" -> LET r == Joint(s, "setup", "fkey", LAMBDA p : TRUE) IN [s |-> r.s, out |-> [l |-> r.ok["L"], f |-> r.ok["F"]]]
    [] e.op = "shares" -> LET r == Joint(s, "fkey", "shares", LAMBDA p : s.key[p] # 0) IN
                          [s |-> [r.s EXCEPT !.used = s.key, !.wrong = s.bad # ""], out |-> [l |-> r.ok["L"], f |-> r.ok["F"]]]
    [] e.op = "assign" -> LET r == Move(s, e.p, "shares", "check") IN One([r.s EXCEPT !.gave[e.p] = @ \/ r.r = "ok"], r.r)
    [] e.op = "exec" -> LET d == \A p \in Parties : s.gave[p]
                            v == IF ~d THEN "none" ELSE IF (s.wrong /\ s.bad \in {"L0", "F0"}) \/ ~Same(s) \/ ~s.got THEN "other" ELSE Num[s.used["L"]] IN
                        [s |-> [s EXCEPT !.ran = @ \/ d], out |-> [r |-> "ok", l |-> v, f |-> v]]
    [] OTHER -> IF s.st[e.p] # "check" THEN One([s EXCEPT !.st[e.p] = "error"], "err")
                ELSE IF ~s.ran THEN One([s EXCEPT !.st[e.p] = "error"], "hang")
                ELSE IF s.wrong THEN One([s EXCEPT !.st[e.p] = "error"], "err")
                ELSE One([s EXCEPT !.st[e.p] = "done"], "ok")
(* after a call only one party could make nothing is promised of the other, nor of what has hung *)
Good(r, e) ==
  \/ r.s.lost /\ (e.op = "fin" => e.out.r # "ok")
  \/ e.op \in {"setup", "shares"} /\ (\A k \in {"l", "f"} : r.out[k] = "err" => e.out[k] = "err")
       /\ (r.out.l = "ok" /\ r.out.f = "ok" => e.out = r.out)
       /\ (r.out.l = "hang" => e.out.l \in {"ok", "err", "hang"}) /\ (r.out.f = "hang" => e.out.f \in {"ok", "err", "hang"})
  \/ e.op = "fin" /\ r.out.r = "hang" /\ e.out.r \in {"hang", "err"}
  \/ e.op = "exec" /\ (r.s.part \/ (r.out.l = "none" /\ e.out.l = "none" /\ e.out.f = "none"))
  \/ e.op \notin {"setup", "shares"} /\ e.out = r.out
=============================================================================
