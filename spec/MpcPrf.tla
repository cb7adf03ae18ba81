------------------------------- MODULE MpcPrf --------------------------------
(* The TLS 1.2 PRF of MPC-TLS: two parties, told the same things in the same
   order, derive session keys and finished values from a pre-master secret (or
   a master secret) neither knows. What the callers may rely on (Act, Match);
   how the two network modes get there (Machine) is in MpcPrfMC. *)
EXTENDS Naturals, Sequences
Start(o) == [net |-> o.net, ms |-> o.ms, st |-> "init", cr |-> 0, c |-> 0, s |-> 0, h |-> 0, cf |-> 0, sf |-> 0, pms |-> FALSE,
             fresh |-> FALSE, driven |-> FALSE, odd |-> FALSE]
MsReady(s) == IF s.ms = "std" THEN s.s # 0 ELSE IF s.ms = "ext" THEN s.h # 0 ELSE TRUE
Seeded(s) == s.s # 0 /\ s.cf # 0 /\ s.sf # 0 /\ MsReady(s)
Some(s) == s.s # 0 \/ s.cf # 0 \/ s.sf # 0 \/ s.h # 0
(* RFC 5246 8.1, 6.3, 7.4.9; RFC 7627 4: what each output is a function of *)
Id(s) == IF s.ms = "std" THEN <<s.c, s.s, 0>> ELSE IF s.ms = "ext" THEN <<0, 0, s.h>> ELSE <<0, 0, 0>>
Keys(s) == <<s.c, s.s, Id(s)[3], 0>>
Value(s, k) == IF k = 1 THEN Keys(s) ELSE Append(Id(s), IF k = 2 THEN s.cf ELSE 2 + s.sf)
Ready(s, k) == s.pms /\ MsReady(s) /\ (IF k = 1 THEN s.s # 0 ELSE IF k = 2 THEN s.cf # 0 ELSE s.sf # 0)
In(s) == s.st = "setup"
Set(s, e) ==
  CASE e.op = "sr" -> [s EXCEPT !.c = s.cr, !.s = e.v, !.odd = @ \/ s.s # 0 \/ s.cr = 0]
    [] e.op = "sh" -> [s EXCEPT !.h = e.v, !.odd = @ \/ s.h # 0]
    [] e.op = "cf" -> [s EXCEPT !.cf = e.v, !.odd = @ \/ s.cf # 0]
    [] OTHER -> [s EXCEPT !.sf = e.v, !.odd = @ \/ s.sf # 0]
(* the state after e and what it answers; "any" where nothing is promised *)
Act(s0, e) == LET s == [s0 EXCEPT !.fresh = FALSE, !.driven = FALSE] IN
  CASE e.op = "alloc" -> IF s.st = "init" THEN [s |-> [s EXCEPT !.st = "setup"], r |-> "ok"] ELSE [s |-> [s EXCEPT !.st = "error"], r |-> "err"]
    [] e.op = "allocx" -> [s |-> s, r |-> "err"]
    [] e.op = "cr" -> [s |-> [s EXCEPT !.cr = e.v], r |-> "ok"]
    [] e.op = "pms" -> [s |-> [s EXCEPT !.pms = TRUE], r |-> "ok"]
    [] e.op \in {"sr", "sh", "cf", "sf"} ->
         IF ~In(s) THEN [s |-> s, r |-> "err"]
         ELSE IF e.op = "sh" /\ s.ms # "ext" THEN [s |-> s, r |-> "err"]
         ELSE LET t == Set(s, e) IN
              IF s.st = "setup" /\ Seeded(s) THEN [s |-> [t EXCEPT !.odd = TRUE], r |-> "any"]
              ELSE [s |-> [t EXCEPT !.fresh = TRUE], r |-> IF t.odd THEN "any" ELSE "ok"]
    [] e.op = "round" -> [s |-> s, r |-> "ok"]
    [] e.op = "drive" -> [s |-> [s EXCEPT !.driven = In(s) \/ s.st = "done", !.st = IF In(s) /\ Seeded(s) /\ s.pms THEN "done" ELSE @], r |-> "ok"]
    [] OTHER -> [s |-> s, r |-> "ok"]
(* what one party shows: w whether a flush is wanted, o its outputs *)
Outs(s, o) == \A k \in 1..3 : \/ o[k] = <<>> /\ ~(s.driven /\ Ready(s, k))
                              \/ s.st # "init" /\ Ready(s, k) /\ o[k] = Value(s, k)
Wants(s, w) == /\ s.st \in {"init", "error", "done"} => ~w
               /\ In(s) /\ ~Some(s) => ~w
               /\ In(s) /\ s.fresh => w
               /\ s.driven /\ s.net = "norm" => ~w
               /\ s.driven /\ s.pms /\ MsReady(s) => ~w
Match(r, out) == \/ r.s.odd
                 \/ /\ out.r \in {r.r} \/ r.r = "any"
                    /\ Wants(r.s, out.w) /\ Outs(r.s, out.o)
Party(out, i) == [r |-> out.r[i], w |-> out.w[i], o |-> out.o[i]]
Good(r, e) == \A i \in 1..2 : Match(r, Party(e.out, i))
=============================================================================
