------------------------------ MODULE MpcPrfMC -------------------------------
(* Every order in which a PRF can be told its inputs, with rounds of flushing
   and executing between them. The machine is the code's: in Normal mode one
   assignment per function; in Reduced mode a function first learns the inner
   state, then each A(i), before it can assign the next hash. *)
EXTENDS MpcPrf, TLC, Json, FiniteSets
CONSTANTS Rounds_, Depth_, Family_
VARIABLES o, s, m, h, end
Fns == {"ms", "ke", "cf", "sf"}
Iter(f) == IF f \in {"ms", "ke"} THEN 2 ELSE 1
(* stage: 0 nothing, 2i-1 A(i) assigned, 2*Iter all assigned; seen: the stage at the last execution *)
M0 == [st |-> "init", seed |-> {}, stage |-> [f \in Fns |-> 0], seen |-> [f \in Fns |-> 0], pms |-> FALSE, ran |-> FALSE]
Used(f) == f # "ms" \/ o.ms # "dir"
Done(n, f) == ~Used(f) \/ n.stage[f] = 2 * Iter(f)
Out(n, f) == n.seen[f] = 2 * Iter(f)
(* whether the key of a function's hash is known to the functionality *)
KeyKnown(n, f) == n.ran /\ (f = "ms" \/ o.ms = "dir" \/ Out(n, "ms"))
Want(n, f) == Used(f) /\ ~Done(n, f) /\ f \in n.seed
WantsFlush(n) == n.st = "setup" /\ \E f \in Fns : Want(n, f)
FlushFn(n, f) == IF ~Want(n, f) THEN n.stage[f]
                 ELSE IF o.net = "norm" THEN 2 * Iter(f)
                 ELSE IF n.stage[f] = 0 THEN IF n.seen[f] = 0 /\ KeyKnown(n, f) THEN 1 ELSE 0
                 ELSE IF n.seen[f] # n.stage[f] THEN n.stage[f]
                 ELSE IF n.stage[f] = 2 * Iter(f) - 1 THEN 2 * Iter(f) ELSE n.stage[f] + 2
Flush(n) == IF n.st # "setup" THEN n
            ELSE LET t == [n EXCEPT !.stage = [f \in Fns |-> FlushFn(n, f)]] IN
                 [t EXCEPT !.st = IF \A f \in Fns : Done(t, f) THEN "done" ELSE "setup"]
(* executing: the master secret's function first, all else needs its output; A(i) are outputs too *)
Exec(n) == LET a == [n EXCEPT !.seen["ms"] = IF n.pms THEN n.stage["ms"] ELSE @]
               k == n.pms /\ (o.ms = "dir" \/ a.seen["ms"] = 4) IN
           [a EXCEPT !.ran = n.pms, !.seen = [f \in Fns |-> IF f = "ms" THEN a.seen["ms"] ELSE IF k THEN n.stage[f] ELSE a.seen[f]]]
Round(n) == Exec(Flush(n))
RECURSIVE Drive(_, _)
Drive(n, k) == LET t == Round(n) IN IF k = 0 \/ ~WantsFlush(t) THEN t ELSE Drive(t, k - 1)
Step(n, e) ==
  CASE e.op = "alloc" -> [n EXCEPT !.st = IF @ = "init" THEN "setup" ELSE "error"]
    [] e.op = "pms" -> [n EXCEPT !.pms = TRUE]
    [] n.st = "setup" /\ e.op = "sr" -> [n EXCEPT !.seed = @ \cup {"ke"} \cup (IF o.ms = "std" THEN {"ms"} ELSE {})]
    [] n.st = "setup" /\ e.op = "sh" /\ o.ms = "ext" -> [n EXCEPT !.seed = @ \cup {"ms"}]
    [] n.st = "setup" /\ e.op \in {"cf", "sf"} -> [n EXCEPT !.seed = @ \cup {e.op}]
    [] e.op = "round" -> Round(n)
    [] e.op = "drive" -> Drive(n, 29)
    [] OTHER -> n
E(op, v) == [op |-> op, v |-> v]
Opens == {[op |-> "new", v |-> 0, net |-> n, ms |-> k] : n \in {"red", "norm"}, k \in {"std", "ext", "dir"}}
Count(op) == Cardinality({i \in DOMAIN h : h[i].op = op})
Inputs == {"cr", "sr", "cf", "sf", "pms"} \cup (IF o.ms = "ext" THEN {"sh"} ELSE {})
V(op) == IF op \in {"sr", "cf"} THEN 2 ELSE IF op = "pms" THEN 0 ELSE 1
Ok(op) == Count(op) = 0 /\ (op = "sr" => Count("cr") > 0)
Orders == IF h = <<>> THEN {E("alloc", 0)}
          ELSE {E(op, V(op)) : op \in {i \in Inputs : Ok(i)}}
               \cup (IF Count("round") < Rounds_ THEN {E("round", 0)} ELSE {})
OddMenu == {E("alloc", 0), E("allocx", 0), E("cr", 1), E("cr", 2), E("sh", 1), E("cf", 1), E("sf", 2), E("pms", 0), E("round", 0), E("drive", 0)}
           \cup (IF Count("cr") > 0 THEN {E("sr", 1)} ELSE {})
Odd == {e \in OddMenu : e.op \in {"sh", "cf", "sf", "sr", "pms"} => Count(e.op) = 0}
Full == IF Family_ = "order" THEN \A i \in Inputs : Count(i) = 1 ELSE Len(h) >= Depth_
Menu == IF Family_ = "order" THEN Orders ELSE Odd
Init == o \in Opens /\ s = Start(o) /\ m = M0 /\ h = <<>> /\ end = 0
Do(e) == /\ h' = Append(h, e) /\ s' = Act(s, e).s /\ m' = Step(m, e)
         /\ UNCHANGED o
Next == \/ ~Full /\ end = 0 /\ (\E e \in Menu : Do(e)) /\ UNCHANGED end
        \/ Full /\ end = 0 /\ Do(E("drive", 0)) /\ end' = 1
        \/ end = 1 /\ Do(E(IF o.ms = "ext" THEN "sh" ELSE "cf", 1)) /\ end' = 2
Spec == Init /\ [][Next]_<<o, s, m, h, end>>
Shown == [k \in 1..3 |-> IF Out(m, <<"ke", "cf", "sf">>[k]) THEN Value(s, k) ELSE <<>>]
(* the machine keeps the contract *)
Contract == s.odd \/ m.st = "error" \/ (Wants(s, WantsFlush(m)) /\ Outs(s, Shown) /\ (s.st = "done" => m.st = "done"))
(* whoever flushes while it is wanted gets everything *)
Ends == end >= 1 /\ Family_ = "order" => m.st = "done" /\ \A k \in 1..3 : Shown[k] # <<>>
(* nothing is computed from a seed that was not given *)
Given == \A f \in Fns : m.stage[f] > 0 => f \in m.seed
Emit == IF end = 2 THEN PrintT("SCN " \o ToJson(<<o>> \o h)) ELSE TRUE
=============================================================================
