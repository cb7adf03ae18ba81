-------------------------------- MODULE KxMC ---------------------------------
(* Every sequence of Depth calls from each of five stages of a key exchange,
   with each of the conversions bent; then the rest of the exchange. *)
EXTENDS Kx, TLC, Json
CONSTANTS Depth
VARIABLES o, s, h, n, last
E(op, p, v) == [op |-> op, p |-> p, v |-> v]
B(op) == <<E(op, "L", 1), E(op, "F", 1)>>
Plan == <<B("alloc"), <<E("setup", "", 0)>>, <<E("key", "L", 0)>> \o B("server"), <<E("shares", "", 0)>>, B("assign"), <<E("exec", "", 0)>>, B("fin")>>
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
RECURSIVE Run(_, _)
Run(t, q) == IF q = <<>> THEN t ELSE Run(Act(t, Head(q)).s, Tail(q))
Opens == {[op |-> "new", p |-> "", v |-> 0, bad |-> b] : b \in {"", "L0", "L1", "F0", "F1"}}
Menu == {E(op, p, 1) : op \in {"alloc", "assign", "fin"}, p \in Parties} \cup {E(op, "", 0) : op \in {"setup", "shares", "exec"}}
        \cup {E("server", "F", 2), E("server", "L", 2), E("key", "L", 0), E("key", "F", 0), E("get", "L", 0), E("get", "F", 0)}
(* a scenario stops at the first call that hangs or fails half way *)
Init == /\ o \in Opens /\ \E k \in 0..7 : n = k /\ h = Cat(SubSeq(Plan, 1, k)) /\ s = Run(Start(o), Cat(SubSeq(Plan, 1, k)))
        /\ last = [r |-> "ok"]
Do(e) == /\ h' = Append(h, e) /\ s' = Act(s, e).s /\ last' = Act(s, e).out /\ UNCHANGED o
Len0 == Len(Cat(SubSeq(Plan, 1, n)))
Next == \/ n < 10 /\ ~s.part /\ Len(h) < Len0 + Depth /\ (\E e \in Menu : Do(e)) /\ UNCHANGED n
        \/ /\ n < 10 /\ (s.part \/ Len(h) = Len0 + Depth)
           /\ LET rest == IF s.part THEN <<>> ELSE Cat(SubSeq(Plan, n + 1, 7)) \o <<E("get", "L", 0), E("exec", "", 0)>> IN
              h' = h \o rest /\ s' = Run(s, rest)
           /\ n' = 10 /\ UNCHANGED <<o, last>>
Spec == Init /\ [][Next]_<<o, s, h, n, last>>
(* nobody finishes over a conversion that went wrong *)
Noticed == o.bad # "" => \A p \in Parties : s.st[p] # "done"
(* who finishes has gone through every phase, with the other *)
Phases == \A p \in Parties : s.st[p] = "done" => s.ran /\ s.used[p] # 0 /\ s.st[Other(p)] \in {"check", "done", "error"}
Emit == IF n = 10 THEN PrintT("SCN " \o ToJson(<<o>> \o h)) ELSE TRUE
=============================================================================
