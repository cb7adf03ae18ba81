-------------------------------- MODULE CtrMC --------------------------------
(* Every sequence of Depth operations on a cipher, fresh or with key and IV. *)
EXTENDS Ctr, TLC, Json, FiniteSets
CONSTANTS Depth
VARIABLES h, s, base
E(op, k, n, v, c) == [op |-> op, s |-> k, n |-> n, v |-> v, c |-> c]
Open == <<E("new", 0, 0, 0, 0)>>
Set == Open \o <<E("key", 0, 0, 1, 0), E("iv", 0, 0, 1, 0)>>
RECURSIVE Run(_, _)
Run(t, q) == IF q = <<>> THEN t ELSE Run(Act(t, Head(q)).s, Tail(q))
N == Len(s.st)
Free(k) == \A i \in DOMAIN s.st[k] : s.bl[s.st[k][i]][4] = 0
Menu == {E("key", 0, 0, 2, 0), E("iv", 0, 0, 2, 0), E("stream", 0, 40, 0, 0), E("stream", 0, 16, 0, 0), E("block", 0, 0, 1, 0), E("ctr", 0, 0, 1, 1)}
        \cup (IF N = 0 THEN {E("stream", 0, 0, 0, 0)} ELSE
              {E("take", k, n, 0, 0) : k \in {j \in {1, N} : Free(j)}, n \in {0, 5, 32}}
              \cup {E("assign", k, 0, 1 + (k % 3), 2) : k \in {j \in {1, N} : Free(j) /\ Len(s.st[j]) > 0}}
              \cup {E("apply", k, n, 0, 0) : k \in {1, N}, n \in {16, 48}}
              \cup {E("vec", k, n, 0, 0) : k \in {1, N}, n \in {5, 40, 48}})
Init == base \in {1, 3} /\ h = (IF base = 1 THEN Open ELSE Set) /\ s = Run(Start(0), h)
Next == /\ Len(h) - base < Depth
        /\ \E e \in Menu : h' = Append(h, e) /\ s' = Act(s, e).s
        /\ UNCHANGED base
Spec == Init /\ [][Next]_<<h, s, base>>
(* no block of keystream is in two streams *)
Once == \A a, b \in DOMAIN s.st : \A i \in DOMAIN s.st[a], j \in DOMAIN s.st[b] : s.st[a][i] = s.st[b][j] => a = b /\ i = j
(* every block is of a key and, in counter mode, of an IV that had been set *)
Keyed == \A b \in DOMAIN s.bl : s.bl[b][1] \in 1..2
Emit == IF Len(h) - base = Depth THEN PrintT("SCN " \o ToJson(h)) ELSE TRUE
=============================================================================
