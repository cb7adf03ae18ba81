----------------------------- MODULE Fragmenter -----------------------------
(* Splitting of outgoing messages into records (tls-core, MessageFragmenter). *)
EXTENDS Integers, Sequences
CONSTANTS MaxFrag,    \* 2^14
          Overhead,   \* 5
          MinSize     \* 32
Valid(sz) == sz = -1 \/ (sz >= MinSize /\ sz <= MaxFrag + Overhead)   \* -1: default
FragOf(sz) == IF sz = -1 THEN MaxFrag ELSE sz - Overhead

InitSt == [max |-> 0, live |-> FALSE]
Frags(max, len, keepEmpty) ==
  LET full == len \div max
      rest == len % max
      fulls == [k \in 1..full |-> max] IN
  IF len = 0 THEN (IF keepEmpty THEN <<0>> ELSE <<>>)
  ELSE IF rest = 0 THEN fulls ELSE Append(fulls, rest)

Out(r, ls, d) == [res |-> r, lens |-> ls, dig |-> d, meta |-> TRUE]
NewRes(st, sz) == IF Valid(sz) THEN [st |-> [max |-> FragOf(sz), live |-> TRUE], out |-> Out("ok", <<>>, 0)]
                  ELSE [st |-> InitSt, out |-> Out("bad_size", <<>>, 0)]
(* A rejected reconfiguration leaves the limit as it was. *)
SetRes(st, sz) == IF Valid(sz) THEN [st |-> [st EXCEPT !.max = FragOf(sz)], out |-> Out("ok", <<>>, 0)]
                  ELSE [st |-> st, out |-> Out("bad_size", <<>>, 0)]
FragRes(st, len, d) == [st |-> st, out |-> Out("ok", Frags(st.max, len, TRUE), d)]
BorrowRes(st, len, d) == [st |-> st, out |-> Out("ok", Frags(st.max, len, FALSE), d)]
=============================================================================
