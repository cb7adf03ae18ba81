-------------------------------- MODULE Reader -------------------------------
(* The byte reader all parsing is built on, and the primitive codecs: a cursor  *)
(* over a buffer that never moves past its end, never moves on a failed take,   *)
(* and hands out exactly the bytes it passes.                                   *)
EXTENDS Integers, Sequences
CONSTANT MaxVec

InitSt(buf) == [buf |-> buf, o |-> 0, dead |-> FALSE]
Left(st) == Len(st.buf) - st.o
Slice(st, n) == SubSeq(st.buf, st.o + 1, st.o + n)
Out(r, b, st) == [some |-> r, v |-> b, left |-> Left(st), used |-> st.o, any |-> Left(st) > 0]
Take(st, n) == IF Left(st) < n THEN [st |-> st, out |-> Out(FALSE, <<>>, st)]
               ELSE LET s2 == [st EXCEPT !.o = @ + n] IN [st |-> s2, out |-> Out(TRUE, Slice(st, n), s2)]
RestRes(st) == LET s2 == [st EXCEPT !.o = Len(st.buf)] IN [st |-> s2, out |-> Out(TRUE, Slice(st, Left(st)), s2)]
RECURSIVE Val(_)
Val(b) == IF b = <<>> THEN 0 ELSE Val(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
(* list of w-byte items, prefixed by an lb-byte length, at most max bytes long; *)
(* the result is the flattened item bytes                                       *)
VecRes(st, lb, w, max) ==
  LET fail == [st |-> [st EXCEPT !.dead = TRUE], out |-> Out(FALSE, <<>>, st)] IN
  IF Left(st) < lb THEN fail
  ELSE LET n == Val(Slice(st, lb)) IN
       IF n > max \/ Left(st) < lb + n THEN fail
       ELSE IF w > 0 /\ n % w # 0 THEN fail
       ELSE LET s2 == [st EXCEPT !.o = @ + lb + n] IN
            [st |-> s2, out |-> Out(TRUE, SubSeq(st.buf, st.o + lb + 1, st.o + lb + n), s2)]
ReaderRes(st, op, n) ==
  \* lengths from 2*10^9 on stand for the last ones of the machine: never available
  CASE op = "new" -> [st |-> st, out |-> Out(TRUE, <<>>, st)]
    [] op = "take" -> Take(st, n)
    [] op = "sub" -> Take(st, n)               \* reader over the next n bytes
    [] op = "rest" -> RestRes(st)
    [] op = "int" -> Take(st, n)               \* n = 1, 2, 3, 4, 8: big-endian, shown as its bytes
    [] op = "vec8" -> VecRes(st, 1, n, 255)
    [] op = "vec16" -> VecRes(st, 2, n, 65535)
    [] op = "vec24" -> VecRes(st, 3, n, MaxVec)
==============================================================================
