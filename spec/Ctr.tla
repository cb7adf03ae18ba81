--------------------------------- MODULE Ctr ---------------------------------
(* AES in counter mode over hidden keys: blocks are allocated ahead of time
   under the key and IV set then, are cut off a stream in whole blocks, are
   told nonce and counter, and are combined with data of exactly their size. *)
EXTENDS Naturals, Sequences
Ceil(n) == (n + 15) \div 16
(* a stream: per block <<key, iv, nonce, counter>>, 0 where not assigned; an output: which blocks, or one block by itself *)
Start(o) == [key |-> 0, iv |-> 0, st |-> <<>>, bl |-> <<>>, outs |-> <<>>]
Res(s, r) == [s |-> s, r |-> r]
New(s, n) == [i \in 1..n |-> Len(s.bl) + i]
Act(s, e) ==
  CASE e.op = "new" -> Res(s, "ok")
    [] e.op = "key" -> Res([s EXCEPT !.key = e.v], "ok")
    [] e.op = "iv" -> Res([s EXCEPT !.iv = e.v], "ok")
    [] e.op = "stream" -> IF s.key = 0 \/ s.iv = 0 THEN Res(s, "err")
                          ELSE Res([s EXCEPT !.bl = @ \o [i \in 1..Ceil(e.n) |-> <<s.key, s.iv, 0, 0>>], !.st = Append(@, New(s, Ceil(e.n)))], "ok")
    [] e.op = "take" -> LET q == s.st[e.s]  k == Ceil(e.n) IN
                        IF k > Len(q) THEN Res(s, "err")
                        ELSE Res([s EXCEPT !.st = Append([@ EXCEPT ![e.s] = SubSeq(q, 1, Len(q) - k)], SubSeq(q, Len(q) - k + 1, Len(q)))], "ok")
    [] e.op = "assign" -> LET q == s.st[e.s] IN
                          Res([s EXCEPT !.bl = [b \in DOMAIN @ |-> IF \E i \in DOMAIN q : q[i] = b
                                                                    THEN LET i == CHOOSE i \in DOMAIN q : q[i] = b IN <<@[b][1], @[b][2], e.v, e.c + i - 1>> ELSE @[b]]], "ok")
    [] e.op = "apply" -> IF Len(s.st[e.s]) = 0 \/ e.n # 16 * Len(s.st[e.s]) THEN Res(s, "err") ELSE Res([s EXCEPT !.outs = Append(@, s.st[e.s])], "ok")
    [] e.op = "vec" -> IF e.n = 0 \/ Ceil(e.n) # Len(s.st[e.s]) THEN Res(s, "err") ELSE Res([s EXCEPT !.outs = Append(@, s.st[e.s])], "ok")
    [] e.op = "block" -> IF s.key = 0 THEN Res(s, "err")
                         ELSE Res([s EXCEPT !.bl = Append(@, <<s.key, 0, 0, e.v>>), !.outs = Append(@, New(s, 1))], "ok")
    [] OTHER -> IF s.key = 0 \/ s.iv = 0 THEN Res(s, "err")
                ELSE Res([s EXCEPT !.bl = Append(@, <<s.key, s.iv, e.v, e.c>>), !.outs = Append(@, New(s, 1))], "ok")
Shown(s, q) == IF \E i \in DOMAIN q : s.bl[q[i]][4] = 0 THEN <<>> ELSE [i \in DOMAIN q |-> s.bl[q[i]]]
Outs(s) == [i \in DOMAIN s.outs |-> Shown(s, s.outs[i])]
Good(r, e) == e.out = [r |-> r.r, o |-> Outs(r.s), k |-> r.s.key # 0, i |-> r.s.iv # 0]
=============================================================================
