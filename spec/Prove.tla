------------------------------- MODULE Prove --------------------------------
(* Rounds of proving over a committed connection: the prover asks, the verifier
   accepts or rejects, and what it accepts it checks.  A connection has n.s
   (n.r) bytes of application data sent (received); a request may reveal
   positions of it, commit to positions of it and show the server's identity.
   The prover may lie in every part of its message and in what it proves.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Dirs == {"s", "r"}
Pos(x) == UNION {x[k][1]..(x[k][2] - 1) : k \in DOMAIN x}
Max(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : k <= m
Sum[x \in Seq(Int)] == IF x = <<>> THEN 0 ELSE (IF Head(x) > 0 THEN Head(x) ELSE 0) + Sum[Tail(x)]
Of(o, d) == IF d = "s" THEN Sum[o.sent] ELSE Sum[o.recv]
(* -- the request -- *)
Asked(e) == e.reveal # <<>>
Rev(e, d) == IF ~Asked(e) THEN {} ELSE Pos(e.reveal[IF d = "s" THEN 1 ELSE 2])
Coms(e) == {[d |-> e.commits[k].d, x |-> Pos(e.commits[k].x), alg |-> e.commits[k].alg] : k \in DOMAIN e.commits}
Com(e, d) == UNION {c.x : c \in {c \in Coms(e) : c.d = d}}
Whole(o, e, d) == Asked(e) /\ Rev(e, d) = 0..(Of(o, d) - 1)
Lies(e, k) == e.lie.k = k
(* -- the verifier's checks, in order; each gives the first thing found wrong -- *)
Carries(e) == IF Lies(e, "extra") THEN TRUE ELSE Asked(e) /\ ~Lies(e, "drop")
SaidLen(o, e, d) == IF Lies(e, "len") /\ e.lie.d = d THEN e.lie.i ELSE Of(o, d)
SaidRev(e, d) == IF Lies(e, "auth") /\ e.lie.d = d THEN Pos(e.lie.x) ELSE Rev(e, d)
Shown(e) == IF e.lie.id = "honest" THEN e.id ELSE e.lie.id # "omitted"
\* (o.eph: the connection was keyed with the other server's ephemeral key;
\*  o.noroot: only the root of the other server is trusted)
GoodId(o, e) == /\ e.lie.id \in (IF o.eph THEN {"other"} ELSE {"honest", "unasked"})
                /\ ~o.late /\ o.noroot = o.eph
\* the byte the prover shows at i, and the one it proves about: right or not
ShownRight(e, d, i) == ~(e.lie.k \in {"byte", "msg"} /\ e.lie.d = d /\ e.lie.i = i)
ProvenRight(e, d, i) == ~(Lies(e, "byte") /\ e.lie.d = d /\ e.lie.i = i)
Supported == {"sha256", "blake3"}
Fault(o, e) ==
  CASE Asked(e) /\ ~Carries(e) -> "no transcript"
    [] Asked(e) /\ \E d \in Dirs : SaidLen(o, e, d) # Of(o, d) -> "length"
    [] Asked(e) /\ \E d \in Dirs : SaidRev(e, d) # Rev(e, d) -> "not what was asked"
    [] Shown(e) /\ ~GoodId(o, e) -> "identity"
    [] \E d \in Dirs : \E i \in Com(e, d) : i >= Of(o, d) -> "out of bounds"
    [] \E c \in Coms(e) : c.alg \notin Supported -> "algorithm"
    [] \E d \in Dirs : \E i \in Rev(e, d) : ~ShownRight(e, d, i) -> "revealed"
    [] \E d \in Dirs : \E i \in Com(e, d) : ~ProvenRight(e, d, i) -> "committed"
    [] OTHER -> "none"
Accepts(o, e) == e.answer = "accept" /\ Fault(o, e) = "none"
(* -- what the verifier has then -- *)
Name(o, e) == IF ~Shown(e) THEN "" ELSE IF o.eph THEN "appliedzkp.org" ELSE "tlsnotary.org"
(* -- what it was told on the way: a value decoded is one of these -- *)
Part(b, c) == \E j \in 0..(Len(c) - Len(b)) : \A k \in 1..Len(b) : c[j + k] = b[k]
Harmless(o, e, x) ==
  \/ x.hash \/ (Coms(e) # {} /\ Len(x.b) = 32)
  \/ \E d \in Dirs :
       \/ (Whole(o, e, d) \/ Of(o, d) = 0) /\ \E k \in 1..2 : x.b = (IF d = "s" THEN o.ks ELSE o.kr)[k]
       \/ Part(x.b, IF d = "s" THEN o.cs ELSE o.cr)
(* -- a round and what is seen of it -- *)
At(b, S) == [k \in DOMAIN b |-> IF (k - 1) \in S THEN b[k] ELSE 0]
Set(l) == {[d |-> l[k].d, x |-> Pos(l[k].x), alg |-> l[k].alg] : k \in DOMAIN l}
SeenRight(e, q) == /\ q.id = e.id /\ q.hs = Shown(e)
                   /\ (q.reveal = <<>>) = ~Asked(e)
                   /\ Asked(e) => Pos(q.reveal[1]) = Rev(e, "s") /\ Pos(q.reveal[2]) = Rev(e, "r")
                   /\ Set(q.commits) = Coms(e) /\ Len(q.commits) = Cardinality(Coms(e))
OutRight(o, e, u) ==
  /\ u.name = Name(o, e)
  /\ (u.tr = <<>>) = ~Asked(e)
  /\ Asked(e) => LET t == u.tr[1] IN
       /\ t.s = At(o.ps, Rev(e, "s")) /\ t.r = At(o.pr, Rev(e, "r"))
       /\ Pos(t.as) = Rev(e, "s") /\ Pos(t.ar) = Rev(e, "r")
  /\ u.vc = u.want /\ Set(u.vc) = Coms(e) /\ Len(u.vc) = Cardinality(Coms(e))
Right(o, e) ==
  LET u == e.out IN
  /\ u.fine /\ u.v # "stuck" /\ u.p # "stuck"
  /\ SeenRight(e, u.seen)
  /\ IF e.answer = "reject" THEN u.v = "rejected" /\ u.p = "user" /\ u.learned = <<>>
     ELSE IF Accepts(o, e) THEN /\ u.v = "ok" /\ OutRight(o, e, u)
                                /\ (u.p = "ok" /\ u.pc = u.want)
     ELSE u.v \notin {"ok", "rejected"} /\ u.vc = <<>> /\ u.tr = <<>> /\ u.name = ""
  \* (who lies about the plaintext gets what it computes decoded)
  /\ e.lie.k \notin {"byte", "msg"} => \A k \in DOMAIN u.learned : Harmless(o, e, u.learned[k])
(* the verifier goes on unless it found a fault *)
GoesOn(o, e) == e.answer = "reject" \/ Accepts(o, e)
Want(o, e) == [fault |-> Fault(o, e), answer |-> e.answer, name |-> Name(o, e)]
=============================================================================
