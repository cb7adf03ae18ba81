------------------------------- MODULE Disclose -----------------------------
(* Choosing what to commit to and what to prove; opening hash commitments.       *)
(* A commitment (and the secret that opens it) is [d, x, alg, b]: direction,     *)
(* ranges, hash algorithm, blinder. Hashes are ideal: two openings agree exactly *)
(* when algorithm, plaintext and blinder do.                                     *)
EXTENDS Transcript, TLC
Rng(s) == {s[q] : q \in DOMAIN s}
RECURSIVE Fold(_, _, _)
Fold(F(_, _), st, ops) == IF ops = <<>> THEN st ELSE Fold(F, F(st, Head(ops)), Tail(ops))
Fits(t, d, S) == In(Side(t, d), S)

(* ---- what to commit to ---- *)
CDir(o) == CASE o.op = "sent" -> "s" [] o.op = "recv" -> "r" [] OTHER -> o.d

CommitStep(t, st, o) ==
    IF o.op = "default" THEN [st EXCEPT !.alg = o.alg, !.res = Append(@, TRUE)]
    ELSE LET S == Idx(o.x) IN
         IF ~Fits(t, CDir(o), S) THEN [st EXCEPT !.res = Append(@, FALSE)]
         ELSE [st EXCEPT !.res = Append(@, TRUE),
                         !.set = @ \cup {[d |-> CDir(o), x |-> Asc(S), alg |-> IF o.op = "with" THEN o.alg ELSE st.alg]}]
Commits(t, ops) == LET G(st, o) == CommitStep(t, st, o) IN Fold(G, [alg |-> 2, res |-> <<>>, set |-> {}], ops)

(* ---- what to prove ---- *)
RevealOf(st, d, S) == [st EXCEPT !.some = TRUE, !.s = IF d = "s" THEN @ \cup S ELSE @, !.r = IF d = "r" THEN @ \cup S ELSE @,
                                 !.res = Append(@, TRUE)]
ProveStep(t, st, o) ==
  CASE o.op = "id" -> [st EXCEPT !.id = TRUE, !.res = Append(@, TRUE)]
    [] o.op = "commit" -> [st EXCEPT !.com = o.ops, !.has = TRUE, !.res = Append(@, TRUE)]
    [] o.op = "all" -> RevealOf(st, o.d, All(Side(t, o.d)))
    [] o.op = "reveal" -> IF Fits(t, o.d, Idx(o.x)) THEN RevealOf(st, o.d, Idx(o.x)) ELSE [st EXCEPT !.res = Append(@, FALSE)]
Prove(t, ops) == LET G(st, o) == ProveStep(t, st, o) IN
   Fold(G, [id |-> FALSE, some |-> FALSE, s |-> {}, r |-> {}, com |-> <<>>, has |-> FALSE, res |-> <<>>], ops)

(* ---- verifying a proof against commitments to t ---- *)
Known(e, alg) == \E q \in DOMAIN e.prov : e.prov[q] = alg
Claim(e) == Unpack(e.p)
Opens(e, p, s, c) == /\ s.d = c.d /\ Idx(s.x) = Idx(c.x) /\ s.alg = c.alg /\ s.b = c.b
                     /\ At(Side(p, s.d), Idx(s.x)) = At(Side(e.t, c.d), Idx(c.x))
Opened(e, d) == UNION {Idx(e.sec[q].x) : q \in {k \in DOMAIN e.sec : e.sec[k].d = d}}
Accept(e) ==
  /\ PackOk(e.p)
  /\ e.p.sn = e.len[1] /\ e.p.rn = e.len[2]
  /\ LET p == Claim(e) IN
     /\ \A q \in DOMAIN e.sec : /\ Known(e, e.sec[q].alg) /\ Fits(p, e.sec[q].d, Idx(e.sec[q].x))
                                /\ \E k \in DOMAIN e.com : Opens(e, p, e.sec[q], e.com[k])
     /\ Opened(e, "s") = p.sa /\ Opened(e, "r") = p.ra

(* ---- building a proof ---- *)
Covered(sec, d) == UNION {Idx(sec[q].x) : q \in {k \in DOMAIN sec : sec[k].d = d}}
BStep(e, st, o) ==
  LET S == Idx(o.x) IN
  IF Fits(e.t, o.d, S) /\ S \subseteq Covered(e.sec, o.d)
  THEN [st EXCEPT !.res = Append(@, TRUE), !.s = IF o.d = "s" THEN @ \cup S ELSE @, !.r = IF o.d = "r" THEN @ \cup S ELSE @]
  ELSE [st EXCEPT !.res = Append(@, FALSE)]
Query(e) == LET G(st, o) == BStep(e, st, o) IN Fold(G, [s |-> {}, r |-> {}, res |-> <<>>], e.ops)
Kinds(e) == IF e.kinds = <<>> THEN <<1, 2, 3>> ELSE e.kinds
(* kinds are tried in order; each covers what its commitments lying inside the     *)
(* still uncovered part cover                                                      *)
Usable(e, d, alg, R) == {q \in DOMAIN e.sec : e.sec[q].d = d /\ e.sec[q].alg = alg /\ Idx(e.sec[q].x) \subseteq R}
RECURSIVE Left(_, _, _, _)
Left(e, d, R, ks) == IF ks = <<>> THEN R
   ELSE Left(e, d, R \ UNION {Idx(e.sec[q].x) : q \in Usable(e, d, Head(ks), R)}, Tail(ks))
RECURSIVE Cand(_, _, _, _)
Cand(e, d, R, ks) == IF ks = <<>> THEN {}
   ELSE LET U == Usable(e, d, Head(ks), R) IN U \cup Cand(e, d, R \ UNION {Idx(e.sec[q].x) : q \in U}, Tail(ks))
Buildable(e, q) == Left(e, "s", q.s, Kinds(e)) = {} /\ Left(e, "r", q.r, Kinds(e)) = {}
Choice(e, q) == Cand(e, "s", q.s, Kinds(e)) \cup Cand(e, "r", q.r, Kinds(e))

Exp(e) ==
  CASE e.ev = "commits" -> LET c == Commits(e.t, e.ops) IN [res |-> c.res, has |-> (c.set # {}), req |-> c.set]
    [] e.ev = "prove" -> LET c == Prove(e.t, e.ops) IN
         [res |-> c.res, id |-> c.id, rev |-> IF c.some THEN <<Asc(c.s), Asc(c.r)>> ELSE <<>>,
          has |-> c.has, req |-> Commits(e.t, c.com).set]
    [] e.ev = "verify" -> IF Accept(e) THEN [ok |-> TRUE, p |-> Obs(Claim(e))] ELSE [ok |-> FALSE]
    [] e.ev = "build" -> LET q == Query(e) IN
         IF Buildable(e, q) THEN [res |-> q.res, ok |-> TRUE, p |-> Obs(Partial(e.t, q.s, q.r)), ver |-> TRUE, from |-> Choice(e, q)]
         ELSE [res |-> q.res, ok |-> FALSE]
SameSet(s, S) == Len(s) = Cardinality(S) /\ Rng(s) = S
Ok(e) == LET x == Exp(e) o == e.out IN
  CASE e.ev = "commits" -> [o EXCEPT !.req = {}] = [x EXCEPT !.req = {}] /\ SameSet(o.req, x.req)
    [] e.ev = "prove" -> [o EXCEPT !.req = {}] = [x EXCEPT !.req = {}] /\ SameSet(o.req, x.req)
    [] e.ev = "build" /\ x.ok /\ o.ok ->
         /\ o.res = x.res /\ o.ver = x.ver /\ o.p = x.p
         /\ Rng(o.used) \subseteq x.from /\ Cardinality(Rng(o.used)) = Len(o.used)
         /\ LET U(d) == UNION {Idx(e.sec[k].x) : k \in {m \in Rng(o.used) : e.sec[m].d = d}} IN
            U("s") = Rng(x.p.sa) /\ U("r") = Rng(x.p.ra)
    [] OTHER -> o = x
==============================================================================
