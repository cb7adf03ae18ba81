------------------------------ MODULE Redact ------------------------------
(* What a handler list reveals or commits of an HTTP exchange (sdk-core),   *)
(* and what the format committer commits (formats).  A message is a tree of *)
(* tokens with the byte ranges they occupy; positions are 0-based, a range  *)
(* is <<start, end>>.  Nothing here parses: where each token lies is given. *)
(*                                                                          *)
(* message: req, bad, n, all, start, a (method or code), b (target or       *)
(* reason), headers (name, span, value), body (ranges, empty if none), json,*)
(* doc (tree of nodes: k, r, kids of key, pr (the pair), v).                *)
EXTENDS Integers, Sequences, FiniteSets
Pos(rs) == UNION {rs[i][1]..(rs[i][2] - 1) : i \in 1..Len(rs)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Runs0(_)
Runs0(S) ==
  IF S = {} THEN <<>>
  ELSE LET a == Least(S)
           e == Least({x \in {y + 1 : y \in S} : x \notin S})
       IN <<<<a, e>>>> \o Runs0({x \in S : x >= e})
Minus(r, cuts) == Runs0(Pos(r) \ UNION {Pos(c) : c \in cuts})
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Fail == [ok |-> FALSE, rs |-> <<>>]
Got(rs) == [ok |-> TRUE, rs |-> rs]
None == [k |-> "none", r |-> <<>>, kids |-> <<>>]

(* --- JSON paths: an object field by name (the first of that name), an     *)
(* array element by number --- *)
Field(n, key) == LET c == {i \in 1..Len(n.kids) : n.kids[i].key = key} IN IF n.k # "obj" \/ c = {} THEN 0 ELSE Least(c)
Step1(n, seg) ==
  IF n.k = "obj" THEN (IF Field(n, seg.k) = 0 THEN None ELSE n.kids[Field(n, seg.k)].v)
  ELSE IF n.k = "arr" THEN (IF seg.i >= 0 /\ seg.i < Len(n.kids) THEN n.kids[seg.i + 1].v ELSE None)
  ELSE None
RECURSIVE Get(_, _)
Get(n, path) == IF path = <<>> THEN n ELSE IF n.k = "none" THEN None ELSE Get(Step1(n, Head(path)), Tail(path))

Json(h, m) ==
  IF ~m.json THEN Fail
  ELSE IF h.path = <<>> THEN Fail
  ELSE IF h.hk /\ h.hv THEN Fail
  ELSE LET up == Get(m.doc, SubSeq(h.path, 1, Len(h.path) - 1))
           at == Field(up, h.path[Len(h.path)].k)
           val == Get(m.doc, h.path)
       IN IF up.k = "obj" /\ at # 0
          THEN IF h.hk THEN Got(up.kids[at].v.r)
               ELSE IF h.hv THEN Got(Minus(up.kids[at].pr, {up.kids[at].v.r}))
               ELSE Got(up.kids[at].pr)
          ELSE IF val.k = "none" THEN Fail ELSE Got(val.r)

Header(h, x) == IF h.hk THEN x.value ELSE IF h.hv THEN Minus(x.span, {x.value}) ELSE x.span

(* --- matches of a pattern: every occurrence of a word, or every longest   *)
(* run of a class, from the left and never overlapping --- *)
RECURSIVE Words(_, _, _)
Words(bs, w, at) ==
  IF at + Len(w) > Len(bs) THEN <<>>
  ELSE IF SubSeq(bs, at + 1, at + Len(w)) = w THEN <<<<at, at + Len(w)>>>> \o Words(bs, w, at + Len(w))
  ELSE Words(bs, w, at + 1)
Matches(p, bs) == IF p.kind = "word" THEN Words(bs, p.w, 0)
                  ELSE Runs0({i \in 0..(Len(bs) - 1) : bs[i + 1] \in {p.w[j] : j \in 1..Len(p.w)}})

Part(h, m) ==
  CASE h.part = "START_LINE" -> Got(m.start)
    [] h.part = "PROTOCOL" -> Got(Minus(m.start, {m.a, m.b}))
    [] h.part = "METHOD" -> IF m.req THEN Got(m.a) ELSE Fail
    [] h.part = "REQUEST_TARGET" -> IF m.req THEN Got(m.b) ELSE Fail
    [] h.part = "STATUS_CODE" -> IF m.req THEN Fail ELSE Got(m.a)
    [] h.part = "HEADERS" ->
         IF h.hk /\ h.hv THEN Fail
         ELSE Got(Cat([i \in 1..Len(m.headers) |->
                IF h.key = "" \/ m.headers[i].name = h.key THEN Header(h, m.headers[i]) ELSE <<>>]))
    [] h.part = "BODY" -> IF m.body = <<>> THEN Got(<<>>) ELSE IF h.type = "json" THEN Json(h, m) ELSE Got(m.body)
    [] h.part = "ALL" -> IF h.type = "regex" /\ h.re.kind # "" THEN (IF h.re.kind = "bad" THEN Fail ELSE Got(Matches(h.re, m.bytes))) ELSE Got(m.all)

Msg(e, h) == IF h.sent THEN e.sent ELSE e.recv
Res(e, i) == Part(e.handlers[i], Msg(e, e.handlers[i]))
RECURSIVE All(_, _, _)
(* the ranges handlers i.. produce in one direction: start, end, handler *)
All(e, i, s) == IF i > Len(e.handlers) THEN <<>>
                ELSE (IF e.handlers[i].sent = s THEN LET rs == Res(e, i).rs IN [j \in 1..Len(rs) |-> <<rs[j][1], rs[j][2], i>>] ELSE <<>>) \o All(e, i + 1, s)
Keep(q, F(_)) == SelectSeq(q, F)
Reveal(e) ==
  IF e.sent.bad \/ e.recv.bad \/ \E i \in 1..Len(e.handlers) : ~Res(e, i).ok THEN [ok |-> FALSE]
  ELSE LET Open(x) == e.handlers[x[3]].alg = ""
           Shut(x) == e.handlers[x[3]].alg # ""
           S == All(e, 1, TRUE)
           R == All(e, 1, FALSE)
           Com(q) == LET c == Keep(q, Shut) IN [j \in 1..Len(c) |-> <<c[j][1], c[j][2], e.handlers[c[j][3]].alg>>]
       IN [ok |-> TRUE, sent |-> Runs0(Pos(Keep(S, Open))), recv |-> Runs0(Pos(Keep(R, Open))), id |-> TRUE,
           csent |-> Com(S), crecv |-> Com(R), has |-> \E i \in 1..Len(e.handlers) : e.handlers[i].alg # "" /\ Res(e, i).rs # <<>>,
           wsent |-> S, wrecv |-> R]

(* --- the format committer: a set of <<direction, ranges>> --- *)
RECURSIVE Value(_)
Value(n) ==
  CASE n.k = "obj" -> {Minus(n.r, {n.kids[i].pr : i \in 1..Len(n.kids)})}
                        \cup UNION {{Minus(n.kids[i].pr, {n.kids[i].v.r})} \cup Value(n.kids[i].v) : i \in 1..Len(n.kids)}
    [] n.k = "arr" -> {n.r} \cup (IF n.kids = <<>> THEN {} ELSE {Minus(n.r, {n.kids[i].v.r : i \in 1..Len(n.kids)})})
    [] n.k = "str" /\ n.r = <<>> -> {}
    [] OTHER -> {n.r}
(* everything but the target, the headers and the body *)
Frame(m) == Minus(m.all, (IF m.req THEN {m.b} ELSE {}) \cup {m.headers[i].span : i \in 1..Len(m.headers)} \cup {m.body})
Heads(m) == UNION {{m.headers[i].span} \cup (IF m.headers[i].value = <<>> THEN {} ELSE {Minus(m.headers[i].span, {m.headers[i].value})}) : i \in 1..Len(m.headers)}
Commit(m) ==
  {m.all} \cup (IF m.headers # <<>> \/ m.body # <<>> THEN {Frame(m)} ELSE {})
    \cup (IF m.req THEN {m.b} ELSE {}) \cup Heads(m)
    \cup (IF m.body = <<>> THEN {} ELSE IF m.json THEN Value(m.doc) ELSE {m.body})
Commits(q) == UNION {Commit(q[i]) : i \in 1..Len(q)}
SetOf(q) == {q[i] : i \in 1..Len(q)}

Exp(e) == IF e.ev = "reveal" THEN Reveal(e) ELSE [sent |-> Commits(e.sent), recv |-> Commits(e.recv)]
Ok(e) == IF e.ev = "reveal" THEN e.out = Reveal(e)
         ELSE e.out.ok /\ SetOf(e.out.sent) = Commits(e.sent) /\ SetOf(e.out.recv) = Commits(e.recv)
=============================================================================
