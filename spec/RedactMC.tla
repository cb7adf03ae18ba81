------------------------------ MODULE RedactMC ------------------------------
(* Messages are rendered here without white space, with tokens of one or two *)
(* bytes; the harness renders the same shapes with its own.                  *)
EXTENDS Redact, Json, TLC
CONSTANT What, Big
(* --- JSON trees: k, w (width of a leaf), kids (key, kw, v) --- *)
Leaf(k, w) == [k |-> k, w |-> w, kids |-> <<>>]
Obj(kids) == [k |-> "obj", w |-> 0, kids |-> kids]
Arr(vs) == [k |-> "arr", w |-> 0, kids |-> [i \in 1..Len(vs) |-> [key |-> "", kw |-> 0, v |-> vs[i]]]]
F(key, v) == [key |-> key, kw |-> 1, v |-> v]
Trees == <<Obj(<<F("a", Obj(<<F("b", Leaf("str", 2)), F("c", Leaf("str", 0))>>)), F("d", Arr(<<Leaf("num", 1), Obj(<<F("b", Leaf("num", 2))>>)>>)), F("a", Leaf("lit", 4))>>),
           Arr(<<Leaf("lit", 4), Leaf("str", 1), Arr(<<>>)>>),
           Leaf("str", 3), Leaf("str", 0), Leaf("num", 2), Obj(<<>>),
           Obj(<<F("0", Leaf("lit", 4)), F("d", Obj(<<>>)), F("b", Leaf("num", 1))>>)>>
RECURSIVE Width(_)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Kid(t, i) == Width(t.kids[i].v) + (IF t.k = "obj" THEN t.kids[i].kw + 3 ELSE 0)
Width(t) == CASE t.k = "str" -> t.w + 2
              [] t.k \in {"obj", "arr"} -> 2 + Sum([i \in 1..Len(t.kids) |-> Kid(t, i)]) + (IF Len(t.kids) > 1 THEN Len(t.kids) - 1 ELSE 0)
              [] OTHER -> t.w
One(s, n) == IF n = 0 THEN <<>> ELSE <<<<s, s + n>>>>
(* position in the message of byte p of the body: chunks cut at `cut` *)
At(p, off, cut) == IF p < cut THEN off + p ELSE off + p + 5
Map(s, n, off, cut) == Runs0({At(p, off, cut) : p \in s..(s + n - 1)})
RECURSIVE Node(_, _, _, _)
Node(t, p, off, cut) ==
  [k |-> t.k, r |-> IF t.k = "str" THEN Map(p + 1, t.w, off, cut) ELSE Map(p, Width(t), off, cut),
   kids |-> [i \in 1..Len(t.kids) |->
     LET s == p + 1 + Sum([j \in 1..(i - 1) |-> Kid(t, j) + 1]) IN
     [key |-> t.kids[i].key, pr |-> IF t.k = "obj" THEN Map(s, Kid(t, i), off, cut) ELSE <<>>,
      v |-> Node(t.kids[i].v, IF t.k = "obj" THEN s + t.kids[i].kw + 3 ELSE s, off, cut)]]]
(* --- shapes: req, heads (name, value width), kind of body, tree, cut --- *)
RECURSIVE Heads0(_, _)
Heads0(hs, p) == IF hs = <<>> THEN <<>> ELSE
  LET n == Len(Head(hs).name) + Head(hs).w + 3 IN
  <<[name |-> Head(hs).name, span |-> One(p, n), value |-> One(p + Len(Head(hs).name) + 1, Head(hs).w)]>> \o Heads0(Tail(hs), p + n)
HeadW(hs) == Sum([i \in 1..Len(hs) |-> Len(hs[i].name) + hs[i].w + 3])
Render(s, off) ==
  LET h0 == off + 8
      b0 == h0 + HeadW(s.heads) + 2
      w == IF s.body = "none" THEN 0 ELSE IF s.body = "raw" THEN 4 ELSE Width(s.doc)
      n == (b0 - off) + w + (IF s.cut > 0 THEN 5 ELSE 0)
      cut == IF s.cut > 0 THEN (w + 1) \div 2 ELSE w
  IN [req |-> s.req, bad |-> FALSE, n |-> n, all |-> One(off, n), start |-> One(off, 8), a |-> One(off, 1), b |-> One(off + 2, 2),
      headers |-> Heads0(s.heads, h0), body |-> IF w = 0 THEN <<>> ELSE Map(0, w, b0, cut), json |-> s.body = "json",
      doc |-> IF s.body = "json" THEN Node(s.doc, 0, b0, cut) ELSE None,
      bytes |-> [i \in 1..n |-> i % 3]]
Hs == <<<<>>, <<[name |-> "x", w |-> 2]>>, <<[name |-> "x", w |-> 0], [name |-> "y", w |-> 1], [name |-> "x", w |-> 3]>>>>
Shape(req, hs, body, doc, cut) == [req |-> req, heads |-> hs, body |-> body, doc |-> doc, cut |-> cut]
Bodies == {<<"none", Leaf("lit", 4)>>, <<"raw", Leaf("lit", 4)>>} \cup {<<"json", Trees[i]>> : i \in 1..Len(Trees)}
Shapes(req) == {Shape(req, Hs[k], b[1], b[2], c) : k \in 1..Len(Hs), b \in Bodies, c \in {0, 1}}
Plain(req) == Shape(req, Hs[3], "none", Leaf("lit", 4), 0)

(* --- handlers --- *)
Re(kind, w) == [kind |-> kind, w |-> w]
NoRe == Re("", <<>>)
H(sent, part, alg) == [sent |-> sent, part |-> part, alg |-> alg, has |-> FALSE, key |-> "", hk |-> FALSE, hv |-> FALSE, type |-> "", path |-> <<>>, re |-> NoRe]
With(h, hk, hv) == [h EXCEPT !.has = TRUE, !.hk = hk, !.hv = hv]
Seg(k) == [k |-> k, i |-> CASE k = "0" -> 0 [] k = "1" -> 1 [] k = "3" -> 3 [] OTHER -> -1]
P(ks) == [i \in 1..Len(ks) |-> Seg(ks[i])]
Paths == {P(<<>>), P(<<"a">>), P(<<"a", "b">>), P(<<"a", "c">>), P(<<"d">>), P(<<"d", "0">>), P(<<"d", "1", "b">>), P(<<"d", "1">>), P(<<"1">>), P(<<"0">>), P(<<"d", "3">>), P(<<"z">>), P(<<"a", "b", "z">>), P(<<"d", "b">>)}
Parts == {"START_LINE", "PROTOCOL", "METHOD", "REQUEST_TARGET", "STATUS_CODE", "HEADERS", "BODY", "ALL"}
Singles(s, alg) ==
  {H(s, p, alg) : p \in Parts} \cup {With(H(s, p, alg), hk, FALSE) : p \in Parts, hk \in BOOLEAN}
  \cup {[With(H(s, "HEADERS", alg), hk, hv) EXCEPT !.key = k] : k \in {"", "x", "y", "q"}, hk, hv \in BOOLEAN}
  \cup {[With(H(s, "BODY", alg), hk, hv) EXCEPT !.type = t, !.path = q] : t \in {"json"}, q \in Paths, hk, hv \in BOOLEAN}
  \cup {[With(H(s, "BODY", alg), FALSE, TRUE) EXCEPT !.type = "text"]}
  \cup {[With(H(s, "ALL", alg), FALSE, FALSE) EXCEPT !.type = t, !.re = r] : t \in {"regex", "json"}, r \in {NoRe, Re("word", <<1>>), Re("word", <<1, 2>>), Re("class", <<2, 0>>), Re("bad", <<>>)}}
Ev(a, b, hs) == [a |-> a, b |-> b, hs |-> hs]
One1 == {Ev(IF s THEN m ELSE Plain(TRUE), IF s THEN Plain(FALSE) ELSE m, <<h>>) : s \in {TRUE}, m \in Shapes(TRUE), h \in Singles(TRUE, "")}
        \cup {Ev(Plain(TRUE), m, <<h>>) : m \in Shapes(FALSE), h \in Singles(FALSE, "SHA256")}
Few == {h \in Singles(TRUE, "") \cup Singles(FALSE, "KECCAK256") \cup (IF Big THEN Singles(FALSE, "") \cup Singles(TRUE, "BLAKE3") ELSE {}) :
          h.part \in {"START_LINE", "STATUS_CODE"} \/ (h.part = "HEADERS" /\ h.key \in {"x"}) \/ (h.part = "BODY" /\ h.path \in {P(<<"a">>), P(<<"d", "0">>)}) \/ (h.part = "ALL" /\ h.has)}
Pair == {Ev(Shape(TRUE, Hs[3], "json", Trees[1], 0), Shape(FALSE, Hs[2], "json", Trees[1], c), <<g, h>>) : g, h \in Few, c \in {0}}
Fmt == {Ev(<<a>>, <<b>>, <<>>) : a \in Shapes(TRUE), b \in {Plain(FALSE)}} \cup {Ev(<<Plain(TRUE)>>, <<b>>, <<>>) : b \in Shapes(FALSE)}
       \cup {Ev(<<a, Plain(TRUE)>>, <<b, b>>, <<>>) : a \in {x \in Shapes(TRUE) : x.cut = 0}, b \in {x \in Shapes(FALSE) : x.body = "raw"}} \cup {Ev(<<>>, <<>>, <<>>)}
Cases == IF What = "one" THEN One1 ELSE IF What = "pair" THEN Pair ELSE Fmt
VARIABLE e
Init == e \in Cases
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e
RECURSIVE Row(_, _)
Row(ss, off) == IF ss = <<>> THEN <<>> ELSE LET m == Render(Head(ss), off) IN <<m>> \o Row(Tail(ss), off + m.n)
x0 == IF What = "fmt" THEN [ev |-> "fmt", sent |-> Row(e.a, 0), recv |-> Row(e.b, 0)]
     ELSE [ev |-> "reveal", sent |-> Render(e.a, 0), recv |-> Render(e.b, 0), handlers |-> e.hs]
(* ranges are in order, apart and inside the message; hidden parts stay hidden *)
Shape1(rs, m) == \A i \in 1..Len(rs) : rs[i][1] < rs[i][2] /\ rs[i][1] >= 0 /\ rs[i][2] <= m.n
Values(m) == {m.headers[i].value : i \in 1..Len(m.headers)}
Names(m) == {One(m.headers[i].span[1][1], Len(m.headers[i].name)) : i \in 1..Len(m.headers)}
RevealInv == What # "fmt" => LET x == x0 r == Exp(x) IN r.ok =>
  /\ Shape1(r.sent, x.sent) /\ Shape1(r.recv, x.recv)
  /\ \A i \in 1..Len(e.hs) : LET h == e.hs[i] m == Msg(x, h) p == Pos(Part(h, m).rs) IN
       /\ p \subseteq Pos(m.all)
       /\ h.part = "HEADERS" /\ h.hv => \A v \in Values(m) : p \cap Pos(v) = {}
       /\ h.part = "HEADERS" /\ h.hk => \A v \in Names(m) : p \cap Pos(v) = {}
       /\ h.part = "PROTOCOL" => p \cap (Pos(m.a) \cup Pos(m.b)) = {}
       /\ h.part # "ALL" => \/ p \subseteq Pos(m.start) \/ p \subseteq Pos(m.body)
                            \/ p \subseteq UNION {Pos(m.headers[j].span) : j \in 1..Len(m.headers)}
       (* hashed bytes are opened only by another handler *)
       /\ h.alg # "" => Pos(Part(h, m).rs) \cap Pos(IF h.sent THEN r.sent ELSE r.recv)
                          \subseteq UNION {Pos(Res(x, j).rs) : j \in {k \in 1..Len(e.hs) : e.hs[k].alg = "" /\ e.hs[k].sent = h.sent}}
       (* hiding the key and hiding the value share no byte *)
       /\ h.part = "BODY" /\ h.type = "json" /\ h.hv /\ Part(h, m).ok => LET o == Part([h EXCEPT !.hv = FALSE, !.hk = TRUE], m) IN
            (Get(m.doc, SubSeq(h.path, 1, Len(h.path) - 1)).k = "obj" => o.ok /\ p \cap Pos(o.rs) = {})
(* the message is committed, and every committed set lies in one message *)
FmtInv == What = "fmt" => LET x == x0 r == Exp(x) IN
  /\ \A i \in 1..Len(x.sent) : x.sent[i].all \in r.sent
  /\ \A c \in r.sent : c # <<>> /\ \E i \in 1..Len(x.sent) : Pos(c) \subseteq Pos(x.sent[i].all)
  /\ \A c \in r.recv : c # <<>> /\ \E i \in 1..Len(x.recv) : Pos(c) \subseteq Pos(x.recv[i].all)
  (* the frame of a message shows no header value and no body *)
  /\ \A i \in 1..Len(x.sent) : Pos(Frame(x.sent[i])) \cap Pos(x.sent[i].body) = {}
Emit == PrintT("SCN " \o ToJson(e))
=============================================================================
