------------------------------- MODULE WireQ --------------------------------
(* What the accessors of parsed handshake messages must answer, defined on     *)
(* the wire bytes: duplicate and unknown extensions, first-match lookups,       *)
(* server names, ALPN, key shares, pre-shared keys and binders.                 *)
EXTENDS Wire

Opt(x, t) == IF x THEN <<1>> \o t ELSE <<0>>
B(x) == IF x THEN 1 ELSE 0

RECURSIVE ExtItems(_, _, _, _)
ExtItems(tab, b, i, e) ==
  IF i > e THEN <<>>
  ELSE LET n == Int2(b, i + 2) IN
       <<[typ |-> Int2(b, i), known |-> Known(tab, Int2(b, i), n), s |-> i + 4, e |-> i + 3 + n,
          t |-> P(ExtBody(tab, Int2(b, i), n), b, i + 4, i + 3 + n).t]>> \o ExtItems(tab, b, i + 4 + n, e)
ExtVec(tab, b, i) == ExtItems(tab, b, i + 2, i + 1 + Int2(b, i))

Dup(xs) == \E p, q \in 1..Len(xs) : p # q /\ xs[p].typ = xs[q].typ
First(xs, typ) == LET S == {p \in 1..Len(xs) : xs[p].typ = typ} IN
                  IF S = {} THEN 0 ELSE CHOOSE p \in S : \A q \in S : p <= q
Has(xs, typ) == First(xs, typ) > 0
Find(xs, typ) == LET p == First(xs, typ) IN IF p = 0 THEN <<0>> ELSE <<1, typ, B(xs[p].known)>> \o xs[p].t
Get(xs, typ) == LET p == First(xs, typ) IN IF p = 0 THEN <<0>> ELSE IF xs[p].known THEN <<1>> \o xs[p].t ELSE <<0>>
Types == <<0, 5, 10, 11, 13, 16, 18, 23, 35, 41, 42, 43, 44, 45, 51, 57, 65281, 65445, 21>>
RECURSIVE FindAll(_, _)
FindAll(xs, k) == IF k > Len(Types) THEN <<>> ELSE Find(xs, Types[k]) \o FindAll(xs, k + 1)

(* lists whose items have shape <<head, len, bytes...>> or <<len, bytes...>>    *)
RECURSIVE Heads(_, _, _)
Heads(t, i, n) == IF n = 0 THEN <<>> ELSE <<t[i]>> \o Heads(t, i + 2 + t[i + 1], n - 1)
HasDup(s) == \E p, q \in 1..Len(s) : p # q /\ s[p] = s[q]
RECURSIVE FirstHost(_, _, _)
FirstHost(t, i, n) == IF n = 0 THEN <<0>>
                      ELSE IF t[i] = 0 THEN <<1>> \o SubSeq(t, i + 1, i + 1 + t[i + 1])
                      ELSE FirstHost(t, i + 2 + t[i + 1], n - 1)
Single(t) == IF t[1] = 1 THEN <<1>> \o SubSeq(t, 2, Len(t)) ELSE <<0>>
AlpnOf(xs) == LET p == First(xs, 16) IN IF p = 0 THEN <<0>> ELSE Single(xs[p].t)

ChExts(b) == LET e == 4 + Int3(b, 2)
                 r == P(Cat(<<U16, Fix(32), SessionId, Vec(2, U16), Vec(1, U8)>>), b, 5, e)
             IN ExtVec("client", b, r.i)
(* byte position where the binder list of a trailing pre-shared key starts      *)
BinderPos(b, x) == x.s + 2 + Int2(b, x.s)
ChQ(b) ==
  LET xs == ChExts(b)
      L == Len(xs)
      last == xs[L]
      ks == First(xs, 51)
      md == First(xs, 45)
      sn == First(xs, 0)
      modes == IF md = 0 THEN {} ELSE {xs[md].t[j] : j \in 2..Len(xs[md].t)}
  IN <<B(Dup(xs))>> \o FindAll(xs, 1)
     \o Get(xs, 0) \o Get(xs, 13) \o Get(xs, 10) \o Get(xs, 11) \o Get(xs, 16) \o Find(xs, 35)
     \o Get(xs, 43) \o Get(xs, 51) \o Get(xs, 41) \o Get(xs, 45)
     \o <<B(IF ks = 0 THEN FALSE ELSE HasDup(Heads(xs[ks].t, 2, xs[ks].t[1])))>>
     \o <<B(last.typ = 41), B(0 \in modes), B(1 \in modes), B(Has(xs, 23)), B(Has(xs, 42))>>
     \o (IF sn = 0 THEN <<0>>
         ELSE <<1, B(HasDup(Heads(xs[sn].t, 2, xs[sn].t[1])))>> \o FirstHost(xs[sn].t, 2, xs[sn].t[1]))
     \o (IF First(xs, 16) = 0 THEN <<0>> ELSE <<1>> \o Single(xs[First(xs, 16)].t))
     \o <<IF last.typ = 41 THEN BinderPos(b, last) - 1 ELSE 4 + Int3(b, 2)>>

(* Replacing the first binder of a trailing pre-shared key extension; every     *)
(* other message, and everything else in it, stays byte for byte.               *)
U16B(n) == <<n \div 256, n % 256>>
SetBinder(b, nb) ==
  LET xs == ChExts(b)
      last == xs[Len(xs)]
      p == BinderPos(b, last)
      old == b[p + 2]
  IN IF last.typ # 41 THEN b
     ELSE LET d == Len(nb) - old
              body == U16B(Int2(b, p) + d) \o <<Len(nb)>> \o nb \o SubSeq(b, p + 3 + old, Len(b))
              ev == last.s - 4                       \* extension header
              e0 == P(Cat(<<U16, Fix(32), SessionId, Vec(2, U16), Vec(1, U8)>>), b, 5, Len(b)).i
              n == Int3(b, 2) + d
          IN <<b[1], n \div 65536, (n \div 256) % 256, n % 256>> \o SubSeq(b, 5, e0 - 1)
             \o U16B(Int2(b, e0) + d) \o SubSeq(b, e0 + 2, ev + 1) \o U16B(Int2(b, ev + 2) + d)
             \o SubSeq(b, ev + 4, p - 1) \o body

SrvQ(xs) == <<B(Dup(xs))>> \o FindAll(xs, 1) \o AlpnOf(xs) \o <<B(Has(xs, 42))>>
ShQ(b) == LET r == P(Cat(<<U16, Fix(32), SessionId, U16, U8>>), b, 5, 4 + Int3(b, 2))
              xs == ExtVec("server", b, r.i)
          IN SrvQ(xs) \o Get(xs, 51) \o Get(xs, 41) \o Get(xs, 11) \o <<B(Has(xs, 23))>> \o Get(xs, 18) \o Get(xs, 43)
EeQ(b) == SrvQ(ExtVec("server", b, 5))
HrrQ(b) == LET r == P(Cat(<<U16, Fix(32), SessionId, U16, U8>>), b, 5, 4 + Int3(b, 2))
               xs == ExtVec("hrr", b, r.i)
           IN <<B(Dup(xs)), B(\E p \in 1..Len(xs) : xs[p].typ \notin {51, 43, 44})>>
              \o Get(xs, 51) \o Get(xs, 44) \o Get(xs, 43)
RECURSIVE Entries(_, _, _)
Entries(b, i, e) ==
  IF i > e THEN <<>>
  ELSE LET c == P(Op(3), b, i, e)
           n == Int2(b, c.i) IN
       <<[c |-> c.t, xs |-> ExtVec("cert", b, c.i)]>> \o Entries(b, c.i + 2 + n, e)
RECURSIVE CatCerts(_)
CatCerts(en) == IF en = <<>> THEN <<>> ELSE Head(en).c \o CatCerts(Tail(en))
Cert13Q(b) ==
  LET s == P(Op(1), b, 5, Len(b)).i
      en == Entries(b, s + 3, s + 2 + Int3(b, s))
      x1 == IF en = <<>> THEN <<>> ELSE en[1].xs
      oc == First(x1, 5)
      sc == First(x1, 18)
  IN <<B(\E p \in 1..Len(en) : Dup(en[p].xs)),
       B(\E p \in 1..Len(en) : \E q \in 1..Len(en[p].xs) : en[p].xs[q].typ \notin {5, 18}),
       B(\E p \in 1..Len(en) : en[p].xs # <<>>)>>
     \o (IF oc = 0 THEN <<0>> ELSE SubSeq(x1[oc].t, 2, Len(x1[oc].t)))
     \o (IF sc = 0 THEN <<0>> ELSE <<1>> \o x1[sc].t)
     \o <<Len(en)>> \o CatCerts(en)
CertReq13Q(b) == LET xs == ExtVec("certreq", b, P(Op(1), b, 5, Len(b)).i)
                 IN Find(xs, 13) \o Find(xs, 47) \o Find(xs, 21) \o Get(xs, 13) \o Get(xs, 47)
NstQ(b) == LET xs == ExtVec("nst", b, P(Cat(<<U32, U32, Op(1), Op(2)>>), b, 5, Len(b)).i)
           IN <<B(Dup(xs))>> \o Find(xs, 42) \o Find(xs, 21) \o Get(xs, 42)

Exact(g, bs) == LET r == P(g, bs, 1, Len(bs)) IN IF r.ok THEN (IF r.i = Len(bs) + 1 THEN <<1>> \o r.t ELSE <<0>>) ELSE <<0>>
Ecdhe == Cat(<<One(3), U16, Op(1), U16, Op(2)>>)
SkeQ(b) == Exact(Ecdhe, SubSeq(b, 5, 4 + Int3(b, 2))) \o <<0, 0, 0, 0, 0>>   \* other key exchanges: never
EcdhParams(bs) == Exact(Cat(<<One(3), U16, Op(1)>>), bs) \o Exact(Op(1), bs)

QRes(b, v) ==
  LET m == Message(b, v) IN
  IF ~m.ok THEN <<>>
  ELSE CASE m.tt = 1 -> ChQ(b) [] m.tt = 2 -> ShQ(b) [] m.tt = 6 -> HrrQ(b) [] m.tt = 8 -> EeQ(b)
         [] m.tt = 11 /\ v = V13 -> Cert13Q(b)
         [] m.tt = 13 /\ v = V13 -> CertReq13Q(b)
         [] m.tt = 4 /\ v = V13 -> NstQ(b)
         [] m.tt = 12 -> SkeQ(b)
         [] OTHER -> <<>>
=============================================================================
