-------------------------------- MODULE Wire --------------------------------
(* The wire grammar of the handshake layer of tls-core as a data structure,    *)
(* with one parser for it.  P(g, b, i, e) parses grammar g from bytes          *)
(* b[i..e] and yields [ok, i, t]: success, next index, and the parsed value    *)
(* flattened into integer tokens.  Lists give their element count, opaque      *)
(* fields their length and content, extensions their type.                     *)
EXTENDS Integers, Sequences

U8 == [k |-> "u8"]
U16 == [k |-> "u16"]
U24 == [k |-> "u24"]
U32 == [k |-> "u32"]
Fix(n) == [k |-> "fix", n |-> n]
Rest == [k |-> "rest"]
Empty == [k |-> "empty"]
One(v) == [k |-> "one", v |-> v]                        \* a byte of fixed value
Never == [k |-> "never"]
Op(lb) == [k |-> "op", lb |-> lb, max |-> 16777215]      \* length-prefixed opaque
OpMax(lb, m) == [k |-> "op", lb |-> lb, max |-> m]
Vec(lb, g) == [k |-> "vec", lb |-> lb, g |-> g, max |-> 16777215, min |-> 0]
VecMax(lb, g, m) == [k |-> "vec", lb |-> lb, g |-> g, max |-> m, min |-> 0]
Vec1(lb, g) == [k |-> "vec", lb |-> lb, g |-> g, max |-> 16777215, min |-> 1]
Cat(gs) == [k |-> "cat", gs |-> gs]
Ext(tab) == [k |-> "ext", tab |-> tab]
SniItem == [k |-> "sni"]
CsrBody == [k |-> "csr"]
Hello(n) == [k |-> "hello", n |-> n]

Int2(b, i) == b[i] * 256 + b[i + 1]
Int3(b, i) == (b[i] * 256 + b[i + 1]) * 256 + b[i + 2]
LenAt(b, i, lb) == IF lb = 1 THEN b[i] ELSE IF lb = 2 THEN Int2(b, i) ELSE Int3(b, i)

Fail == [ok |-> FALSE, i |-> 0, t |-> <<>>]
Ok(i, t) == [ok |-> TRUE, i |-> i, t |-> t]
(* Long opaque content is compared by length here (and by re-encoding).        *)
Content(b, i, j) == IF j - i + 1 > 400 THEN <<-1>> ELSE SubSeq(b, i, j)

(* ---- DNS names as server names may carry them ---- *)
IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95
RECURSIVE Dns(_, _, _, _, _)
(* s: "start" "next" "nextnum" "num" "sub" "hyp"; n: label length so far       *)
Dns(b, i, e, s, n) ==
  IF i > e THEN s \in {"next", "sub"}
  ELSE LET c == b[i] IN
    IF c = 46 THEN (IF s = "sub" THEN Dns(b, i + 1, e, "next", 0)
                    ELSE IF s = "num" THEN Dns(b, i + 1, e, "nextnum", 0) ELSE FALSE)
    ELSE IF s \in {"sub", "num", "hyp"} /\ n >= 63 THEN FALSE
    ELSE IF s \in {"start", "next", "nextnum"} THEN
         (IF IsDigit(c) THEN Dns(b, i + 1, e, "num", 1)
          ELSE IF IsAlpha(c) THEN Dns(b, i + 1, e, "sub", 1) ELSE FALSE)
    ELSE IF s = "num" /\ IsDigit(c) THEN Dns(b, i + 1, e, "num", n + 1)
    ELSE IF c = 45 THEN Dns(b, i + 1, e, "hyp", n + 1)
    ELSE IF IsDigit(c) \/ IsAlpha(c) THEN Dns(b, i + 1, e, "sub", n + 1)
    ELSE FALSE
IsDns(b, i, e) == e - i + 1 <= 253 /\ Dns(b, i, e, "start", 0)

(* ---- extension bodies, per message ---- *)
ExtBody(tab, typ, len) ==
  CASE tab = "client" ->
         (CASE typ = 11 -> Vec(1, U8)
            [] typ = 10 -> Vec(2, U16)
            [] typ = 13 -> Vec(2, U16)
            [] typ = 0  -> Vec(2, SniItem)
            [] typ = 16 -> Vec(2, Op(1))
            [] typ = 43 -> Vec(1, U16)
            [] typ = 51 -> Vec(2, Cat(<<U16, Op(2)>>))
            [] typ = 45 -> Vec(1, U8)
            [] typ = 41 -> Cat(<<Vec(2, Cat(<<Op(2), U32>>)), Vec(2, Op(1))>>)
            [] typ = 44 -> Op(2)
            [] typ = 5  -> CsrBody
            [] OTHER -> Rest)
    [] tab = "server" ->
         (CASE typ = 11 -> Vec(1, U8)
            [] typ \in {0, 35, 5, 23, 42} -> Empty
            [] typ = 65281 -> Op(1)
            [] typ = 16 -> Vec(2, Op(1))
            [] typ = 51 -> Cat(<<U16, Op(2)>>)
            [] typ = 41 -> U16
            [] typ = 18 -> Vec(2, Op(2))
            [] typ = 43 -> U16
            [] OTHER -> Rest)
    [] tab = "hrr" ->
         (CASE typ = 51 -> U16 [] typ = 44 -> Op(2) [] typ = 43 -> U16 [] OTHER -> Rest)
    [] tab = "cert" ->
         (CASE typ = 5 -> Cat(<<One(1), Op(3)>>) [] typ = 18 -> Vec(2, Op(2)) [] OTHER -> Rest)
    [] tab = "certreq" ->
         (CASE typ = 13 -> Vec1(2, U16) [] typ = 47 -> Vec(2, Op(2)) [] OTHER -> Rest)
    [] tab = "nst" ->
         (CASE typ = 42 -> U32 [] OTHER -> Rest)

(* Whether the extension is a recognised one or carried as unknown.            *)
Known(tab, typ, len) ==
  CASE tab = "client" -> typ \in {11, 10, 13, 0, 35, 16, 43, 51, 45, 41, 44, 5, 57, 65445}
                         \/ (typ \in {23, 18, 42} /\ len = 0)
    [] tab = "server" -> typ \in {11, 0, 35, 5, 23, 42, 65281, 16, 51, 41, 18, 43, 57, 65445}
    [] tab = "hrr" -> typ \in {51, 44, 43}
    [] tab = "cert" -> typ \in {5, 18}
    [] tab = "certreq" -> typ \in {13, 47}
    [] tab = "nst" -> typ = 42

HrrRandom == <<207, 33, 173, 116, 229, 154, 97, 17, 190, 29, 140, 2, 30, 101, 184, 145,
               194, 162, 17, 22, 122, 187, 140, 94, 7, 158, 9, 226, 200, 168, 51, 156>>

RECURSIVE P(_, _, _, _), PSeq(_, _, _, _, _, _), PItems(_, _, _, _, _, _)
P(g, b, i, e) ==
  CASE g.k = "u8"  -> IF i > e THEN Fail ELSE Ok(i + 1, <<b[i]>>)
    [] g.k = "u16" -> IF i + 1 > e THEN Fail ELSE Ok(i + 2, <<Int2(b, i)>>)
    [] g.k = "u24" -> IF i + 2 > e THEN Fail ELSE Ok(i + 3, <<Int3(b, i)>>)
    [] g.k = "u32" -> IF i + 3 > e THEN Fail ELSE Ok(i + 4, <<Int2(b, i), Int2(b, i + 2)>>)
    [] g.k = "fix" -> IF i + g.n - 1 > e THEN Fail ELSE Ok(i + g.n, SubSeq(b, i, i + g.n - 1))
    [] g.k = "rest" -> Ok(e + 1, <<e - i + 1>> \o Content(b, i, e))
    [] g.k = "empty" -> Ok(i, <<>>)
    [] g.k = "never" -> Fail
    [] g.k = "one" -> IF i > e THEN Fail ELSE IF b[i] # g.v THEN Fail ELSE Ok(i + 1, <<g.v>>)
    [] g.k = "op" ->
         IF i + g.lb - 1 > e THEN Fail
         ELSE LET n == LenAt(b, i, g.lb)  s == i + g.lb IN
              IF n > g.max \/ s + n - 1 > e THEN Fail
              ELSE Ok(s + n, <<n>> \o Content(b, s, s + n - 1))
    [] g.k = "vec" ->
         IF i + g.lb - 1 > e THEN Fail
         ELSE LET n == LenAt(b, i, g.lb)  s == i + g.lb IN
              IF n > g.max \/ s + n - 1 > e THEN Fail
              ELSE LET r == PItems(g.g, b, s, s + n - 1, 0, <<>>) IN
                   IF ~r.ok \/ r.n < g.min THEN Fail ELSE Ok(s + n, <<r.n>> \o r.t)
    [] g.k = "cat" -> PSeq(g.gs, 1, b, i, e, <<>>)
    [] g.k = "ext" ->
         IF i + 3 > e THEN Fail
         ELSE LET typ == Int2(b, i)  n == Int2(b, i + 2)  s == i + 4 IN
              IF s + n - 1 > e THEN Fail
              ELSE LET r == P(ExtBody(g.tab, typ, n), b, s, s + n - 1) IN
                   IF ~r.ok THEN Fail
                   ELSE IF r.i # s + n THEN Fail
                   ELSE Ok(s + n, <<typ, IF Known(g.tab, typ, n) THEN 1 ELSE 0>> \o r.t)
    [] g.k = "sni" ->
         IF i > e THEN Fail
         ELSE IF b[i] # 0 THEN Ok(e + 1, <<b[i], e - i>> \o Content(b, i + 1, e))
         ELSE LET r == P(Op(2), b, i + 1, e) IN
              IF ~r.ok THEN Fail
              ELSE IF ~IsDns(b, i + 3, r.i - 1) THEN Fail ELSE Ok(r.i, <<0>> \o r.t)
    [] g.k = "csr" ->
         IF i > e THEN Fail
         ELSE IF b[i] # 1 THEN Ok(e + 1, <<b[i], e - i>> \o Content(b, i + 1, e))
         ELSE LET r == P(Cat(<<Vec(2, Op(2)), Op(2)>>), b, i + 1, e) IN
              IF ~r.ok THEN Fail ELSE Ok(r.i, <<1>> \o r.t)
PSeq(gs, k, b, i, e, t) ==
  IF k > Len(gs) THEN Ok(i, t)
  ELSE LET r == P(gs[k], b, i, e) IN
       IF ~r.ok THEN Fail ELSE PSeq(gs, k + 1, b, r.i, e, t \o r.t)
PItems(g, b, i, e, n, t) ==
  IF i > e THEN [ok |-> TRUE, n |-> n, t |-> t]
  ELSE LET r == P(g, b, i, e) IN
       IF ~r.ok THEN [ok |-> FALSE, n |-> 0, t |-> <<>>]
       ELSE PItems(g, b, r.i, e, n + 1, t \o r.t)

SessionId == OpMax(1, 32)
CertEntry == Cat(<<Op(3), Vec(2, Ext("cert"))>>)
V13 == 772

(* ---- handshake message bodies by type; `v` is the negotiated version ---- *)
Body(t, v) ==
  CASE t = 1 -> Cat(<<U16, Fix(32), SessionId, Vec(2, U16), Vec(1, U8), Vec1(2, Ext("client"))>>)
    [] t = 2 -> Cat(<<U16, Fix(32), SessionId, U16, U8, Vec(2, Ext("server"))>>)
    [] t = 4 -> IF v = V13 THEN Cat(<<U32, U32, Op(1), Op(2), Vec(2, Ext("nst"))>>) ELSE Cat(<<U32, Op(2)>>)
    [] t \in {5, 14} -> Empty
    [] t = 6 -> Never
    [] t = 8 -> Vec(2, Ext("server"))
    [] t = 11 -> IF v = V13 THEN Cat(<<Op(1), VecMax(3, CertEntry, 65536)>>) ELSE VecMax(3, Op(3), 65536)
    [] t = 13 -> IF v = V13 THEN Cat(<<Op(1), Vec(2, Ext("certreq"))>>)
                 ELSE Cat(<<Vec(1, U8), Vec1(2, U16), Vec(2, Op(2))>>)
    [] t = 15 -> Cat(<<U16, Op(2)>>)
    [] t = 22 -> Cat(<<One(1), Op(3)>>)
    [] t = 24 -> U8
    [] t = 254 -> Never
    [] OTHER -> Rest          \* opaque (finished, key exchange) or unknown

HrrBody == Cat(<<U16, Fix(32), SessionId, U16, One(0), Vec(2, Ext("hrr"))>>)

(* Parses one handshake message off the front of b. tt is the message kind:    *)
(* a ServerHello with the special random is a HelloRetryRequest (6).           *)
Message(b, v) ==
  IF Len(b) < 4 THEN [ok |-> FALSE, tt |-> 0, used |-> 0, t |-> <<>>]
  ELSE LET n == Int3(b, 2)
           hrr == b[1] = 2 /\ n >= 34 /\ Len(b) >= 38 /\ SubSeq(b, 7, 38) = HrrRandom
           g == IF hrr THEN HrrBody ELSE IF b[1] = 0 /\ n = 0 THEN Empty ELSE Body(b[1], v)
       IN IF 4 + n > Len(b) THEN [ok |-> FALSE, tt |-> 0, used |-> 0, t |-> <<>>]
          ELSE LET r == P(g, b, 5, 4 + n) IN
               IF ~r.ok THEN [ok |-> FALSE, tt |-> 0, used |-> 0, t |-> <<>>]
               ELSE IF r.i # 5 + n THEN [ok |-> FALSE, tt |-> 0, used |-> 0, t |-> <<>>]
               ELSE [ok |-> TRUE, tt |-> IF hrr THEN 6 ELSE b[1], used |-> 4 + n, t |-> r.t]

HsRes(e) == LET m == Message(e.b, e.v) IN
            [ok |-> m.ok, tt |-> m.tt, used |-> m.used, t |-> m.t, renc |-> m.ok]
=============================================================================
