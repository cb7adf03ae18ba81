-------------------------------- MODULE Attest ------------------------------
(* Attestations: what a notary signs, what a prover accepts from it, and what a   *)
(* verifier accepts from the prover. Signatures and hashes are ideal.             *)
EXTENDS Canon
LOCAL M == INSTANCE Merkle
No == [ok |-> FALSE]

(* ---- the notary ---- *)
(* e.sup [sig, hash]: lists of supported algorithms (hash <<>>: as by default)    *)
(* e.val: extensions allowed: "none" (default), "any", "one" (identifier 1 only)  *)
(* e.prov [sig, hash]: algorithms of its provider      e.req [sig, hash, exts]    *)
(* e.conn, e.ekey: values set, in order        e.more: extensions it adds          *)
(* e.cms: lists of commitments set, in order                                      *)
SupHash(e) == IF e.sup.hash = <<>> THEN {1, 2, 3} ELSE Rng(e.sup.hash)
Allowed(e) == CASE e.val = "any" -> TRUE [] e.val = "none" -> e.req.exts = <<>>
                [] e.val = "one" -> \A q \in DOMAIN e.req.exts : e.req.exts[q].id = <<1>>
Accepts(e) == e.req.sig \in Rng(e.sup.sig) /\ e.req.hash \in SupHash(e) /\ Allowed(e)
Builds(e) == e.req.sig \in Rng(e.prov.sig) /\ e.req.hash \in ({1, 2, 3} \cup Rng(e.prov.hash)) /\ e.conn # <<>> /\ e.ekey # <<>>
LastOf(s, d) == IF s = <<>> THEN d ELSE s[Len(s)]
Notary(e) == IF ~Accepts(e) THEN [at |-> "accept"]
             ELSE IF ~Builds(e) THEN [at |-> "build"]
             ELSE [at |-> "ok", sig |-> e.req.sig, signer |-> e.req.sig, hash |-> e.req.hash, version |-> 0, conn |-> LastOf(e.conn, 0), ekey |-> LastOf(e.ekey, 0),
                   cert |-> TRUE, exts |-> e.req.exts \o e.more, cms |-> LastOf(e.cms, <<>>), fresh |-> TRUE, valid |-> TRUE]
(* ---- the root of the body and what is signed ---- *)
RootOf(e) == [leaves |-> Fields(e), shape |-> Shape(Len(Fields(e))),
              signed |-> HeadOf([id |-> e.out.id, root |-> [alg |-> e.alg, value |-> e.out.root]]),
              id |-> e.out.id, root |-> e.out.root]

(* ---- the opening of the certificate commitment ---- *)
Open(e) == IF ~(e.have.name /\ e.have.hs /\ e.have.tr) \/ (e.alg \notin {1, 2, 3} /\ ~e.have.hash) THEN No
           ELSE [ok |-> TRUE, dom |-> "ServerCertOpening", b |-> Hand(e.hs), blind |-> 16, alg |-> e.alg, value |-> TRUE, fresh |-> TRUE,
                 sig |-> e.sig, exts |-> e.exts, name |-> TRUE, tr |-> TRUE]
(* certificate identity: e.f lists what is wrong                                  *)
Ident(e) == [ok |-> e.f = <<>>]

(* ---- signing ---- *)
(* e.by: key that signs (kind, number)  e.alg: algorithm it signs with            *)
(* e.key: key shown [kind, n, as]       e.ver: verifier   e.same: the message      *)
(* e.t: "" | what was done to the signature bytes                                 *)
Sign(e) == [ok |-> e.ver = e.alg /\ e.key.kind = e.by.kind /\ e.key.n = e.by.n /\ e.key.as = e.by.kind /\ e.key.t = "" /\ e.same /\ e.t = "",
            n |-> IF e.alg = 3 THEN 65 ELSE 64, v |-> TRUE, as |-> e.alg, kind |-> e.by.kind]
SKey(e) == [ok |-> e.k = "ok"]
Ids(e) == [key |-> e.id >= 128, sig |-> e.id >= 128]

(* ---- attestations in the hands of an adversary ---- *)
(* a body is a sequence of fields <<id, kind, val>>; val % 10 tells apart fields of *)
(* a kind, val \div 10 is 0 for what the notary wrote and else a variant of it.    *)
(* kinds: 1 key, 2 connection, 3 ephemeral key, 4 certificate, 5 ext, 6 commitment *)
Leaf(f) == <<f[2], f[3], 0>>
RECURSIVE ById(_)
ById(b) == IF b = <<>> THEN <<>>
           ELSE LET s == ById(SubSeq(b, 1, Len(b) - 1))
                    x == b[Len(b)]
                    n == Cardinality({q \in DOMAIN s : s[q][1] <= x[1]}) IN
                SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
Hashes(b) == LET s == ById(b) IN [q \in DOMAIN s |-> Leaf(s[q])]
Field0(nE, k) == <<k - 1, IF k <= 4 THEN k ELSE IF k <= 4 + nE THEN 5 ELSE 6, IF k <= 4 THEN 0 ELSE k - 4>>
Body0(e) == [k \in 1..(4 + e.nE + e.nC) |-> Field0(e.nE, k)]
CurveOf(a) == IF a \in {1, 3} THEN "k256" ELSE IF a = 2 THEN "p256" ELSE IF a = 130 THEN "own" ELSE ""
Start(e) == LET b == Body0(e) IN
  [curve |-> CurveOf(e.sig), alg |-> e.sig, made |-> e.sig, by |-> 0, flip |-> FALSE,
   hdr |-> [id |-> 0, ver |-> 0, alg |-> e.hash, ralg |-> e.hash, root |-> M!Root(Hashes(b)), bad |-> FALSE],
   over |-> [id |-> 0, ver |-> 0, alg |-> e.hash, ralg |-> e.hash, root |-> M!Root(Hashes(b)), bad |-> FALSE],
   body |-> b, count |-> Len(b), lacksig |-> FALSE, lackhash |-> FALSE]
IsExt(p, k) == k \in DOMAIN p.body /\ p.body[k][2] \in {5, 6}
Put(b, f) == SelectSeq(b, LAMBDA x : x[2] <= f[2]) \o <<f>> \o SelectSeq(b, LAMBDA x : x[2] > f[2])
Do(p, o) ==
  CASE o.o = "sig" -> [p EXCEPT !.flip = ~@]
    [] o.o = "sigalg" -> [p EXCEPT !.alg = o.v]
    [] o.o = "hid" -> [p EXCEPT !.hdr.id = 1 - @]
    [] o.o = "hver" -> [p EXCEPT !.hdr.ver = 1 - @]
    [] o.o = "hroot" -> [p EXCEPT !.hdr.bad = ~@]
    [] o.o = "halg" -> [p EXCEPT !.hdr.alg = o.v]
    [] o.o = "val" -> IF o.k \in DOMAIN p.body THEN [p EXCEPT !.body[o.k][3] = (@ % 10) + 10 * o.v] ELSE p
    [] o.o = "id" -> IF o.k \in DOMAIN p.body THEN [p EXCEPT !.body[o.k][1] = o.v] ELSE p
    [] o.o = "swap" -> IF o.k \in DOMAIN p.body /\ o.j \in DOMAIN p.body
                       THEN [p EXCEPT !.body[o.k][1] = p.body[o.j][1], !.body[o.j][1] = p.body[o.k][1]] ELSE p
    [] o.o = "add" -> [p EXCEPT !.body = Put(@, <<Len(p.body), 5, 9>>)]
    [] o.o = "dup" -> IF IsExt(p, o.k) THEN [p EXCEPT !.body = Put(@, p.body[o.k])] ELSE p
    [] o.o = "del" -> IF IsExt(p, o.k) THEN [p EXCEPT !.body = SubSeq(@, 1, o.k - 1) \o SubSeq(@, o.k + 1, Len(@))] ELSE p
    [] o.o = "count" -> [p EXCEPT !.count = @ + o.v]
    [] o.o = "reroot" -> [p EXCEPT !.hdr.root = M!Root(Hashes(p.body)), !.hdr.ralg = p.hdr.alg, !.hdr.bad = FALSE]
    [] o.o = "resign" -> [p EXCEPT !.by = IF CurveOf(p.alg) = p.curve THEN 10 ELSE 90, !.made = p.alg, !.over = p.hdr, !.flip = FALSE]
    [] o.o = "lacksig" -> [p EXCEPT !.lacksig = TRUE]
    [] o.o = "lackhash" -> [p EXCEPT !.lackhash = TRUE]
RECURSIVE Fold(_, _)
Fold(p, ops) == IF ops = <<>> THEN p ELSE Fold(Do(p, ops[1]), Tail(ops))
SigKnown == {1, 2, 3, 130}
HashKnown(p) == {1, 2, 3} \cup (IF p.lackhash THEN {} ELSE {200})
Signed(p) == /\ ~p.flip /\ p.alg = p.made /\ p.hdr = p.over
             /\ \E q \in DOMAIN p.body : p.body[q][2] = 1 /\ p.body[q][3] = p.by
             /\ ~p.lacksig /\ p.alg \in SigKnown
RootOk(p) == ~p.hdr.bad /\ p.hdr.alg = p.hdr.ralg
IdSet(p) == {p.body[q][1] : q \in DOMAIN p.body}
(* a verifier: every field shown is where the signed tree has it                   *)
Shown(p) == /\ p.hdr.alg \in HashKnown(p)
            /\ Cardinality(IdSet(p)) = Len(p.body)
            /\ \A i \in IdSet(p) : i < p.count
            /\ RootOk(p)
            /\ M!Recompute([i \in IdSet(p) |-> Leaf(p.body[CHOOSE q \in DOMAIN p.body : p.body[q][1] = i])], <<>>, p.count) = p.hdr.root
Verify(p) == Shown(p) /\ Signed(p)
(* the prover: what came back is what was asked for, signed as a whole             *)
Validate(e, p) == /\ p.alg = e.rsig /\ p.hdr.alg = e.rhash
                  /\ \E q \in DOMAIN p.body : p.body[q][2] = 4 /\ p.body[q][3] = e.rcert
                  /\ \A x \in Rng(e.rexts) : \E q \in DOMAIN p.body : p.body[q][2] = 5 /\ p.body[q][3] = x
                  /\ Signed(p)
                  /\ p.hdr.alg \in HashKnown(p) /\ RootOk(p)
                  /\ IdSet(p) = 0..(Len(p.body) - 1) /\ M!Root(Hashes(p.body)) = p.hdr.root
(* a presentation can be made of a body numbered as notaries do                     *)
Presents(p) == p.hdr.alg \in HashKnown(p) /\ IdSet(p) = 0..(Len(p.body) - 1)
Vals(p, k) == LET s == SelectSeq(p.body, LAMBDA f : f[2] = k) IN [q \in DOMAIN s |-> s[q][3]]
Seen(p) == IF Verify(p) THEN [ok |-> TRUE, key |-> Vals(p, 1)[1], conn |-> Vals(p, 2)[1], exts |-> Vals(p, 5), n |-> Len(p.body)] ELSE No

(* ---- presentations: e.id and e.tr say what is presented besides ---- *)
IdOk(e) == e.id \in {"", "good"}
TrOk(e) == e.tr \in {"", "good", "part"}
Pres(e) == IF IdOk(e) /\ TrOk(e)
           THEN [ok |-> TRUE, name |-> e.id = "good", tr |-> e.tr # "", shown |-> IF e.tr = "good" THEN 6 ELSE IF e.tr = "part" THEN 3 ELSE 0, exts |-> e.nE, key |-> TRUE, conn |-> TRUE, same |-> TRUE]
           ELSE No

AttestExp(e) ==
  CASE e.ev = "notary" -> Notary(e)
    [] e.ev = "root" -> RootOf(e)
    [] e.ev = "open" -> Open(e)
    [] e.ev = "ident" -> Ident(e)
    [] e.ev = "sign" -> Sign(e)
    [] e.ev = "skey" -> SKey(e)
    [] e.ev = "ids" -> Ids(e)
    [] e.ev = "validate" -> [ok |-> Validate(e, Fold(Start(e), e.ops))]
    [] e.ev = "makes" -> [ok |-> Presents(Fold(Start(e), e.ops))]
    [] e.ev = "verify" -> Seen(Fold(Start(e), e.ops))
    [] e.ev = "pres" -> Pres(e)
AttestOk(e) == e.out = AttestExp(e)
==============================================================================
