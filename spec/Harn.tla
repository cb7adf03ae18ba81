-------------------------------- MODULE Harn --------------------------------
(* Test/benchmark harness: expansion of a benchmark file into runs, address plan *)
(* of a test network, IO modes, command outputs, statuses, measurements.         *)
(* Names are byte sequences; an optional value is <<>> or <<v>>.                 *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Lt(_, _)
Lt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
            ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Lt(Tail(a), Tail(b)))
OptLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE Lt(a[1], b[1])
(* runs are ordered by group, then by name; no group/name comes first *)
Before(x, y) == OptLt(x.group, y.group) \/ (x.group = y.group /\ OptLt(x.name, y.name))

\* samples, protocol and app latency, bandwidth, upload, download, defer, memory profile, reveal all, proxy
Defaults == <<1, 50, 50, 1000, 1024, 4096, 1, 0, 0, 0>>
Groups(e, n) == {k \in 1..Len(e.groups) : e.groups[k].name = n}
Last(S) == CHOOSE k \in S : \A j \in S : j <= k
(* the item's own value wins over its group's, that one over the default *)
Eff(e, it, k) ==
  IF it.f[k] # <<>> THEN it.f[k]
  ELSE IF it.group = <<>> THEN <<>> ELSE e.groups[Last(Groups(e, it.group[1]))].f[k]
Val(e, it, k) == IF Eff(e, it, k) = <<>> THEN Defaults[k] ELSE Eff(e, it, k)[1]
Run(e, it) == [group |-> it.group, name |-> it.name, v |-> [k \in 1..9 |-> Val(e, it, k + 1)]]
Count(e, it) == IF e.ovr \/ Eff(e, it, 1) = <<>> THEN e.samples ELSE Eff(e, it, 1)[1]
Defined(e) == \A p \in 1..Len(e.items) : e.items[p].group # <<>> => Groups(e, e.items[p].group[1]) # {}
RECURSIVE Insert(_, _, _)
Insert(s, x, n) ==   \* n copies of x after everything not greater than it
  IF s # <<>> /\ ~Before(x, s[1]) THEN <<s[1]>> \o Insert(Tail(s), x, n)
  ELSE [p \in 1..n |-> x] \o s
RECURSIVE Expand(_, _)
Expand(e, p) == IF p = 0 THEN <<>> ELSE Insert(Expand(e, p - 1), Run(e, e.items[p]), Count(e, e.items[p]))
Bench(e) == IF Defined(e) THEN [res |-> "ok", b |-> Expand(e, Len(e.items))] ELSE [res |-> "refused", b |-> <<>>]

(* Address plan: the first ten hosts of the subnet, in this order, each with its port. *)
Ports == <<0, 8000, 8000, 8000, 8000, 8000, 8000, 8000, 0, 0>>
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
MaskByte(b, bits) == IF bits >= 8 THEN b ELSE IF bits <= 0 THEN 0 ELSE b - (b % Pow2[9 - bits])
Base(e) == [k \in 1..4 |-> MaskByte(e.ip[k], e.prefix - 8 * (k - 1))]
Host(e, n) == <<Base(e)[1], Base(e)[2], Base(e)[3], Base(e)[4] + n>>
Net(e) == IF e.prefix > 28 THEN [res |-> "refused", a |-> <<>>]
          ELSE [res |-> "ok", wasm |-> <<127, 0, 0, 1, 8080>>, subnet |-> TRUE,
                a |-> [n \in 1..10 |-> IF Ports[n] = 0 THEN Host(e, n) ELSE Append(Host(e, n), Ports[n])]]

Lower(s) == [k \in 1..Len(s) |-> IF s[k] \in 65..90 THEN s[k] + 32 ELSE s[k]]
Client == <<99, 108, 105, 101, 110, 116>>
Server == <<115, 101, 114, 118, 101, 114>>
Mode(s) == IF Lower(s) = Client THEN [m |-> "client", shown |-> "client"]
           ELSE IF Lower(s) = Server THEN [m |-> "server", shown |-> "server"] ELSE [m |-> "err", shown |-> ""]
OutNames == <<"Empty", "GetTests", "Test", "Bench">>
OutP(e) == IF e.have = e.want THEN "ok"
           ELSE "unexpected command output: expected " \o OutNames[e.want + 1] \o ", got " \o OutNames[e.have + 1]
(* a measurement carries its configuration and its metrics, each under its own name *)
Meas(e) == [gn |-> TRUE, v |-> <<e.c[1], e.c[3], e.c[4], e.c[5], e.c[6], e.c[9]>> \o e.m]
Exp(e) == CASE e.ev = "bench" -> Bench(e)
            [] e.ev = "net" -> Net(e)
            [] e.ev = "mode" -> Mode(e.s)
            [] e.ev = "outp" -> OutP(e)
            [] e.ev = "status" -> (e.st = "passed")
            [] e.ev = "meas" -> Meas(e)
            [] e.ev = "wire" -> TRUE
Ok(e) == e.out = Exp(e)
==============================================================================
