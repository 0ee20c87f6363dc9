-------------------------------- MODULE Span --------------------------------
(***************************************************************************)
(* Arithmetic of dates (D), day spans (S), instants (T) and time spans (N).*)
(* A value is <<day, sec, ns>> (Cal), <<>> when missing.  The state is a   *)
(* set of registers, each an array [k kind, z zone, v values]; a register  *)
(* of kind "?" holds something the specification says nothing about.       *)
(***************************************************************************)
EXTENDS Cal

Unk == [k |-> "?", z |-> "", v |-> <<>>]
Point(k) == k \in {"D", "T"}
Nano(k) == k \in {"T", "N"}
InRange(x) == x = Miss \/ (x[1] >= 2 /\ x[1] <= 25900)
IsMiss(x) == x = Miss

(* ---- the kind of a result; "X" is refused, "?" unspecified ---- *)
AddKind(a, b) ==
  CASE {a, b} \subseteq {"D", "T"} -> "X"
    [] {a, b} = {"D", "S"} \/ {a, b} = {"D", "I"} -> "D"
    [] {a, b} = {"D", "N"} -> "T"
    [] "T" \in {a, b} -> "T"
    [] {a, b} \subseteq {"S", "I"} -> "S"
    [] OTHER -> "N"
SubKind(a, b) ==
  CASE a = "I" /\ b \in {"D", "T"} -> "X"
    [] a = "I" /\ b = "S" -> "?"
    [] a \in {"S", "N"} /\ Point(b) -> "X"
    [] a = "D" /\ b = "D" -> "S"
    [] Point(a) /\ Point(b) -> "N"
    [] a = "D" /\ b = "N" -> "T"
    [] a = "T" -> "T" [] a = "D" -> "D"
    [] {a, b} \subseteq {"S", "I"} -> "S"
    [] OTHER -> "N"
\* a plain number counts days next to D and S, nanoseconds next to T and N
Conv(o, other) == IF o.k # "I" THEN o ELSE [o EXCEPT !.v = [i \in DOMAIN o.v |-> IF o.v[i] = Miss THEN Miss ELSE IF Nano(other) THEN Norm(0, 0, o.v[i][1]) ELSE o.v[i]]]
Neg(x) == IF x = Miss THEN Miss ELSE TNeg(x)
PlusM(x, y) == IF x = Miss \/ y = Miss THEN Miss ELSE TAdd(x, y)
MinusM(x, y) == IF x = Miss \/ y = Miss THEN Miss ELSE TSub(x, y)
\* broadcasting
BLen(a, b) == IF Len(a) = 1 THEN Len(b) ELSE Len(a)
At(a, i) == IF Len(a) = 1 THEN a[1] ELSE a[i]
ZipM(a, b, F(_, _)) == [i \in 1..BLen(a, b) |-> F(At(a, i), At(b, i))]
ZoneOf(kind, a, b) == IF kind # "T" THEN "" ELSE IF a.k = "T" THEN a.z ELSE IF b.k = "T" THEN b.z ELSE "UTC"
Fits(a, b) == Len(a.v) = Len(b.v) \/ Len(a.v) = 1 \/ Len(b.v) = 1
Bin(op, a0, b0) ==
  LET a == Conv(a0, b0.k)  b == Conv(b0, a0.k)
      k == IF op = "add" THEN AddKind(a.k, b.k) ELSE SubKind(a.k, b.k)
      r == IF op = "add" THEN ZipM(a.v, b.v, PlusM) ELSE ZipM(a.v, b.v, MinusM)
  IN CASE a.k = "?" \/ b.k = "?" \/ ~Fits(a, b) -> Unk
       [] k \in {"X", "?"} -> [k |-> k, z |-> "", v |-> <<>>]
       [] Point(k) /\ \E i \in DOMAIN r : ~InRange(r[i]) -> Unk
       [] OTHER -> [k |-> k, z |-> ZoneOf(k, a, b), v |-> r]

(* ---- comparisons; 1, 0, or -1 for either ---- *)
CmpKind(a, b) == IF a = b THEN "ok" ELSE IF {a, b} \in {{"D", "T"}, {"S", "N"}} THEN "ok" ELSE "X"
Rel(op, x, y) == CASE op = "eq" -> x = y [] op = "ne" -> x # y [] op = "lt" -> TLess(x, y) [] op = "le" -> TLeq(x, y)
                   [] op = "gt" -> TLess(y, x) [] op = "ge" -> TLeq(y, x)
\* a date next to an instant is the midnight that starts it in the zone of the instant
Moments(k, x, z) == IF k = "D" THEN UtcOf(Canon(z), x) ELSE {x}
CmpAllowed(op, a, b, i) ==
  LET x == At(a.v, i)  y == At(b.v, i)  spansNA == (a.k = "S" /\ x = Miss) \/ (b.k = "S" /\ y = Miss)
  IN CASE spansNA -> {0, 1}
       [] x = Miss \/ y = Miss -> {B(op = "ne")}
       [] {a.k, b.k} = {"D", "T"} -> {B(Rel(op, p, q)) : p \in Moments(a.k, x, IF a.k = "T" THEN a.z ELSE b.z), q \in Moments(b.k, y, IF a.k = "T" THEN a.z ELSE b.z)}
       [] OTHER -> {B(Rel(op, x, y))}

(* ---- tolerance: a time span is a double, exact below 2^53 ns (104 days) ---- *)
AbsT(x) == IF x[1] < 0 THEN TNeg(x) ELSE x
Within(x, y, ns) == TLeq(AbsT(TSub(x, y)), <<0, 0, ns>>)
SameV(k, x, y) == x = y \/ (k = "N" /\ x # Miss /\ y # Miss /\ Len(y) = 3 /\ AbsT(x)[1] >= 100 /\ Within(x, y, 2048))
SameVs(k, xs, ys) == Len(xs) = Len(ys) /\ \A i \in DOMAIN xs : SameV(k, xs[i], ys[i])

RECURSIVE Mul(_, _)
Mul(x, k) == CASE k < 0 -> TNeg(Mul(x, -k)) [] k = 0 -> <<0, 0, 0>> [] k = 1 -> x
               [] OTHER -> LET h == Mul(x, k \div 2) IN IF k % 2 = 0 THEN TAdd(h, h) ELSE TAdd(TAdd(h, h), x)
SumT(xs) == FoldLeft(TAdd, <<0, 0, 0>>, xs)
Present(xs) == SelectSeq(xs, LAMBDA x : x # Miss)
MinT(xs) == CHOOSE x \in Range(xs) : \A y \in Range(xs) : TLeq(x, y)
MaxT(xs) == CHOOSE x \in Range(xs) : \A y \in Range(xs) : TLeq(y, x)
CountBelow(xs, x) == Cardinality({i \in DOMAIN xs : TLess(xs[i], x)})
CountUpTo(xs, x) == Cardinality({i \in DOMAIN xs : TLeq(xs[i], x)})
Kth(xs, j) == CHOOSE x \in Range(xs) : CountBelow(xs, x) < j /\ CountUpTo(xs, x) >= j
\* is o an acceptable value of reduction f (result of one element) of the time spans or points xs
RedOk(f, k, xs, o) ==
  LET p == Present(xs)  n == Len(p)  nanf == f \in {"nansum", "nanmean", "nanmin", "nanmax", "nanmedian"}
      miss == n < Len(xs)  g == CASE f = "nansum" -> "sum" [] f = "nanmean" -> "mean" [] f = "nanmin" -> "min" [] f = "nanmax" -> "max" [] f = "nanmedian" -> "median" [] OTHER -> f
  IN CASE Len(o) # 1 -> FALSE
       [] n = 0 -> TRUE
       [] miss /\ ~nanf -> (f \in {"sum", "mean"} => o[1] = Miss)
       [] o[1] = Miss -> FALSE
       [] g = "min" -> SameV(k, MinT(p), o[1]) [] g = "max" -> SameV(k, MaxT(p), o[1])
       [] g = "sum" -> Within(SumT(p), o[1], IF AbsT(SumT(p))[1] >= 90 THEN 20000 ELSE 0)
       [] g = "mean" -> Within(SumT(p), Mul(o[1], n), IF AbsT(SumT(p))[1] >= 90 THEN 20000 ELSE n)
       [] g = "median" -> Within(TAdd(Kth(p, (n + 1) \div 2), Kth(p, n \div 2 + 1)), Mul(o[1], 2), IF \E i \in DOMAIN p : AbsT(p[i])[1] >= 90 THEN 4096 ELSE 2)

(* ---- registers and operands ---- *)
\* an operand is a register, one element of it (as an array of one or as a scalar), or literal numbers
Opnd(st, o) == IF o.r = 0 THEN [k |-> o.k, z |-> "", v |-> o.v]
               ELSE LET g == st[o.r] IN IF o.i = 0 \/ g.k = "?" THEN g ELSE IF o.i > Len(g.v) THEN Unk ELSE [g EXCEPT !.v = <<g.v[o.i]>>]
ShiftOf(xs, p) == [i \in DOMAIN xs |-> IF i - p \in DOMAIN xs THEN xs[i - p] ELSE Miss]
DiffOf(xs, p) == [i \in DOMAIN xs |-> IF i - p \in DOMAIN xs THEN MinusM(xs[i], xs[i - p]) ELSE Miss]
ScaleOk(x, o, p, q) == IF x = Miss THEN o = Miss ELSE Len(o) = 3 /\
    (IF AbsT(x)[1] >= 20 \/ q > 1 THEN Within(Mul(x, p), Mul(o, q), q * 4096) ELSE Mul(x, p) = o)
PutReg(st, d, g) == [st EXCEPT ![d] = g]
\* the first clause that fails; the later ones are only evaluated when the earlier ones hold
FF1(n1, c1) == IF ~c1 THEN n1 ELSE "ok"
FF2(n1, c1, n2, c2) == IF ~c1 THEN n1 ELSE FF1(n2, c2)
FF3(n1, c1, n2, c2, n3, c3) == IF ~c1 THEN n1 ELSE FF2(n2, c2, n3, c3)
SpanStart == [i \in 1..5 |-> Unk]
Judged(st, ev, want) ==
  CASE want.k = "?" -> V(PutReg(st, ev.dst, Unk), "ok")
    [] want.k = "X" -> V(st, IF ev.out.k = "X" THEN "ok" ELSE ev.op \o ":not-refused")
    [] ev.out.k # want.k -> V(PutReg(st, ev.dst, Unk), ev.op \o ":kind-" \o want.k \o "-" \o ev.out.k)
    [] want.k = "T" /\ Canon(ev.out.z) # Canon(want.z) -> V(PutReg(st, ev.dst, Unk), ev.op \o ":zone")
    [] ~SameVs(want.k, want.v, ev.out.v) -> V(PutReg(st, ev.dst, Unk), ev.op \o ":value")
    [] OTHER -> V(PutReg(st, ev.dst, [want EXCEPT !.v = ev.out.v]), "ok")
SpanJudge(st0, ev) ==
  LET st == IF ev.k = 0 THEN SpanStart ELSE st0
      a == Opnd(st, ev.a)
      b == Opnd(st, ev.b)
  IN CASE ev.frame = 0 -> V(st, ev.op \o ":operand-changed")
       [] ev.op = "set" -> V(PutReg(st, ev.dst, [k |-> ev.out.k, z |-> ev.out.z, v |-> ev.out.v]), FF3("set:kind", ev.out.k = ev.a.k, "set:zone", ev.a.k = "T" => Canon(ev.out.z) = Canon(ev.a.z), "set:value", SameVs("D", ev.a.v, ev.out.v)))
       [] a.k = "?" \/ b.k = "?" -> V(PutReg(st, ev.dst, Unk), "ok")
       [] ev.op \in {"add", "sub"} -> Judged(st, ev, Bin(ev.op, a, b))
       [] ev.op \in {"eq", "ne", "lt", "le", "gt", "ge"} ->
            V(st, IF ~Fits(a, b) THEN "ok"
                  ELSE IF CmpKind(a.k, b.k) = "X" THEN (IF ev.out.k = "X" THEN "ok" ELSE ev.op \o ":not-refused-" \o a.k \o b.k)
                  ELSE FF3(ev.op \o ":kind", ev.out.k = "B", ev.op \o ":length", Len(ev.out.v) = BLen(a.v, b.v), ev.op \o ":value-" \o a.k \o b.k, \A i \in 1..BLen(a.v, b.v) : ev.out.v[i] \in CmpAllowed(ev.op, a, b, i)))
       [] ev.op = "isnan" -> V(st, FF1("isnan:value", Len(ev.out.v) = Len(a.v) /\ \A i \in DOMAIN a.v : ev.out.v[i] = B(a.v[i] = Miss)))
       [] ev.op = "isnotnan" -> V(st, FF1("isnotnan:value", Len(ev.out.v) = Len(a.v) /\ \A i \in DOMAIN a.v : ev.out.v[i] = B(a.v[i] # Miss)))
       [] ev.op = "shift" -> Judged(st, ev, [a EXCEPT !.v = ShiftOf(a.v, ev.p)])
       [] ev.op = "diff" -> Judged(st, ev, [k |-> CASE a.k \in {"D", "S"} -> "S" [] OTHER -> "N", z |-> "", v |-> DiffOf(a.v, ev.p)])
       [] ev.op = "take" -> Judged(st, ev, [a EXCEPT !.v = [j \in DOMAIN ev.ix |-> a.v[ev.ix[j]]]])
       [] ev.op = "hstack" -> Judged(st, ev, IF a.k # b.k \/ Canon(a.z) # Canon(b.z) THEN Unk ELSE [a EXCEPT !.v = a.v \o b.v])
       [] ev.op = "copy" -> Judged(st, ev, a)
       [] ev.op = "neg" -> Judged(st, ev, IF a.k = "N" THEN [a EXCEPT !.v = [i \in DOMAIN a.v |-> Neg(a.v[i])]] ELSE [k |-> "X", z |-> "", v |-> <<>>])
       [] ev.op = "abs" -> Judged(st, ev, IF a.k = "N" THEN [a EXCEPT !.v = [i \in DOMAIN a.v |-> IF a.v[i] = Miss THEN Miss ELSE AbsT(a.v[i])]] ELSE [k |-> "X", z |-> "", v |-> <<>>])
       [] ev.op = "scale" ->   \* times p/q
            V(PutReg(st, ev.dst, IF ev.out.k = "N" /\ ev.q = 1 THEN [a EXCEPT !.v = ev.out.v] ELSE Unk),
              IF a.k # "N" THEN (IF ev.out.k = "X" THEN "ok" ELSE "scale:not-refused")
              ELSE FF3("scale:kind", ev.out.k = "N", "scale:length", Len(ev.out.v) = Len(a.v), "scale:value", \A i \in DOMAIN a.v : ScaleOk(a.v[i], ev.out.v[i], ev.p, ev.q)))
       [] ev.op = "floordiv" ->
            V(st, FF3("floordiv:kind", ev.out.k = "F", "floordiv:length", Len(ev.out.v) = BLen(a.v, b.v), "floordiv:value", \A i \in 1..BLen(a.v, b.v) : LET x == At(a.v, i)  y == At(b.v, i)  o == ev.out.v[i] IN
                    CASE x = Miss \/ y = Miss -> o = NA
                      [] y = <<0, 0, 0>> \/ o = BAD \/ AbsT(x)[1] >= 90 \/ AbsT(y)[1] >= 90 -> TRUE
                      [] o = NA -> FALSE
                      [] y[1] >= 0 -> TLeq(Mul(y, o), x) /\ TLess(x, Mul(y, o + 1))
                      [] OTHER -> TLeq(x, Mul(y, o)) /\ TLess(Mul(y, o + 1), x)))
       [] ev.op = "ratio" ->   \* a / b, both given, out a fraction <<p, q>>
            V(st, FF3("ratio:kind", ev.out.k = "F", "ratio:length", Len(ev.out.v) = BLen(a.v, b.v), "ratio:value", \A i \in 1..BLen(a.v, b.v) : LET x == At(a.v, i)  y == At(b.v, i)  o == ev.out.v[i] IN
                    IF x = Miss \/ y = Miss THEN o = Miss ELSE y = <<0, 0, 0>> \/ (Len(o) = 2 /\ Mul(y, o[1]) = Mul(x, o[2]))))
       [] ev.op = "reduce" ->
            LET xs == IF Len(ev.mask) = 0 THEN a.v ELSE LET ks == SetToSortSeq({i \in DOMAIN a.v : ev.mask[i] = 1}, <) IN [j \in DOMAIN ks |-> a.v[ks[j]]]
            IN V(st, IF Len(a.v) = 0 THEN "ok" ELSE FF3(ev.f \o ":kind", ev.out.k = a.k, ev.f \o ":zone", a.k = "T" => Canon(ev.out.z) = Canon(a.z), ev.f \o ":value", RedOk(ev.f, a.k, xs, ev.out.v)))
       [] OTHER -> V(st, "unknown-event")
=============================================================================
