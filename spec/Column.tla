------------------------------ MODULE Column ------------------------------
(***************************************************************************)
(* Row-by-row operations on one column (FastArray and its date/time and    *)
(* string variants): what is missing, filling, shifting, limiting,         *)
(* selecting, masks, conversion, searching.  A column is a sequence of     *)
(* integers (the value itself for numeric columns, its rank otherwise);    *)
(* NA is a missing cell, INF/NINF the float infinities.                    *)
(***************************************************************************)
EXTENDS RtBase

B(x) == IF x THEN 1 ELSE 0
IsInf(v) == v = INF \/ v = NINF
Pred(name, v) ==
  CASE name \in {"isnan", "isna"}       -> v = NA
    [] name \in {"isnotnan", "notna"}   -> v # NA
    [] name = "isnanorzero"             -> v = NA \/ v = 0
    [] name = "isfinite"                -> v # NA /\ ~IsInf(v)
    [] name = "isnotfinite"             -> v = NA \/ IsInf(v)
    [] name = "isinf"                   -> IsInf(v)
    [] name = "isnotinf"                -> ~IsInf(v)
Bools(x, P(_)) == MapSeq(x, LAMBDA v : B(P(v)))
Truth(b) == SelIdx(Len(b), LAMBDA i : b[i] = 1)            \* 1-based positions of TRUE
Falsity(b) == SelIdx(Len(b), LAMBDA i : b[i] = 0)
ShowMask(b, fancy) == IF fancy = 1 THEN Truth(b) ELSE b

Fill(x, v) == MapSeq(x, LAMBDA c : IF c = NA THEN v ELSE c)
LastValid(x, i) == LET c == {j \in 1..(i - 1) : x[j] # NA} IN IF c = {} THEN 0 ELSE CHOOSE j \in c : \A m \in c : m <= j
\* the last valid cell before (fv before the first one), at most lim cells far (0 = any distance)
FillFwd(x, fv, lim) ==
  Seqify(Len(x), LAMBDA i :
    IF x[i] # NA THEN x[i]
    ELSE LET j == LastValid(x, i)
         IN IF lim = 0 \/ i - j <= lim THEN (IF j = 0 THEN fv ELSE x[j]) ELSE NA)
FillBwd(x, fv, lim) == Rev(FillFwd(Rev(x), fv, lim))

Shift(x, n, fv) == Seqify(Len(x), LAMBDA i : IF i - n \in 1..Len(x) THEN x[i - n] ELSE fv)
Diff(x, n) == Seqify(Len(x), LAMBDA i : IF i - n \in 1..Len(x) /\ x[i] # NA /\ x[i - n] # NA THEN x[i] - x[i - n] ELSE NA)
\* a cell differs from / equals the one n before; a missing float cell differs from everything
Same(a, b, nan) == IF nan = 1 /\ (a = NA \/ b = NA) THEN FALSE ELSE a = b
Changes(x, n, nan) == Seqify(Len(x), LAMBDA i : B(i - n \in 1..Len(x) /\ ~Same(x[i], x[i - n], nan)))
Stays(x, n, nan) == Seqify(Len(x), LAMBDA i : B(i - n \in 1..Len(x) /\ Same(x[i], x[i - n], nan)))

\* lo and hi: one bound for all rows or one per row
At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
Between(x, lo, hi, il, ih) ==
  Seqify(Len(x), LAMBDA i : B(x[i] # NA /\ (IF il = 1 THEN x[i] >= At(lo, i) ELSE x[i] > At(lo, i))
                                        /\ (IF ih = 1 THEN x[i] <= At(hi, i) ELSE x[i] < At(hi, i))))
\* a bound <<>> = none
Clip(x, lo, hi) ==
  MapSeq(x, LAMBDA v : IF v = NA THEN NA
     ELSE LET a == IF Len(lo) = 0 THEN v ELSE Max2(v, lo[1]) IN IF Len(hi) = 0 THEN a ELSE Min2(a, hi[1]))
Where(c, x, y) == Seqify(Len(c), LAMBDA i : IF c[i] = 1 THEN At(x, i) ELSE At(y, i))
Sign(v) == IF v = NA THEN NA ELSE IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
Running(x) == FoldLeft(LAMBDA acc, v : Append(acc, (IF Len(acc) = 0 THEN 0 ELSE acc[Len(acc)]) + v), <<>>, x)
\* running extremum: missing cells are skipped, or (skip = 0) make all that follows missing
RunExt(x, skip, Ext(_, _)) ==
  FoldLeft(LAMBDA acc, v :
    LET p == IF Len(acc) = 0 THEN NA ELSE acc[Len(acc)]
        r == IF Len(acc) = 0 THEN v
             ELSE IF v = NA \/ p = NA THEN (IF skip = 0 THEN NA ELSE IF v = NA THEN p ELSE v)
             ELSE Ext(p, v)
    IN Append(acc, r), <<>>, x)
MapDict(x, ks, vs) == MapSeq(x, LAMBDA v : LET p == PosIn(ks, v) IN IF p = 0 THEN NA ELSE vs[p])

Arith(name, a, b) ==
  IF a = NA \/ b = NA THEN NA
  ELSE CASE name = "add" -> a + b [] name = "sub" -> a - b [] name = "mul" -> a * b
         [] name = "floordiv" -> a \div b [] name = "mod" -> a % b
Cmp(name, a, b) ==
  IF a = NA \/ b = NA THEN name = "ne"
  ELSE CASE name = "eq" -> a = b [] name = "ne" -> a # b [] name = "lt" -> a < b
         [] name = "le" -> a <= b [] name = "gt" -> a > b [] name = "ge" -> a >= b

MaskOf(name, a, b) ==
  CASE name = "or" -> Max2(a, b) [] name = "and" -> Min2(a, b)
    [] name = "xor" -> B(a # b)  [] name = "andnot" -> B(a = 1 /\ b = 0)
MaskFold(name, ms) ==
  FoldLeft(LAMBDA acc, m : Seqify(Len(acc), LAMBDA i : MaskOf(name, acc[i], m[i])), ms[1], SubSeq(ms, 2, Len(ms)))

Repeat(x, n) == FoldLeft(LAMBDA acc, i : acc \o [k \in 1..At(n, i) |-> x[i]], <<>>, Idx(Len(x)))
Tile(x, n) == FoldLeft(LAMBDA acc, k : acc \o x, <<>>, Idx(n))
PutMask(x, m, v) == Seqify(Len(x), LAMBDA i : IF m[i] = 1 THEN At(v, i) ELSE x[i])
Search(x, v, side) == Cardinality({i \in 1..Len(x) : IF side = "left" THEN x[i] < v ELSE x[i] <= v})
Ascending(x) == \A i \in 1..(Len(x) - 1) : x[i] <= x[i + 1]

\* linear interpolation through (xp, fp): value = num / den
Seg(xp, v) == LET c == {k \in 1..(Len(xp) - 1) : xp[k] <= v} IN IF c = {} THEN 1 ELSE Cardinality(c)
InterpNum(xp, fp, v, ex) ==
  LET k == Seg(xp, v)
  IN IF ex = 0 /\ v <= xp[1] THEN fp[1] * (xp[k + 1] - xp[k])
     ELSE IF ex = 0 /\ v >= xp[Len(xp)] THEN fp[Len(fp)] * (xp[k + 1] - xp[k])
     ELSE fp[k] * (xp[k + 1] - xp[k]) + (v - xp[k]) * (fp[k + 1] - fp[k])
InterpDen(xp, v) == LET k == Seg(xp, v) IN xp[k + 1] - xp[k]
\* obs is the observed value times 1000, rounded
InterpOk(xp, fp, v, ex, obs) == AbsV(obs * InterpDen(xp, v) - 1000 * InterpNum(xp, fp, v, ex)) <= InterpDen(xp, v)

\* a sample: distinct positions of the rows offered, in row order, as many as asked for and there are
SampleOk(offered, n, got) ==
  /\ Len(got) = Min2(n, Len(offered))
  /\ \A k \in 1..Len(got) : got[k] \in ToSet(offered)
  /\ \A k \in 1..(Len(got) - 1) : got[k] < got[k + 1]
----------------------------------------------------------------------------
Expect(ev) ==
  LET x == ev.x
      f == ev.op
  IN CASE f = "pred"     -> ShowMask(Bools(x, LAMBDA v : Pred(ev.name, v)), ev.fancy)
       [] f = "fill"     -> Fill(x, ev.v)
       [] f = "ffill"    -> FillFwd(x, ev.v, ev.n)
       [] f = "bfill"    -> FillBwd(x, ev.v, ev.n)
       [] f = "shift"    -> Shift(x, ev.n, ev.v)
       [] f = "diff"     -> Diff(x, ev.n)
       [] f = "changes"  -> ShowMask(Changes(x, ev.n, ev.nan), ev.fancy)
       [] f = "stays"    -> ShowMask(Stays(x, ev.n, ev.nan), ev.fancy)
       [] f = "between"  -> Between(x, ev.lo, ev.hi, ev.il, ev.ih)
       [] f = "clip"     -> Clip(x, ev.lo, ev.hi)
       [] f = "where"    -> Where(ev.m, x, ev.y)
       [] f = "abs"      -> MapSeq(x, LAMBDA v : IF v = NA THEN NA ELSE AbsV(v))
       [] f = "sign"     -> MapSeq(x, Sign)
       [] f = "cumsum"   -> Running(x)
       [] f = "arith"    -> Seqify(Len(x), LAMBDA i : Arith(ev.name, x[i], ev.y[i]))
       [] f = "cmp"      -> Seqify(Len(x), LAMBDA i : B(Cmp(ev.name, x[i], ev.y[i])))
       [] f = "cummin"   -> RunExt(x, ev.n, Min2)
       [] f = "cummax"   -> RunExt(x, ev.n, Max2)
       [] f = "zero"     -> Fill(x, 0)
       [] f = "same"     -> x
       [] f = "allna"    -> MapSeq(x, LAMBDA v : NA)
       [] f = "map"      -> MapDict(x, ev.ks, ev.vs)
       [] f = "mask"     -> MaskFold(ev.name, ev.ms)
       [] f = "fancy"    -> Truth(ev.m)
       [] f = "fancy2"   -> Truth(ev.m) \o Falsity(ev.m)
       [] f = "putmask"  -> PutMask(x, ev.m, ev.y)
       [] f = "repeat"   -> Repeat(x, ev.y)
       [] f = "tile"     -> Tile(x, ev.n)
       [] f = "take"     -> Take(x, ev.y)
       [] f = "stack"    -> FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ev.ms)
       [] f = "max"      -> Seqify(Len(x), LAMBDA i : Max2(x[i], ev.y[i]))
       [] f = "min"      -> Seqify(Len(x), LAMBDA i : Min2(x[i], ev.y[i]))
       [] f = "search"   -> MapSeq(ev.y, LAMBDA v : Search(x, v, ev.name))
       [] f = "sorted"   -> <<B(Ascending(x))>>

ColumnJudge(st, ev) ==
  LET o == ev.obs
      verdict ==
        IF o.raised = 1 THEN (IF ev.refuse = 1 THEN (IF o.frame = 1 THEN "ok" ELSE "input-modified") ELSE "raised")
        ELSE IF ev.refuse = 1 THEN "not-refused"
        ELSE IF o.frame = 0 THEN "input-modified"
        ELSE IF ev.op = "sample" THEN (IF SampleOk(ev.y, ev.n, o.out) THEN "ok" ELSE "sample")
        ELSE IF ev.op = "interp" THEN
               (IF Len(o.out) = Len(ev.y) /\ \A i \in 1..Len(ev.y) : InterpOk(ev.x, ev.ms[1], ev.y[i], ev.n, o.out[i]) THEN "ok" ELSE "interp")
        ELSE IF Len(o.out) # Len(Expect(ev)) THEN ev.op \o "-length"
        ELSE IF o.out # Expect(ev) THEN ev.op
        ELSE IF o.inplace # <<>> /\ o.inplace # Expect(ev) THEN ev.op \o "-inplace"
        ELSE "ok"
  IN V(st, verdict)
ColStart == 0
=============================================================================
