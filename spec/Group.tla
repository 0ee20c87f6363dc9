------------------------------- MODULE Group -------------------------------
(***************************************************************************)
(* Grouping, group-by reductions and group-by row operations.              *)
(*                                                                         *)
(* A table is a sequence of rows.  K[i] is row i's key (a tuple of ranks,  *)
(* one per key column), F[i] = 1 when the row takes part in the grouping.  *)
(* The order of the groups is a mode:                                      *)
(*    "lex"    ascending key tuples                                        *)
(*    "first"  order of first appearance among participating rows          *)
(*    "given"  an explicit list of groups (Categorical with declared       *)
(*             categories; groups may be empty)                            *)
(***************************************************************************)
EXTENDS RtBase

LexLess(a, b) ==
  LET d == {i \in 1..Len(a) : a[i] # b[i]} IN
  d # {} /\ LET m == CHOOSE i \in d : \A j \in d : i <= j IN a[m] < b[m]

Participating(K, F) == FoldLeftDomain(LAMBDA acc, i : IF F[i] = 1 THEN Append(acc, K[i]) ELSE acc, <<>>, K)

Groups(K, F, mode, given) ==
  CASE mode = "first" -> DistinctSeq(Participating(K, F))
    [] mode = "lex"   -> SortSeq(DistinctSeq(Participating(K, F)), LexLess)
    [] mode = "given" -> given

\* bin of every row: 1-based group number, 0 = in no group
Bins(K, F, G) == MapSeq(Idx(Len(K)), LAMBDA i : IF F[i] = 1 THEN PosIn(G, K[i]) ELSE 0)

RowsOf(bins, b) == SelIdx(Len(bins), LAMBDA i : bins[i] = b)       \* ascending, 1-based

\* ------------------------------------------------------------------ structure
NCount(bins, ng) == MapSeq(Idx(ng + 1), LAMBDA b : Len(RowsOf(bins, b - 1)))
IGroup(bins, ng) == FlattenSeq(MapSeq(Idx(ng + 1), LAMBDA b : MapSeq(RowsOf(bins, b - 1), LAMBDA i : i - 1)))
IFirstGroup(bins, ng) == MapSeq(Idx(ng + 1), LAMBDA b : SumSeq(SubSeq(NCount(bins, ng), 1, b - 1)))
IFirstKey(bins, ng) == MapSeq(Idx(ng), LAMBDA b : LET r == RowsOf(bins, b) IN IF Len(r) = 0 THEN NA ELSE r[1] - 1)
ILastKey(bins, ng) == MapSeq(Idx(ng), LAMBDA b : LET r == RowsOf(bins, b) IN IF Len(r) = 0 THEN NA ELSE r[Len(r)] - 1)
\* rows in no group are chained to each other as well
IPrevKey(bins) == MapSeq(Idx(Len(bins)), LAMBDA i :
   LET p == {j \in 1..(i-1) : bins[j] = bins[i]} IN IF p = {} THEN NA ELSE Max(p) - 1)
INextKey(bins) == MapSeq(Idx(Len(bins)), LAMBDA i :
   LET p == {j \in (i+1)..Len(bins) : bins[j] = bins[i]} IN IF p = {} THEN NA ELSE Min(p) - 1)

\* ------------------------------------------------------------------ values
\* results are rationals <<num, den>> ; NA is <<NA, 1>>
R(a, b) == <<a, b>>
RNA == <<NA, 1>>
REq(x, y) == IF x[1] = NA \/ y[1] = NA THEN x[1] = y[1]
             ELSE x[1] \notin {BAD, INF, NINF} /\ x[1] * y[2] = y[1] * x[2]
HasNA(s) == \E i \in 1..Len(s) : s[i] = NA
NoNA(s) == SelectSeq(s, LAMBDA x : x # NA)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
SumSq(s) == SumSeq(MapSeq(s, LAMBDA x : x * x))
\* unbiased variance
VarOf(s) == LET n == Len(s) m == SumSeq(s) IN IF n < 2 THEN RNA ELSE R(n * SumSq(s) - m * m, n * (n - 1))
MedianOf(s) == LET n == Len(s) t == Sorted(s) IN
   IF n = 0 THEN RNA ELSE IF n % 2 = 1 THEN R(t[(n + 1) \div 2], 1) ELSE R(t[n \div 2] + t[n \div 2 + 1], 2)
\* q = qn/qd ; midpoint interpolation between the two neighbouring order statistics
QuantileOf(s, qn, qd) == LET n == Len(s) t == Sorted(s) p == qn * (n - 1) lo == p \div qd IN
   IF n = 0 THEN RNA ELSE IF p % qd = 0 THEN R(t[lo + 1], 1) ELSE R(t[lo + 1] + t[lo + 2], 2)

\* reduction of one group's values (in row order)
Reduce(op, s, p) ==
  LET c == NoNA(s) IN
  CASE op = "sum"     -> IF HasNA(s) THEN RNA ELSE R(SumSeq(s), 1)
    [] op = "nansum"  -> R(SumSeq(c), 1)
    [] op = "mean"    -> IF HasNA(s) \/ Len(s) = 0 THEN RNA ELSE R(SumSeq(s), Len(s))
    [] op = "nanmean" -> IF Len(c) = 0 THEN RNA ELSE R(SumSeq(c), Len(c))
    [] op = "min"     -> IF HasNA(s) \/ Len(s) = 0 THEN RNA ELSE R(Min(ToSet(s)), 1)
    [] op = "nanmin"  -> IF Len(c) = 0 THEN RNA ELSE R(Min(ToSet(c)), 1)
    [] op = "max"     -> IF HasNA(s) \/ Len(s) = 0 THEN RNA ELSE R(Max(ToSet(s)), 1)
    [] op = "nanmax"  -> IF Len(c) = 0 THEN RNA ELSE R(Max(ToSet(c)), 1)
    [] op \in {"var", "std"}       -> IF HasNA(s) THEN RNA ELSE VarOf(s)      \* std: the driver reports its square
    [] op \in {"nanvar", "nanstd"} -> VarOf(c)
    [] op = "median"    -> IF HasNA(s) THEN RNA ELSE MedianOf(s)
    [] op = "nanmedian" -> MedianOf(c)
    [] op = "quantile"    -> IF HasNA(s) THEN RNA ELSE QuantileOf(s, p[1], p[2])
    [] op = "nanquantile" -> QuantileOf(c, p[1], p[2])
    [] op = "first"   -> IF Len(s) = 0 THEN RNA ELSE R(s[1], 1)
    [] op = "last"    -> IF Len(s) = 0 THEN RNA ELSE R(s[Len(s)], 1)
    [] op = "nth"     -> IF p[1] < Len(s) THEN R(s[p[1] + 1], 1) ELSE RNA
    [] op = "count"   -> R(Len(s), 1)
    [] op = "count_uniques" -> R(Cardinality(ToSet(s)), 1)

\* some results are not determined: the mode may be any most frequent value
ModeOk(s, r) == LET cnt(x) == Cardinality({i \in 1..Len(s) : s[i] = x}) IN
   IF Len(s) = 0 THEN r[1] = NA
   ELSE r[2] = 1 /\ r[1] \in ToSet(s) /\ \A x \in ToSet(s) : cnt(x) <= cnt(r[1])

ValuesIn(bins, b, vals, opf) == MapSeq(SelIdx(Len(bins), LAMBDA i : bins[i] = b /\ opf[i] = 1), LAMBDA i : vals[i])

\* ------------------------------------------------------------------ row operations
\* value of the running operation at row i: PRE = rows of the same group at or before i
Before(bins, i) == SelIdx(i, LAMBDA j : bins[j] = bins[i])
After(bins, i) == SelIdx(Len(bins), LAMBDA j : j >= i /\ bins[j] = bins[i])
LastN(s, n) == SubSeq(s, Max2(1, Len(s) - n + 1), Len(s))

\* previous (w > 0) / following (w < 0) row of the group at distance |w|
ShiftPos(bins, i, w) ==
  LET pre == Before(bins, i) post == After(bins, i) IN
  IF w >= 0 THEN IF Len(pre) > w THEN pre[Len(pre) - w] ELSE 0
  ELSE IF Len(post) > -w THEN post[1 - w] ELSE 0

\* forward fill: nearest earlier valid value not further than lim rows of the group (0: unlimited)
FillFrom(bins, vals, i, seqrows, lim, fillv) ==
  \* seqrows: rows of the group from i going away from i (seqrows[1] = i)
  LET ok == {k \in 1..Len(seqrows) : vals[seqrows[k]] # NA} IN
  IF vals[i] # NA THEN R(vals[i], 1)
  ELSE IF ok = {} THEN (IF lim > 0 /\ Len(seqrows) > lim THEN RNA ELSE R(fillv, 1))
  ELSE IF lim > 0 /\ Min(ok) - 1 > lim THEN RNA
  ELSE R(vals[seqrows[Min(ok)]], 1)

\* a NaN poisons a running sum
RunRows(bins, i, opf, rst) ==
  LET pre == Before(bins, i)
      rs == {k \in 1..Len(pre) : rst[pre[k]] = 1 /\ opf[pre[k]] = 1}
      from == IF rs = {} THEN 1 ELSE Max(rs)
  IN SelectSeq(SubSeq(pre, from, Len(pre)), LAMBDA j : opf[j] = 1)

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)

\* NotSpec: the result of that row is not constrained
NotSpec == <<BAD, BAD>>

RowOp(op, bins, vals, opf, rst, p, i) ==
  IF bins[i] = 0 THEN (IF op \in {"cummin", "cummax", "apply_nonreduce"} THEN NotSpec ELSE IF op = "findnth" THEN R(0, 1) ELSE RNA)
  ELSE
  LET pre == Before(bins, i)
      run == MapSeq(RunRows(bins, i, opf, rst), LAMBDA j : vals[j])
      prev == MapSeq(pre, LAMBDA j : vals[j])
      w == LastN(prev, p[1])
      c == NoNA(w)
  IN
  CASE op = "cumsum"  -> IF HasNA(run) THEN RNA ELSE R(SumSeq(run), 1)
    [] op = "cumprod" -> IF HasNA(run) THEN RNA ELSE R(Prod(run), 1)
    [] op = "cummin"  -> IF Len(NoNA(run)) = 0 THEN RNA ELSE R(Min(ToSet(NoNA(run))), 1)
    [] op = "cummax"  -> IF Len(NoNA(run)) = 0 THEN RNA ELSE R(Max(ToSet(NoNA(run))), 1)
    [] op = "cumcount" -> IF p[1] = 1 THEN R(Len(pre) - 1, 1) ELSE R(Len(After(bins, i)) - 1, 1)
    [] op = "rolling_count" -> R(Len(pre) - 1, 1)
    [] op = "rolling_sum" -> IF HasNA(w) THEN RNA ELSE R(SumSeq(w), 1)
    [] op = "rolling_nansum" -> R(SumSeq(c), 1)
    [] op = "rolling_mean" -> IF HasNA(w) THEN RNA ELSE R(SumSeq(w), Len(w))
    [] op = "rolling_nanmean" -> IF Len(c) = 0 THEN RNA ELSE R(SumSeq(c), Len(c))
    [] op = "rolling_median" -> MedianOf(c)
    [] op \in {"shift", "rolling_shift"} -> LET j == ShiftPos(bins, i, p[1]) IN IF j = 0 THEN RNA ELSE R(vals[j], 1)
    [] op \in {"diff", "rolling_diff"} -> LET j == ShiftPos(bins, i, p[1]) IN
          IF j = 0 THEN RNA ELSE IF vals[i] = NA \/ vals[j] = NA THEN RNA ELSE R(vals[i] - vals[j], 1)
    [] op = "fill_forward" -> FillFrom(bins, vals, i, Rev(pre), p[1], p[2])
    [] op = "fill_backward" -> FillFrom(bins, vals, i, After(bins, i), p[1], p[2])
    [] op = "apply_nonreduce" ->   \* the user function x + sum(x), applied to each group
          LET all == MapSeq(RowsOf(bins, bins[i]), LAMBDA j : vals[j]) IN R(vals[i] + SumSeq(all), 1)
    [] op = "findnth" -> IF opf[i] = 1 THEN R(Len(SelectSeq(pre, LAMBDA j : opf[j] = 1)), 1) ELSE R(0, 1)

\* ------------------------------------------------------------------ judges
SeqEq(obs, n, f(_)) == Len(obs) = n /\ \A i \in 1..n : obs[i] = f(i)

StructJudge(ev) ==
  LET G == Groups(ev.K, ev.F, ev.mode, ev.given)
      B == Bins(ev.K, ev.F, G)
      ng == Len(G)
      o == ev.obs
  IN IF ev.raised = 1 THEN "raised" ELSE
     FirstFail(<<
       <<o.groups = G, "group-list">>,
       <<o.ikey = B, "row-to-group">>,
       <<o.uc = ng, "unique-count">>,
       <<o.ncount = NCount(B, ng), "group-counts">>,
       <<o.igroup = IGroup(B, ng), "rows-by-group">>,
       <<o.ifirstgroup = IFirstGroup(B, ng), "group-offsets">>,
       <<o.ifirstkey = IFirstKey(B, ng), "first-row-of-group">>,
       <<o.ilastkey = ILastKey(B, ng), "last-row-of-group">>,
       <<o.hasprev = 0 \/ o.iprev = IPrevKey(B), "previous-row">>,
       <<o.hasprev = 0 \/ o.inext = INextKey(B), "next-row">>,
       <<o.members = MapSeq(Idx(ng), LAMBDA b : MapSeq(RowsOf(B, b), LAMBDA i : i - 1)), "members">>,
       <<o.frame = 1, "input-mutated">> >>)

\* rows of the result table: one per group in group order, optionally preceded by the Filtered row
AggJudge(ev) ==
  LET G == Groups(ev.K, ev.F, ev.mode, ev.given)
      B == Bins(ev.K, ev.F, G)
      ng == Len(G)
      n == Len(ev.K)
      GOf(b) == ValuesIn(B, b, ev.vals, ev.opf)
      \* with an operation filter, rows excluded from the operation join the Filtered row
      Filt == MapSeq(SelIdx(n, LAMBDA i : B[i] = 0 \/ ev.opf[i] = 0), LAMBDA i : ev.vals[i])
      \* a boolean column cannot express a missing result: an empty group's value is not determined
      Ok(s, r) == IF ev.vb = 1 /\ Len(s) = 0 THEN TRUE ELSE IF ev.op = "mode" THEN ModeOk(s, r) ELSE REq(Reduce(ev.op, s, ev.p), r)
      o == ev.obs
      off == ev.showf
  IN IF ev.raised = 1 THEN "raised" ELSE
     IF ev.transform = 1
     THEN FirstFail(<<
        <<Len(o.res) = n, "transform-length">>,
        <<Len(o.res) = n => \A i \in 1..n : B[i] = 0 \/ Ok(GOf(B[i]), o.res[i]), "transform-value">>,
        <<o.frame = 1, "input-mutated">> >>)
     ELSE FirstFail(<<
        <<o.groups = G, "result-keys">>,
        <<Len(o.res) = ng + off, "result-length">>,
        <<Len(o.res) = ng + off => \A b \in 1..ng : Ok(GOf(b), o.res[b + off]), "group-value">>,
        <<(off = 1 /\ Len(o.res) = ng + 1) => Ok(Filt, o.res[1]), "filtered-row-value">>,
        <<o.frame = 1, "input-mutated">> >>)

RowJudge(ev) ==
  LET G == Groups(ev.K, ev.F, ev.mode, ev.given)
      B == Bins(ev.K, ev.F, G)
      n == Len(ev.K)
      o == ev.obs
  IN IF ev.raised = 1 THEN "raised" ELSE
     FirstFail(<<
        <<Len(o.res) = n, "result-length">>,
        <<Len(o.res) = n => \A i \in 1..n : LET e == RowOp(ev.op, B, ev.vals, ev.opf, ev.rst, ev.p, i)
                                            IN e = NotSpec \/ REq(e, o.res[i]), "row-value">>,
        <<o.frame = 1, "input-mutated">> >>)

GroupJudge(st, ev) ==
  V(st, CASE ev.t = "struct" -> StructJudge(ev)
          [] ev.t = "agg" -> AggJudge(ev)
          [] ev.t = "row" -> RowJudge(ev))
GStart == 0
=============================================================================
