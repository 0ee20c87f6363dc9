------------------------------- MODULE Stat -------------------------------
(***************************************************************************)
(* Reductions and summaries of whole columns and tables: FastArray and     *)
(* Dataset reductions (with filters, along either axis), arg-extrema,      *)
(* percentiles, describe, value counts and moving windows.  Results are    *)
(* rationals <<num, den>> as in Group.tla.                                 *)
(***************************************************************************)
EXTENDS Group

Chosen(x, m) == IF Len(m) = 0 THEN x ELSE MapSeq(SelIdx(Len(x), LAMBDA i : m[i] = 1), LAMBDA i : x[i])
\* the column had a filter although it is empty: Chosen cannot tell, the event does
Vals(ev) == IF ev.hasm = 1 THEN MapSeq(SelIdx(Len(ev.x), LAMBDA i : ev.m[i] = 1), LAMBDA i : ev.x[i]) ELSE ev.x

FirstAt(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v /\ \A j \in 1..(i - 1) : s[j] # v
\* 0-based; a missing cell wins in the plain versions and is skipped in the nan ones
ArgExt(op, s) ==
  IF op \in {"argmin", "argmax"} /\ HasNA(s) THEN FirstAt(s, NA) - 1
  ELSE FirstAt(s, IF op \in {"argmin", "nanargmin"} THEN Min(ToSet(NoNA(s))) ELSE Max(ToSet(NoNA(s)))) - 1

\* linear interpolation between order statistics, q = qn/qd
Linear(s, qn, qd) ==
  LET n == Len(s) t == Sorted(s) p == qn * (n - 1) lo == p \div qd
  IN IF n = 0 THEN RNA
     ELSE IF p % qd = 0 THEN R(t[lo + 1], 1)
     ELSE R(t[lo + 1] * qd + (p % qd) * (t[lo + 2] - t[lo + 1]), qd)

\* population (ddof = 0) or sample (ddof = 1) variance
VarD(s, d) == LET n == Len(s) m == SumSeq(s) IN IF n - d <= 0 THEN RNA ELSE R(n * SumSq(s) - m * m, n * (n - d))

One(op, s, p) ==
  CASE op \in {"argmin", "argmax", "nanargmin", "nanargmax"} -> R(ArgExt(op, s), 1)
    [] op = "any"     -> R(IF \E i \in 1..Len(s) : s[i] # 0 THEN 1 ELSE 0, 1)
    [] op = "all"     -> R(IF \A i \in 1..Len(s) : s[i] # 0 THEN 1 ELSE 0, 1)
    [] op = "nunique" -> R(Cardinality(ToSet(NoNA(s))), 1)
    [] op = "percentile"    -> IF HasNA(s) THEN RNA ELSE Linear(s, p[1], p[2])
    [] op = "nanpercentile" -> Linear(NoNA(s), p[1], p[2])
    [] op = "ndistinct"     -> R(Cardinality(ToSet(s)), 1)
    [] op \in {"var", "std", "nanvar", "nanstd"} ->
         IF op \in {"var", "std"} /\ HasNA(s) THEN RNA ELSE VarD(NoNA(s), p[1])
    [] OTHER -> Reduce(op, s, p)

\* the middle 80%: from the order statistic at or below the first decile to the one at or above the ninth
MeanM(s) ==
  LET t == Sorted(s) n == Len(s)
      lo == (n - 1) \div 10 + 1
      hi == (9 * (n - 1) + 9) \div 10 + 1
      w == SubSeq(t, lo, Min2(hi, n))
  IN R(SumSeq(w), Len(w))
\* Count Valid Nans Mean Std(squared) Min P10 P25 P50 P75 P90 Max MeanM
Describe(s, qs) ==
  LET c == NoNA(s) n == Len(c)
  IN IF n = 0 THEN <<R(Len(s), 1), R(0, 1)>> \o [k \in 1..(6 + Len(qs)) |-> RNA]
     ELSE <<R(Len(s), 1), R(n, 1), R(Len(s) - n, 1), R(SumSeq(c), n), VarOf(c), R(Min(ToSet(c)), 1)>>
          \o [k \in 1..Len(qs) |-> Linear(c, qs[k][1], qs[k][2])]
          \o <<R(Max(ToSet(c)), 1), MeanM(c)>>

Window(x, i, w) == SubSeq(x, Max2(1, i - w + 1), i)
Roll(op, x, w, p) ==
  [i \in 1..Len(x) |->
     LET s == Window(x, i, w)
     IN CASE op = "rolling_sum" -> Reduce("sum", s, p) [] op = "rolling_nansum" -> Reduce("nansum", s, p)
          [] op = "rolling_mean" -> Reduce("mean", s, p) [] op = "rolling_nanmean" -> Reduce("nanmean", s, p)]
\* sum (product) over the rows not older than d at time t[i]
TimeRows(t, i, d) == SelIdx(i, LAMBDA j : t[i] - t[j] <= d)
TimeWin(op, x, t, d) ==
  [i \in 1..Len(x) |-> LET s == MapSeq(TimeRows(t, i, d), LAMBDA j : x[j])
                       IN R(IF op = "timewindow_sum" THEN SumSeq(s) ELSE Prod(s), 1)]

\* the distinct values, sorted or by first appearance, with their counts
Uniq(s, srt) == LET u == FoldLeft(LAMBDA acc, v : IF PosIn(acc, v) # 0 THEN acc ELSE Append(acc, v), <<>>, s)
                IN IF srt = 1 THEN Sorted(u) ELSE u
CountOf(s, v) == Len(SelectSeq(s, LAMBDA w : w = v))

Rows(cols) == IF Len(cols) = 0 THEN <<>> ELSE [i \in 1..Len(cols[1]) |-> [c \in 1..Len(cols) |-> cols[c][i]]]
AllCells(cols) == FoldLeft(LAMBDA acc, c : acc \o c, <<>>, cols)
----------------------------------------------------------------------------
Expect(ev) ==
  CASE ev.t = "red"   -> <<One(ev.op, Vals(ev), ev.p)>>
    [] ev.t = "ds0"   -> MapSeq(ev.cols, LAMBDA c : One(ev.op, c, ev.p))
    [] ev.t = "ds1"   -> MapSeq(Rows(ev.cols), LAMBDA r : One(ev.op, r, ev.p))
    [] ev.t = "dsn"   -> <<One(ev.op, AllCells(ev.cols), ev.p)>>
    [] ev.t = "quant" -> MapSeq(ev.qs, LAMBDA q : Linear(NoNA(ev.x), q[1], q[2]))
    [] ev.t = "desc"  -> Describe(ev.x, ev.qs)
    [] ev.t = "roll"  -> Roll(ev.op, ev.x, ev.p[1], ev.p)
    [] ev.t = "twin"  -> TimeWin(ev.op, ev.x, ev.tm, ev.p[1])
    [] ev.t = "count" -> LET s == Vals(ev) u == Uniq(s, ev.p[1])
                         IN MapSeq(u, LAMBDA v : R(v, 1)) \o MapSeq(u, LAMBDA v : R(CountOf(s, v), 1))

StatJudge(st, ev) ==
  LET o == ev.obs
      e == Expect(ev)
      verdict ==
        IF o.raised = 1 THEN (IF ev.refuse = 1 THEN "ok" ELSE "raised")
        ELSE IF ev.refuse = 1 THEN "not-refused"
        ELSE IF o.frame = 0 THEN "input-modified"
        ELSE IF o.names = 0 THEN "names"
        ELSE IF Len(o.out) # Len(e) THEN ev.t \o ":" \o ev.op \o "-length"
        ELSE IF \E i \in 1..Len(e) : ~REq(o.out[i], e[i]) THEN ev.t \o ":" \o ev.op
        ELSE "ok"
  IN V(st, verdict)
SStart == 0
=============================================================================
