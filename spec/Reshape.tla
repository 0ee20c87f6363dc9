------------------------------ MODULE Reshape ------------------------------
(***************************************************************************)
(* Reshaping of a table: melt, pivot, transpose, trim.                     *)
(*                                                                         *)
(* A table is a sequence of columns of equal length; a cell is an integer  *)
(* (a rank in the column's pool), NA when missing.                         *)
(***************************************************************************)
EXTENDS RtBase

Row(cols, i) == MapSeq(cols, LAMBDA c : c[i])
Rows(cols, n) == Seqify(n, LAMBDA i : Row(cols, i))
Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
Times(s, k) == Concat(Seqify(k, LAMBDA j : s))
Const(x, n) == Seqify(n, LAMBDA j : x)

RECURSIVE TupLess(_, _)
TupLess(a, b) == IF Len(a) = 0 THEN FALSE ELSE a[1] < b[1] \/ (a[1] = b[1] /\ TupLess(Tail(a), Tail(b)))
SortTups(s) == SortSeq(s, LAMBDA a, b : TupLess(a, b))

\* ---- melt: every cell of the value columns becomes a row --------------------------------
Melt(ids, vals, n, keep(_, _)) ==
  LET k == Len(vals)
      pos == SelectSeq(Concat(Seqify(k, LAMBDA j : Seqify(n, LAMBDA i : <<j, i>>))), LAMBDA p : keep(p[1], p[2]))
  IN [ids |-> MapSeq(ids, LAMBDA c : MapSeq(pos, LAMBDA p : c[p[2]])),
      var |-> MapSeq(pos, LAMBDA p : p[1]),
      val |-> MapSeq(pos, LAMBDA p : vals[p[1]][p[2]])]

\* ---- pivot: one row per label key, one column per column key ------------------------------
\* a key that is absent (a filtered Categorical) is in no row and no column
Present(t) == \A i \in 1..Len(t) : t[i] # NA
KeysOf(tups, sorted) == LET d == DistinctSeq(SelectSeq(tups, Present)) IN IF sorted THEN SortTups(d) ELSE d
InCell(lab, col, flt, r, c) == SelIdx(Len(lab), LAMBDA i : flt[i] = 1 /\ lab[i] = r /\ col[i] = c)
PivotDup(lab, col, flt) ==
  LET ps == SelectSeq(Seqify(Len(lab), LAMBDA i : IF flt[i] = 1 /\ Present(lab[i]) /\ Present(col[i]) THEN <<lab[i], col[i]>> ELSE <<>>), LAMBDA p : Len(p) > 0)
  IN HasDup(ps)
PivotCell(lab, col, flt, val, r, c) == LET h == InCell(lab, col, flt, r, c) IN IF Len(h) = 0 THEN NA ELSE val[h[1]]
\* result: for each column key the cells of the rows
Pivot(lab, col, flt, val, rs, cs) == MapSeq(cs, LAMBDA c : MapSeq(rs, LAMBDA r : PivotCell(lab, col, flt, val, r, c)))

\* ---- transpose -----------------------------------------------------------------------------
Transpose(cols, n) == Seqify(n, LAMBDA i : Row(cols, i))

\* ---- trim: drop what is empty -----------------------------------------------------------------
\* emp(j, i): cell i of column j counts as empty;  can[j]: column j can be asked
TrimCols(k, n, can, emp(_, _), colsOn, keep) ==
  SelIdx(k, LAMBDA j : can[j] = 0 \/ ~colsOn \/ (IF keep THEN \E i \in 1..n : emp(j, i) ELSE \E i \in 1..n : ~emp(j, i)))
TrimRows(n, asked, emp(_, _), rowsOn, keep) ==
  IF ~rowsOn \/ Len(asked) = 0 THEN Idx(n)
  ELSE SelIdx(n, LAMBDA i : IF keep THEN \E j \in 1..Len(asked) : emp(asked[j], i) ELSE \E j \in 1..Len(asked) : ~emp(asked[j], i))

\* ---- verdicts ------------------------------------------------------------------------------------
MeltVerdict(ev) ==
  LET n == ev.n
      keep(j, i) == ev.trim = 0 \/ (ev.vals[j][i] # NA /\ ev.vals[j][i] # ev.zr)
      m == Melt(ev.ids, ev.vals, n, keep)
  IN FirstFail(<< <<ev.obs.raised = 0, "melt refused">>, <<ev.obs.names = ev.want, "melt column names">>, <<ev.obs.ids = m.ids, "melt keys">>,
                  <<ev.obs.var = m.var, "melt variable">>, <<ev.obs.val = m.val, "melt values">>, <<ev.obs.frame = 1, "input changed">> >>)

PivotVerdict(ev) ==
  LET lab == Rows(ev.lab, ev.n)
      col == Rows(ev.col, ev.n)
      flt == IF Len(ev.flt) = 0 THEN Const(1, ev.n) ELSE ev.flt
      sorted == ev.ordered = 1 \/ ev.lex = 1
      \* a Categorical as the only key brings all its categories (rall, call: their number)
      rs == IF ev.rall > 0 THEN Seqify(ev.rall, LAMBDA i : <<i>>) ELSE KeysOf(lab, sorted)
      cs == IF ev.call > 0 THEN Seqify(ev.call, LAMBDA i : <<i>>) ELSE KeysOf(col, sorted)
  IN IF PivotDup(lab, col, flt) THEN FirstFail(<< <<ev.obs.raised = 1, "two rows in one cell, not refused">>, <<ev.obs.frame = 1, "input changed">> >>)
     ELSE FirstFail(<< <<ev.obs.raised = 0, "pivot refused">>, <<Len(ev.obs.tabs) = Len(ev.vals), "number of tables">>,
            <<\A j \in 1..Len(ev.obs.tabs) : ev.obs.tabs[j].rows = rs, "pivot rows">>,
            <<\A j \in 1..Len(ev.obs.tabs) : ev.obs.tabs[j].cols = cs, "pivot columns">>,
            <<\A j \in 1..Len(ev.obs.tabs) : ev.obs.tabs[j].cells = Pivot(lab, col, flt, ev.vals[j], rs, cs), "pivot cells">>,
            <<ev.obs.labels = 1, "pivot labels">>, <<ev.obs.frame = 1, "input changed">> >>)

TransposeVerdict(ev) ==
  FirstFail(<< <<ev.obs.raised = 0, "transpose refused">>, <<ev.obs.names = ev.want, "transpose column names">>, <<ev.obs.hdr = Idx(Len(ev.cols)), "transpose row names">>,
               <<ev.obs.cells = Transpose(ev.cols, ev.n), "transpose cells">>, <<ev.obs.frame = 1, "input changed">> >>)

TrimVerdict(ev) ==
  LET k == Len(ev.cols)
      emp(j, i) == (ev.nans = 1 /\ ev.cols[j][i] = NA) \/ (ev.zeros = 1 /\ ev.zr[j] # 0 /\ ev.cols[j][i] = ev.zr[j])
      cs == TrimCols(k, ev.n, ev.can, emp, ev.co = 1, ev.keep = 1)
      asked == SelectSeq(cs, LAMBDA j : ev.can[j] = 1)
      rs == TrimRows(ev.n, asked, emp, ev.ro = 1, ev.keep = 1)
  IN FirstFail(<< <<ev.obs.raised = 0, "trim refused">>, <<ev.obs.kept = cs, "trimmed columns">>,
                  <<ev.obs.cells = MapSeq(cs, LAMBDA j : Take(ev.cols[j], rs)), "trimmed rows">>, <<ev.obs.frame = 1, "input changed">> >>)

XStart == 0
XJudge(st, ev) ==
  V(st, CASE ev.op = "melt" -> MeltVerdict(ev) [] ev.op = "pivot" -> PivotVerdict(ev) [] ev.op = "transpose" -> TransposeVerdict(ev)
          [] ev.op = "trim" -> TrimVerdict(ev) [] OTHER -> "unknown event")
=============================================================================
