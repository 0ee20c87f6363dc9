------------------------------- MODULE Sort -------------------------------
(***************************************************************************)
(* Sorting.  A table is a set of columns over rows; a sort is named by a   *)
(* list of columns and a direction for each.  Row order is stable: equal   *)
(* keys keep the order they had, in either direction.  Each column says    *)
(* where its missing cells go: na[1] = 1 first when ascending, na[2] = 1   *)
(* first when descending.                                                  *)
(* A table also carries a view: a sort applied to what is shown, not to    *)
(* the rows.  The view is recomputed from the present contents.            *)
(***************************************************************************)
EXTENDS RtBase

\* does cell a come strictly before cell b
Before(na, asc, a, b) ==
  LET nf == IF asc = 1 THEN na[1] ELSE na[2]
  IN IF a = NA THEN nf = 1 /\ b # NA
     ELSE IF b = NA THEN nf = 0
     ELSE IF asc = 1 THEN a < b ELSE a > b
\* keys: sequence of columns [v, na, asc], most significant first
RowBefore(keys, i, j) ==
  \E c \in 1..Len(keys) :
     /\ Before(keys[c].na, keys[c].asc, keys[c].v[i], keys[c].v[j])
     /\ \A d \in 1..(c - 1) : keys[d].v[i] = keys[d].v[j]
RowTie(keys, i, j) == \A c \in 1..Len(keys) : keys[c].v[i] = keys[c].v[j]
\* the stable order: 1-based row numbers
SortRows(keys, n) == SortSeq(Idx(n), LAMBDA i, j : RowBefore(keys, i, j) \/ (i < j /\ RowTie(keys, i, j)))
IsPerm(p, n) == Len(p) = n /\ ToSet(p) = 1..n
InOrder(keys, p) == \A m \in 1..(Len(p) - 1) : ~RowBefore(keys, p[m + 1], p[m])
IsSortedCol(col, n) == \A m \in 1..(n - 1) : ~Before(col.na, 1, col.v[m + 1], col.v[m])

(* the table as a state: cols = sequence of [n, v, na]; view = [by, asc] *)
NoView == [by |-> <<>>, asc |-> <<>>, on |-> 0]
ColNo(cols, n) == LET s == SelIdx(Len(cols), LAMBDA c : cols[c].n = n) IN IF s = <<>> THEN 0 ELSE s[1]
KeysOf(cols, by, asc) == MapSeq(Idx(Len(by)), LAMBDA i : [v |-> cols[ColNo(cols, by[i])].v, na |-> cols[ColNo(cols, by[i])].na, asc |-> asc[i]])
Nrows(cols) == IF cols = <<>> THEN 0 ELSE Len(cols[1].v)
Reorder(cols, p) == MapSeq(cols, LAMBDA c : [c EXCEPT !.v = Take(c.v, p)])
Dirs(op) == IF Len(op.asc) = 1 THEN MapSeq(op.by, LAMBDA x : op.asc[1]) ELSE op.asc
HasAll(cols, by) == \A i \in 1..Len(by) : ColNo(cols, by[i]) # 0
KeepView(view, names) ==
  LET keep == SelIdx(Len(view.by), LAMBDA i : view.by[i] \in names)
  IN IF keep = <<>> THEN NoView ELSE [by |-> Take(view.by, keep), asc |-> Take(view.asc, keep), on |-> view.on]
ViewRows(cols, view) == IF view.on = 0 \/ view.by = <<>> THEN Idx(Nrows(cols)) ELSE SortRows(KeysOf(cols, view.by, view.asc), Nrows(cols))

T(cols, view) == [cols |-> cols, view |-> view]
StepSort(s, op) ==
  CASE op.o = "inplace" -> T(Reorder(s.cols, SortRows(KeysOf(s.cols, op.by, Dirs(op)), Nrows(s.cols))),
                             IF s.view.on = 1 \/ s.view.by # <<>> THEN NoView ELSE s.view)
    [] op.o = "copy"    -> T(Reorder(s.cols, SortRows(KeysOf(s.cols, op.by, Dirs(op)), Nrows(s.cols))), NoView)
    [] op.o = "view"    -> T(s.cols, [by |-> op.by, asc |-> Dirs(op), on |-> 1])
    [] op.o = "off"     -> T(s.cols, NoView)
    [] op.o = "on"      -> T(s.cols, IF s.view.by = <<>> THEN s.view ELSE [s.view EXCEPT !.on = 1])
    [] op.o = "cell"    -> T([s.cols EXCEPT ![ColNo(s.cols, op.c)].v[op.i] = op.x], s.view)
    [] op.o = "repl"    -> T([s.cols EXCEPT ![ColNo(s.cols, op.c)] = [n |-> op.c, v |-> op.v, na |-> op.na]],
                             IF op.c \in ToSet(s.view.by) THEN NoView ELSE s.view)
    [] op.o = "dscopy"  -> s
    [] op.o = "save"    -> T(s.cols, [s.view EXCEPT !.on = 0])
    [] op.o = "cols"    -> T(SelectSeq(s.cols, LAMBDA c : c.n \in ToSet(op.keep)), KeepView(s.view, ToSet(op.keep)))
    [] op.o = "rows"    -> T(Reorder(s.cols, op.idx), s.view)
    [] op.o = "drop"    -> T(SelectSeq(s.cols, LAMBDA c : c.n # op.c), IF op.c \in ToSet(s.view.by) THEN NoView ELSE s.view)
    [] op.o = "rename"  -> T(MapSeq(s.cols, LAMBDA c : IF c.n = op.c THEN [c EXCEPT !.n = op.to] ELSE c),
                             [s.view EXCEPT !.by = MapSeq(s.view.by, LAMBDA b : IF b = op.c THEN op.to ELSE b)])
    [] OTHER            -> s
----------------------------------------------------------------------------
(* conformance *)
Vals(cols) == MapSeq(cols, LAMBDA c : c.v)
Names(cols) == MapSeq(cols, LAMBDA c : c.n)
SortStart == T(<<>>, NoView)
JHist(st, ev) ==
  LET s0 == IF ev.k = 0 THEN T(ev.init, NoView) ELSE st
      s1 == IF ev.k = 0 THEN s0 ELSE StepSort(s0, ev.op)
      ok == << << ev.err = "", "raised" >>,
               << ev.names = Names(s1.cols), "names" >>,
               << ev.vals = Vals(s1.cols), "values" >>,
               << ev.shown = ViewRows(s1.cols, s1.view), "view" >>,
               << ev.frame = 1, "source_changed" >> >>
  IN V(s1, FirstFail(ok))
JArr(st, ev) ==
  LET n == Len(ev.keys[1].v)
  IN V(st, FirstFail(<< << ev.err = "", "raised" >>, << ev.frame = 1, "source_changed" >> >> \o
      (CASE ev.fn = "lexsort" -> << << ev.idx = SortRows(ev.keys, n), "lexsort" >> >>
         [] ev.fn = "argsort" -> << << IsPerm(ev.idx, n), "permutation" >>, << IsPerm(ev.idx, n) => InOrder(ev.keys, ev.idx), "order" >> >>
         [] ev.fn = "sort"    -> << << ev.res = Take(ev.keys[1].v, SortRows(ev.keys, n)), "sorted_values" >> >>
         [] ev.fn = "issorted" -> << << ev.ans = (IF IsSortedCol(ev.keys[1], n) THEN 1 ELSE 0), "issorted" >> >>
         [] ev.fn = "search"  -> << << Len(ev.res) = Len(ev.x) /\ \A q \in 1..Len(ev.x) : Len(ev.res) = Len(ev.x) =>
                ev.res[q] = Len(SelIdx(n, LAMBDA i : ev.keys[1].v[i] < ev.x[q] \/ (ev.right = 1 /\ ev.keys[1].v[i] = ev.x[q]))), "searchsorted" >> >>
         [] OTHER -> << <<FALSE, "unknown">> >>)))
SortJudge(st, ev) == IF ev.fn = "hist" THEN JHist(st, ev) ELSE JArr(st, ev)
=============================================================================
