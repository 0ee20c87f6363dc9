------------------------------- MODULE Cells -------------------------------
(***************************************************************************)
(* Cells: which cells a selection names, and who sees a write.             *)
(* The heap is a sequence of buffers (sequences of cells).  A table is a   *)
(* sequence of columns; a column is a name, a buffer and the positions of  *)
(* that buffer that are its rows.  Selecting columns, a row slice, a       *)
(* shallow copy or binding an existing column shares buffers; a mask, an   *)
(* index list or a deep copy makes new ones.  Assigning to cells writes    *)
(* the buffer, so exactly the columns that share the cell see it.          *)
(***************************************************************************)
EXTENDS RtBase

----------------------------------------------------------------------------
(* selections: from what is written in the brackets to 1-based positions   *)
\* Python's slice(a, b, s) over n items; ha/hb: bound given
SliceIdx(R, n) ==
  LET s == R.s
      lo == IF s > 0 THEN 0 ELSE -1
      hi == IF s > 0 THEN n ELSE n - 1
      Clip(x) == LET y == IF x < 0 THEN x + n ELSE x IN IF y < lo THEN lo ELSE IF y > hi THEN hi ELSE y
      a == IF R.ha = 0 THEN (IF s > 0 THEN lo ELSE hi) ELSE Clip(R.a)
      b == IF R.hb = 0 THEN (IF s > 0 THEN hi ELSE lo) ELSE Clip(R.b)
      cnt == IF s > 0 THEN (IF b > a THEN (b - a + s - 1) \div s ELSE 0)
                      ELSE (IF a > b THEN (a - b + (-s) - 1) \div (-s) ELSE 0)
  IN MapSeq(Idx(cnt), LAMBDA k : a + (k - 1) * s + 1)
Wrap(i, n) == IF i >= 0 /\ i < n THEN i + 1 ELSE IF i < 0 /\ i >= -n THEN i + n + 1 ELSE 0   \* 0: no such item
ReadCol(heap, c) == MapSeq(c.m, LAMBDA p : heap[c.b][p])
NamesOf(t) == MapSeq(t.cols, LAMBDA c : c.n)
ColAt(t, n) == PosIn(NamesOf(t), n)
\* rows: sequence of positions, 0 where there is no such row
RowSel(heap, t, R) ==
  CASE R.f = "all"   -> Idx(t.n)
    [] R.f = "int"   -> <<Wrap(R.i, t.n)>>
    [] R.f = "slice" -> SliceIdx(R, t.n)
    [] R.f = "mask"  -> SelIdx(t.n, LAMBDA i : R.m[i] = 1)
    [] R.f = "fancy" -> MapSeq(R.idx, LAMBDA i : Wrap(i, t.n))
    [] R.f = "label" -> SelIdx(t.n, LAMBDA i : \E x \in 1..Len(R.xs) :
                          \A q \in 1..Len(R.cs) : ReadCol(heap, t.cols[ColAt(t, R.cs[q])])[i] = R.xs[x][q])
ColSel(t, C) ==
  LET nc == Len(t.cols) IN
  CASE C.f = "all"   -> Idx(nc)
    [] C.f = "name"  -> <<ColAt(t, C.n)>>
    [] C.f = "names" -> MapSeq(C.ns, LAMBDA n : ColAt(t, n))
    [] C.f = "int"   -> <<Wrap(C.i, nc)>>
    [] C.f = "ints"  -> MapSeq(C.idx, LAMBDA i : Wrap(i, nc))
    [] C.f = "slice" -> SliceIdx(C, nc)
    [] C.f = "mask"  -> SelIdx(nc, LAMBDA i : C.m[i] = 1)
One(C) == C.f \in {"name", "int"}
NoZero(s) == \A i \in 1..Len(s) : s[i] # 0

----------------------------------------------------------------------------
(* state *)
S(heap, tabs) == [heap |-> heap, tabs |-> tabs]
Tab(n, cols) == [n |-> IF cols = <<>> THEN 0 ELSE n, cols |-> cols]
\* fresh columns from sequences of values: cs = sequence of [n, v]
Fresh(s, n, cs) ==
  S(s.heap \o MapSeq(cs, LAMBDA c : c.v),
    Append(s.tabs, Tab(n, MapSeq(Idx(Len(cs)), LAMBDA j : [n |-> cs[j].n, b |-> Len(s.heap) + j, m |-> Idx(Len(cs[j].v))]))))
Gather(v, rows) == MapSeq(rows, LAMBDA r : IF r = 0 THEN NA ELSE v[r])
Shares(R) == R.f \in {"all", "slice"}
\* the table that selecting gives
Select(s, t, R, C) ==
  LET T == s.tabs[t]
      rows == RowSel(s.heap, T, R)
      cols == ColSel(T, C)
  IN IF Shares(R)
     THEN S(s.heap, Append(s.tabs, Tab(Len(rows), MapSeq(cols, LAMBDA j : [T.cols[j] EXCEPT !.m = Take(T.cols[j].m, rows)]))))
     ELSE Fresh(s, Len(rows), MapSeq(cols, LAMBDA j : [n |-> T.cols[j].n, v |-> Gather(ReadCol(s.heap, T.cols[j]), rows)]))
\* the value for cell (k-th selected row, j-th selected column)
Cell(s, val, k, j) ==
  CASE val.f = "scalar" -> val.x
    [] val.f = "col"    -> val.v[k]
    [] val.f = "row"    -> val.v[j]
    [] val.f = "grid"   -> val.g[j][k]
    [] val.f = "tab"    -> ReadCol(s.heap, s.tabs[val.t].cols[j])[k]
ShapeOk(s, val, nr, nc) ==
  CASE val.f = "scalar" -> TRUE
    [] val.f = "col"    -> nc = 1 /\ Len(val.v) = nr
    [] val.f = "row"    -> nr = 1 /\ Len(val.v) = nc
    [] val.f = "grid"   -> Len(val.g) = nc /\ \A j \in 1..Len(val.g) : Len(val.g[j]) = nr
    [] val.f = "tab"    -> Len(s.tabs[val.t].cols) = nc /\ s.tabs[val.t].n = nr
\* column after column; a column's values are read before it is written; a row named twice takes the last
Assign(s, t, R, C, val) ==
  LET T == s.tabs[t]
      rows == RowSel(s.heap, T, R)
      cols == ColSel(T, C)
      OneCol(h, j) == LET c == T.cols[cols[j]]
                          wr == MapSeq(Idx(Len(rows)), LAMBDA k : Cell(S(h, s.tabs), val, k, j))
                      IN FoldLeft(LAMBDA hh, k : [hh EXCEPT ![c.b][c.m[rows[k]]] = wr[k]], h, Idx(Len(rows)))
  IN S(FoldLeft(OneCol, s.heap, Idx(Len(cols))), s.tabs)
\* whole columns are replaced by new ones (no sharing with the old)
SetCols(s, t, names, vals) ==
  LET Put(a, j) ==
        LET T == a.tabs[t]
            col == [n |-> names[j], b |-> Len(a.heap) + 1, m |-> Idx(Len(vals[j]))]
            p == ColAt(T, names[j])
        IN S(Append(a.heap, vals[j]), [a.tabs EXCEPT ![t] = Tab(Len(vals[j]), IF p = 0 THEN Append(T.cols, col) ELSE [T.cols EXCEPT ![p] = col])])
  IN FoldLeft(Put, s, Idx(Len(names)))

Step(s, op) ==
  LET T == s.tabs[op.t] IN
  CASE op.o = "get"     -> IF One(op.cols) THEN s ELSE Select(s, op.t, op.rows, op.cols)
    [] op.o = "set"     -> Assign(s, op.t, op.rows, op.cols, op.val)
    [] op.o = "head"    -> Select(s, op.t, [f |-> "slice", ha |-> 0, a |-> 0, hb |-> 1, b |-> Min2(op.x, T.n), s |-> 1], [f |-> "all"])
    [] op.o = "tail"    -> IF op.x >= 0
                           THEN Select(s, op.t, [f |-> "slice", ha |-> 1, a |-> T.n - Min2(op.x, T.n), hb |-> 0, b |-> 0, s |-> 1], [f |-> "all"])
                           ELSE Select(s, op.t, [f |-> "slice", ha |-> 1, a |-> -op.x, hb |-> 0, b |-> 0, s |-> 1], [f |-> "all"])
    [] op.o = "shallow" -> S(s.heap, Append(s.tabs, T))
    [] op.o = "deep"    -> Fresh(s, T.n, MapSeq(T.cols, LAMBDA c : [n |-> c.n, v |-> ReadCol(s.heap, c)]))
    [] op.o = "filter"  -> Fresh(s, Len(RowSel(s.heap, T, op.rows)), MapSeq(T.cols, LAMBDA c : [n |-> c.n, v |-> Gather(ReadCol(s.heap, c), RowSel(s.heap, T, op.rows))]))
    [] op.o = "filterin" -> LET rows == RowSel(s.heap, T, op.rows)
                                f == Fresh(s, Len(rows), MapSeq(T.cols, LAMBDA c : [n |-> c.n, v |-> Gather(ReadCol(s.heap, c), rows)]))
                            IN S(f.heap, [s.tabs EXCEPT ![op.t] = f.tabs[Len(f.tabs)]])
    [] op.o = "bind"    -> \* T[to] = U[from]: the column itself, shared
         LET U == s.tabs[op.u]
             col == [U.cols[ColAt(U, op.from)] EXCEPT !.n = op.to]
             p == ColAt(T, op.to)
         IN S(s.heap, [s.tabs EXCEPT ![op.t] = Tab(T.n, IF p = 0 THEN Append(T.cols, col) ELSE [T.cols EXCEPT ![p] = col])])
    [] op.o = "setcol"  -> SetCols(s, op.t, op.names, op.vals)
    [] op.o = "putmask" -> LET R == [f |-> "mask", m |-> op.m] IN
                           LET rows == RowSel(s.heap, T, R) IN
                           Assign(s, op.t, R, [f |-> "all"], [f |-> "grid", g |-> MapSeq(op.g, LAMBDA v : Take(v, rows))])
    [] OTHER -> s
\* is the operation to be refused
Refuse(s, op) ==
  LET T == s.tabs[op.t] IN
  CASE op.o \in {"get", "set"} ->
         \/ ~NoZero(ColSel(T, op.cols))
         \/ One(op.cols) /\ op.rows.f = "int" /\ ~NoZero(RowSel(s.heap, T, op.rows))
         \/ op.o = "set" /\ ( ~NoZero(RowSel(s.heap, T, op.rows))
                              \/ ~ShapeOk(s, op.val, Len(RowSel(s.heap, T, op.rows)), Len(ColSel(T, op.cols))) )
    [] op.o = "putmask" -> Len(op.m) # T.n \/ Len(op.g) # Len(T.cols)
    [] op.o = "filter" \/ op.o = "filterin" -> op.rows.f = "mask" /\ Len(op.rows.m) # T.n
    [] OTHER -> FALSE
\* the array or cell that reading one column gives
ReadOne(s, op) ==
  LET T == s.tabs[op.t]
  IN Gather(ReadCol(s.heap, T.cols[ColSel(T, op.cols)[1]]), RowSel(s.heap, T, op.rows))

----------------------------------------------------------------------------
(* conformance *)
Dump(s) == MapSeq(s.tabs, LAMBDA t : [n |-> t.n, names |-> NamesOf(t), vals |-> MapSeq(t.cols, LAMBDA c : ReadCol(s.heap, c))])
CellsStart == S(<<>>, <<>>)
SampleOk(s, op, d) ==   \* d: dump of the new table
  LET T == s.tabs[op.t]
      src == MapSeq(T.cols, LAMBDA c : ReadCol(s.heap, c))
      pool == RowSel(s.heap, T, op.rows)
      rows == op.picked
  IN /\ Len(rows) = Min2(op.x, Len(pool)) /\ d.n = Len(rows)
     /\ ToSet(rows) \subseteq ToSet(pool) /\ ~HasDup(rows)
     /\ d.names = NamesOf(T) /\ d.vals = MapSeq(src, LAMBDA v : Take(v, rows))
JHist(st, ev) ==
  IF ev.k = 0
  THEN LET s1 == Fresh(CellsStart, ev.n, ev.init) IN V(s1, FirstFail(<< <<ev.err = "", "raised">>, <<ev.dump = Dump(s1), "initial">> >>))
  ELSE IF ev.op.o = "sample"
  THEN LET s1 == Fresh(st, Len(ev.op.picked), MapSeq(st.tabs[ev.op.t].cols, LAMBDA c : [n |-> c.n, v |-> Take(ReadCol(st.heap, c), SelectSeq(ev.op.picked, LAMBDA i : i \in 1..Len(c.m)))]))
       IN V(s1, FirstFail(<< <<ev.err = "", "raised">>, <<ev.err = "" => SampleOk(st, ev.op, ev.dump[Len(ev.dump)]), "sample">>, <<ev.dump = Dump(s1), "sample_others">> >>))
  ELSE LET rf == Refuse(st, ev.op)
           s1 == IF rf THEN st ELSE Step(st, ev.op)
           d == Dump(s1)
       IN V(s1, FirstFail(<<
            << rf \/ ev.err = "", "raised" >>,
            << rf => ev.err # "", "not_refused" >>,
            << Len(ev.dump) = Len(d), "tables" >>,
            << rf => ev.dump = d, "refused_but_changed" >>,
            << ev.op.o = "get" /\ One(ev.op.cols) /\ ~rf => ev.res = ReadOne(st, ev.op), "read" >>,
            << \A i \in 1..Len(d) : Len(ev.dump) = Len(d) /\ i <= Len(st.tabs) /\ i # ev.op.t => ev.dump[i] = d[i], "other_table" >>,
            << ev.dump = d, "cells" >> >>))
CellsJudge(st, ev) == JHist(st, ev)
=============================================================================
