------------------------------ MODULE CellsMC ------------------------------
(* Any history of selections, copies, bindings and cell writes over tables
   that may share memory.  prev/last remember the last step. *)
EXTENDS Cells
CONSTANTS MaxSteps, N, MaxTabs
VARIABLES s, prev, last, steps
vars == <<s, prev, last, steps>>
View == <<s, prev, last>>
All == [f |-> "all"]
Slc(a, b, st) == [f |-> "slice", ha |-> 1, a |-> a, hb |-> 1, b |-> b, s |-> st]
Rows == {All, Slc(1, N, 1), Slc(N, -N - 1, -1), Slc(0, N, 2), [f |-> "mask", m |-> [i \in 1..N |-> i % 2]],
         [f |-> "fancy", idx |-> <<N - 1, 0, N - 1>>], [f |-> "fancy", idx |-> <<-1, N>>], [f |-> "int", i |-> 0], [f |-> "int", i |-> N]}
Cols == {[f |-> "all"], [f |-> "name", n |-> "a"], [f |-> "names", ns |-> <<"b", "a">>], [f |-> "int", i |-> 5]}
Usable(t, R) == R.f = "mask" => t.n = N
Vals == {[f |-> "scalar", x |-> 9], [f |-> "col", v |-> <<7, 8, 7>>], [f |-> "tab", t |-> 1]}
Ops(tabs) ==
  UNION { {[o |-> "get", t |-> t, rows |-> R, cols |-> C] : R \in {r \in Rows : Usable(tabs[t], r)}, C \in Cols}
     \cup {[o |-> "set", t |-> t, rows |-> R, cols |-> C, val |-> v] : R \in {r \in Rows : Usable(tabs[t], r)}, C \in Cols, v \in Vals}
     \cup {[o |-> o, t |-> t] : o \in {"shallow", "deep"}}
     \cup {[o |-> o, t |-> t, x |-> x] : o \in {"head", "tail"}, x \in {-1, 0, 2}}
     \cup {[o |-> "filterin", t |-> t, rows |-> [f |-> "fancy", idx |-> <<0>>]]}
     \cup {[o |-> "bind", t |-> t, u |-> u, from |-> "b", to |-> "c"] : u \in {u \in 1..Len(tabs) : tabs[u].n = tabs[t].n /\ ColAt(tabs[u], "b") # 0}}
     : t \in {t \in 1..Len(tabs) : tabs[t].cols # <<>>} }
Grows(op) == op.o \in {"get", "shallow", "deep", "head", "tail"}
Init == /\ s = Fresh(CellsStart, N, <<[n |-> "a", v |-> Idx(N)], [n |-> "b", v |-> MapSeq(Idx(N), LAMBDA i : 10 + i)]>>)
        /\ prev = s /\ last = [o |-> "none"] /\ steps = 0
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \E op \in Ops(s.tabs) : /\ (Grows(op) => Len(s.tabs) < MaxTabs)
                                   /\ s' = (IF Refuse(s, op) THEN s ELSE Step(s, op)) /\ prev' = s /\ last' = op
Spec == Init /\ [][Next]_vars
\* the cells of the heap a column occupies
Occ(c) == {<<c.b, c.m[i]>> : i \in 1..Len(c.m)}
OccT(t) == UNION {Occ(t.cols[j]) : j \in 1..Len(t.cols)}
WellFormed == \A t \in 1..Len(s.tabs) : \A j \in 1..Len(s.tabs[t].cols) :
     LET c == s.tabs[t].cols[j] IN c.b \in 1..Len(s.heap) /\ Len(c.m) = s.tabs[t].n /\ \A i \in 1..Len(c.m) : c.m[i] \in 1..Len(s.heap[c.b])
Old == 1..Len(prev.tabs)
\* only a write changes what another table shows, and only where they share a cell
FrameOfOthers == last.o # "none" => \A t \in Old :
     (t # last.t \/ last.o \in {"get", "shallow", "deep", "head", "tail"}) =>
        /\ s.tabs[t] = prev.tabs[t]
        /\ (Dump(s)[t] # Dump(prev)[t] => last.o = "set" /\ OccT(prev.tabs[t]) \cap OccT(prev.tabs[last.t]) # {})
NewSharesNothing == (last.o = "deep" \/ (last.o = "get" /\ ~One(last.cols) /\ ~Shares(last.rows))) /\ Len(s.tabs) > Len(prev.tabs) =>
     \A t \in Old : OccT(s.tabs[t]) \cap OccT(s.tabs[Len(s.tabs)]) = {}
\* what was assigned is what is read back, the rest of the table is as before
ReadBack == (last.o = "set" /\ ~Refuse(prev, last)) =>
  LET T == s.tabs[last.t]
      rows == RowSel(prev.heap, prev.tabs[last.t], last.rows)
      cols == ColSel(T, last.cols)
      Untouched(c, i) == \A j \in 1..Len(cols), k \in 1..Len(rows) :
          <<T.cols[c].b, T.cols[c].m[i]>> # <<T.cols[cols[j]].b, T.cols[cols[j]].m[rows[k]]>>
  IN /\ last.val.f = "scalar" => \A j \in 1..Len(cols), k \in 1..Len(rows) : ReadCol(s.heap, T.cols[cols[j]])[rows[k]] = last.val.x
     /\ \A c \in 1..Len(T.cols) : \A i \in 1..T.n :
          Untouched(c, i) => ReadCol(s.heap, T.cols[c])[i] = ReadCol(prev.heap, T.cols[c])[i]
HeapOnlyGrows == last.o \notin {"none", "set"} => SubSeq(s.heap, 1, Len(prev.heap)) = prev.heap
=============================================================================
