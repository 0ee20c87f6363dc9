------------------------------ MODULE SortMC ------------------------------
(* A table under any history of sorts, views, cell writes, column
   replacement and selection.  A cache of the last displayed order, keyed by
   the contents of the key columns, is kept alongside; the invariants say it
   may never be stale, and state the laws of stable sorting. *)
EXTENDS Sort
CONSTANTS MaxSteps, N
VARIABLES s, cache, steps, last
vars == <<s, cache, steps, last>>
Cells == {1, 2, NA}
Col(nm, v) == [n |-> nm, v |-> v, na |-> <<1, 0>>]
Init == /\ \E a, b \in [1..N -> Cells] : s = T(<<Col("a", a), Col("b", b), Col("r", Idx(N))>>, NoView)
        /\ cache = << >> /\ steps = 0 /\ last = [o |-> "none"]
Bys == {<<"a">>, <<"a", "b">>, <<"b", "a">>}
SortOps == {[o |-> o, by |-> by, asc |-> asc] : o \in {"inplace", "copy", "view"}, by \in Bys, asc \in {<<1>>, <<0>>}}
        \cup {[o |-> o, by |-> <<"a", "b">>, asc |-> asc] : o \in {"inplace", "view"}, asc \in {<<1, 0>>, <<0, 1>>}}
EditOps == {[o |-> "off"], [o |-> "on"], [o |-> "dscopy"], [o |-> "save"]}
        \cup {[o |-> "cell", c |-> "a", i |-> 1, x |-> x] : x \in Cells}
        \cup {[o |-> "repl", c |-> "b", v |-> [i \in 1..N |-> 1], na |-> <<1, 0>>]}
        \cup {[o |-> "cols", keep |-> <<"b", "r">>], [o |-> "drop", c |-> "b"]}
Enabled(op) == /\ op.o \in {"inplace", "copy", "view"} => HasAll(s.cols, op.by)
               /\ op.o \in {"cell", "repl", "drop"} => ColNo(s.cols, op.c) # 0
               /\ op.o = "cols" => HasAll(s.cols, op.keep)
\* the display: use the cached order when the key contents and directions are the same
Fp == <<KeysOf(s.cols, s.view.by, s.view.asc)>>
Show == IF s.view.on = 1 /\ s.view.by # <<>> /\ (cache = << >> \/ cache[1] # Fp)
        THEN cache' = <<Fp, SortRows(KeysOf(s.cols, s.view.by, s.view.asc), Nrows(s.cols))>> ELSE cache' = cache
Do(op) == Enabled(op) /\ s' = StepSort(s, op) /\ last' = op /\ UNCHANGED cache
Next == steps < MaxSteps /\ steps' = steps + 1 /\ ((\E op \in SortOps \cup EditOps : Do(op)) \/ (Show /\ UNCHANGED <<s, last>>))
Spec == Init /\ [][Next]_vars
View == <<s, cache, steps>>

RowsPermuted == \A c \in 1..Len(s.cols) : s.cols[c].n = "r" => ToSet(s.cols[c].v) = 1..N
CacheNotStale == (s.view.on = 1 /\ s.view.by # <<>> /\ cache # << >>) => (cache[1] = Fp => cache[2] = ViewRows(s.cols, s.view))
ViewNamesExist == HasAll(s.cols, s.view.by) /\ Len(s.view.by) = Len(s.view.asc)
SortedAfterInplace == last.o = "inplace" => ViewRows(s.cols, [by |-> last.by, asc |-> Dirs(last), on |-> 1]) = Idx(N)
StableLaws ==
  LET k == <<[v |-> s.cols[1].v, na |-> <<1, 0>>, asc |-> 1]>>
      p == SortRows(k, N)
  IN /\ IsPerm(p, N) /\ InOrder(k, p)
     /\ \A m \in 1..(N - 1) : RowTie(k, p[m], p[m + 1]) => p[m] < p[m + 1]
\* sorting by the minor key then the major key equals one sort by both
MinorThenMajor == HasAll(s.cols, <<"a", "b">>) =>
  LET two == SortRows(KeysOf(s.cols, <<"a", "b">>, <<1, 0>>), N)
      minor == Reorder(s.cols, SortRows(KeysOf(s.cols, <<"b">>, <<0>>), N))
      major == Reorder(minor, SortRows(KeysOf(minor, <<"a">>, <<1>>), N))
  IN major = Reorder(s.cols, two)
=============================================================================
