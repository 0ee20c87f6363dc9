-------------------------------- MODULE Cat --------------------------------
(***************************************************************************)
(* Categoricals.  A label is an integer whose order is the sort order of   *)
(* the concrete values (for several keys: the lexicographic rank of the    *)
(* tuple).  A Categorical is a record                                      *)
(*   m     : 0 codes index a category list, 1 codes are keys of a mapping  *)
(*   b     : base index of the codes (0 or 1; 0 when m = 1)                *)
(*   cats  : the category list (labels), or the <<code, label>> pairs in   *)
(*           ascending code order                                          *)
(*   cells : per row the label, 0 when the row is filtered (in no          *)
(*           category); when m = 1 per row the code                        *)
(*   lk,au : locked, auto-add                                              *)
(***************************************************************************)
EXTENDS RtBase

Obj(m, b, cats, cells) == [m |-> m, b |-> b, cats |-> cats, cells |-> cells, lk |-> 0, au |-> 0]
Nil == Obj(0, 1, <<>>, <<>>)
CStart == <<Nil, Nil>>

In(s, x) == \E i \in 1..Len(s) : s[i] = x
SortSet(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
SortBy(s, lt(_, _)) == SortSeq(s, lt)
Part(vals, flt) == SelIdx(Len(vals), LAMBDA i : Len(flt) = 0 \/ flt[i] = 1)
CatsOf(vals, sorted) == IF sorted = 1 THEN SortSet(ToSet(vals)) ELSE DistinctSeq(vals)

(* what the codes mean *)
Code(o, lab) == IF lab = 0 THEN 0 ELSE PosIn(o.cats, lab) - 1 + o.b
Decode(o, code) == IF o.b = 1 /\ code = 0 THEN 0 ELSE o.cats[code - o.b + 1]
MapLabel(o, code) == LET m == SelectSeq(o.cats, LAMBDA p : p[1] = code) IN IF Len(m) = 0 THEN -code ELSE m[1][2]
Labels(o) == IF o.m = 1 THEN MapSeq(o.cells, LAMBDA c : MapLabel(o, c)) ELSE o.cells
MapCode(o, lab) == LET m == SelectSeq(o.cats, LAMBDA p : p[2] = lab) IN IF Len(m) = 0 THEN NA ELSE m[1][1]
MapHasCode(o, c) == \E i \in 1..Len(o.cats) : o.cats[i][1] = c
MapHasLabel(o, x) == \E i \in 1..Len(o.cats) : o.cats[i][2] = x
SortMap(s) == SortSeq(s, LAMBDA p, q : p[1] < q[1])

(*------------------------- construction --------------------------------*)
Raise == [r |-> 1, o |-> Nil]
Made(o) == [r |-> 0, o |-> o]
Filt(vals, flt) == Seqify(Len(vals), LAMBDA i : IF Len(flt) > 0 /\ flt[i] = 0 THEN 0 ELSE vals[i])

New(ev) ==
  CASE ev.form \in {"vals", "pairs", "dict", "zero"} ->
         Made(Obj(0, ev.base, CatsOf(Take(ev.vals, Part(ev.vals, ev.flt)), ev.srt), Filt(ev.vals, ev.flt)))
    [] ev.form = "given" ->
         IF \E i \in 1..Len(ev.vals) : ~In(ev.cats, ev.vals[i]) /\ Len(ev.flt) = 0 THEN Raise
         ELSE Made(Obj(0, ev.base, ev.cats, MapSeq(Filt(ev.vals, ev.flt), LAMBDA x : IF In(ev.cats, x) THEN x ELSE 0)))
    [] ev.form \in {"codes", "codes2"} ->
         IF \E i \in 1..Len(ev.vals) : ev.vals[i] < 0 \/ ev.vals[i] - ev.base + 1 > Len(ev.cats) THEN Raise
         ELSE LET o == Obj(0, ev.base, ev.cats, <<>>) IN Made([o EXCEPT !.cells = Filt(MapSeq(ev.vals, LAMBDA c : Decode(o, c)), ev.flt)])
    [] ev.form = "pd" ->  \* codes of a pandas Categorical: -1 is missing
         Made(Obj(0, 1, ev.cats, Filt(MapSeq(ev.vals, LAMBDA c : IF c < 0 THEN 0 ELSE ev.cats[c + 1]), ev.flt)))
    [] ev.form = "dup" -> \* category_make_unique after codes over a list with repeats
         LET u == CatsOf(ev.cats, ev.srt) IN Made(Obj(0, ev.base, u, MapSeq(ev.vals, LAMBDA c : IF ev.base = 1 /\ c = 0 THEN 0 ELSE ev.cats[c - ev.base + 1])))
    [] ev.form = "full" -> Made(Obj(0, 1, <<ev.vals[1]>>, ev.vals))
    [] ev.form = "map" -> Made(Obj(1, 0, SortMap(ev.cats), ev.vals))
    [] OTHER -> Raise

(*------------------------- observations --------------------------------*)
(* o.sc, o.ex, o.st: labels read row by row, by expanding to an array, as strings *)
ObsClauses(o, x) == <<
  <<o.m = x.m, "mode">>, <<o.b = x.b, "base">>, <<o.cats = x.cats, "categories">>, <<o.cells = x.cells, "cells">>,
  <<o.sc = Labels(x), "scalar-read">>, <<o.ex = x.cells, "expand-array">>, <<o.st = MapSeq(Labels(x), LAMBDA l : Max2(l, 0)), "string-read">>,
  <<o.uc = Len(x.cats), "unique-count">>,
  <<x.m = 1 \/ Len(x.cells) = 0 \/ Len(x.cats) = 0 \/ o.gcats = x.cats, "grouping-categories">> >>
ObsV(o, x) == FirstFail(ObsClauses(o, x))

(*------------------------- editing a category list ----------------------*)
Res(r, st) == [r |-> r, st |-> st]                     \* r: 0 must succeed, 1 must be refused
Put(st, t, o) == [st EXCEPT ![t] = o]
Oth(t) == 3 - t
SetCells(cells, idx, f(_)) == Seqify(Len(cells), LAMBDA i : IF In(idx, i) THEN f(i) ELSE cells[i])
Remap(o, from, to) == MapSeq(o.cells, LAMBDA x : IF x = from THEN to ELSE x)
DropOne(s, x) == SelectSeq(s, LAMBDA y : y # x)
UnionSorted(s, q) == SortSet(ToSet(s) \cup ToSet(q))
\* the order of merged categories is not promised: take the observed one when it is a permutation of the expected
AnyOrder(seen, want) == IF Len(seen) = Len(want) /\ ToSet(seen) = ToSet(want) THEN seen ELSE want
LastAt(idx, i) == CHOOSE k \in 1..Len(idx) : idx[k] = i /\ \A j \in (k+1)..Len(idx) : idx[j] # i

\* codes are edited in place: a category whose code the code type cannot hold (ev.room categories) is refused
Full(o, ev, l) == ~In(o.cats, l) /\ Len(o.cats) >= ev.room

Step(st, ev) ==
  LET t == ev.t
      o == st[t]
      p == st[Oth(t)]
      Same == Res(1, st)
      Do(x) == Res(0, Put(st, t, x))
      To(x) == Res(0, Put(st, Oth(t), x))
      Fresh(x) == To([x EXCEPT !.lk = 0, !.au = 0])
      n == Len(o.cells)
  IN CASE ev.op = "new" -> LET q == New(ev) IN IF q.r = 1 THEN Same ELSE Do(q.o)
    [] ev.op = "add" -> IF o.lk = 1 \/ In(o.cats, ev.a) \/ Full(o, ev, ev.a) THEN Same ELSE Do([o EXCEPT !.cats = Append(@, ev.a)])
    [] ev.op = "rem" -> IF o.lk = 1 \/ ~In(o.cats, ev.a) THEN Same ELSE Do([o EXCEPT !.cats = DropOne(@, ev.a), !.cells = Remap(o, ev.a, 0)])
    [] ev.op = "rep" ->
         IF o.lk = 1 \/ ~In(o.cats, ev.a) THEN Same
         ELSE Do([o EXCEPT !.cells = Remap(o, ev.a, ev.c), !.cats = IF In(@, ev.c) THEN @ ELSE MapSeq(@, LAMBDA x : IF x = ev.a THEN ev.c ELSE x)])
    [] ev.op = "set" ->    \* one label into rows idx
         IF o.lk = 1 \/ (~In(o.cats, ev.a) /\ o.au = 0) \/ Full(o, ev, ev.a) THEN Same
         ELSE Do([o EXCEPT !.cells = SetCells(@, ev.idx, LAMBDA i : ev.a), !.cats = IF In(@, ev.a) THEN @ ELSE UnionSorted(@, <<ev.a>>)])
    [] ev.op = "setl" ->   \* one label into all rows that hold another label
         IF o.lk = 1 \/ ~In(o.cats, ev.a) \/ (~In(o.cats, ev.c) /\ o.au = 0) \/ Full(o, ev, ev.c) THEN Same
         ELSE Do([o EXCEPT !.cells = Remap(o, ev.a, ev.c), !.cats = IF In(@, ev.c) THEN @ ELSE UnionSorted(@, <<ev.c>>)])
    [] ev.op = "setc" ->   \* one code
         IF ev.a < 0 \/ ev.a - o.b + 1 > Len(o.cats) THEN Same ELSE Do([o EXCEPT !.cells = SetCells(@, ev.idx, LAMBDA i : Decode(o, ev.a))])
    [] ev.op = "setk" ->   \* the rows idx := the labels of the rows jdx of the other Categorical
         LET src == Take(p.cells, ev.jdx) IN
         IF \E j \in 1..Len(src) : src[j] # 0 /\ ~In(o.cats, src[j]) THEN Same
         ELSE Do([o EXCEPT !.cells = SetCells(@, ev.idx, LAMBDA i : src[LastAt(ev.idx, i)])])
    [] ev.op = "lock" -> Do([o EXCEPT !.lk = 1])
    [] ev.op = "unlock" -> Do([o EXCEPT !.lk = 0])
    [] ev.op = "auto" -> IF o.lk = 1 THEN Res(0, st) ELSE Do([o EXCEPT !.au = 1])  \* a locked one only warns
    [] ev.op = "noauto" -> Do([o EXCEPT !.au = 0])
    [] ev.op = "copy" -> Fresh(o)
    [] ev.op = "take" -> Fresh([o EXCEPT !.cells = Take(@, ev.idx)])
    [] ev.op = "valid" -> \* rows outside the filter become filtered; categories without rows disappear
         LET cs == Filt(o.cells, ev.flt) IN Fresh([o EXCEPT !.cells = cs, !.b = 1, !.cats = SelectSeq(@, LAMBDA x : In(cs, x))])
    [] ev.op \in {"shrink", "shrinki"} ->
         LET nc == IF ev.c = 0 \/ In(ev.cats, ev.c) THEN ev.cats ELSE Append(ev.cats, ev.c)
             x  == [o EXCEPT !.cats = nc, !.cells = MapSeq(@, LAMBDA v : IF v = 0 THEN 0 ELSE IF In(ev.cats, v) THEN v ELSE ev.c)]
         IN IF o.b = 0 THEN Same ELSE IF ev.op = "shrink" THEN Fresh(x) ELSE Do(x)
    [] ev.op = "shiftc" -> Fresh([o EXCEPT !.cells = Seqify(n, LAMBDA i : IF i - ev.a \in 1..n THEN o.cells[i - ev.a] ELSE 0)])
    [] ev.op = "inval" -> Fresh([o EXCEPT !.cells = Seqify(n, LAMBDA i : 0)])
    [] ev.op = "align" -> \* both get the same, sorted categories; no cell changes
         IF o.b # p.b THEN Same
         ELSE IF o.cats = p.cats THEN Res(0, st)
         ELSE LET u == AnyOrder(ev.obs[t].cats, UnionSorted(o.cats, p.cats)) IN Res(0, Put(Put(st, t, [o EXCEPT !.cats = u, !.lk = 0, !.au = 0]), Oth(t), [p EXCEPT !.cats = u, !.lk = 0, !.au = 0]))
    [] ev.op = "stack" -> \* other := stacked (this, other)
         IF o.b # p.b THEN Same
         ELSE Fresh([o EXCEPT !.cats = IF o.cats = p.cats THEN @ ELSE AnyOrder(ev.obs[Oth(t)].cats, UnionSorted(@, p.cats)), !.cells = @ \o p.cells])
    (*---- mappings ----*)
    [] ev.op = "madd" -> IF o.lk = 1 \/ MapHasCode(o, ev.a) THEN Same ELSE Do([o EXCEPT !.cats = SortMap(Append(@, <<ev.a, ev.c>>))])
    [] ev.op = "mrem" -> IF o.lk = 1 \/ ~MapHasCode(o, ev.a) THEN Same ELSE Do([o EXCEPT !.cats = SelectSeq(@, LAMBDA q : q[1] # ev.a)])
    [] ev.op = "mrep" -> IF o.lk = 1 \/ ~MapHasCode(o, ev.a) THEN Same ELSE Do([o EXCEPT !.cats = MapSeq(@, LAMBDA q : IF q[1] = ev.a THEN <<ev.a, ev.c>> ELSE q)])
    [] ev.op = "mnew" -> IF o.lk = 1 THEN Same ELSE Do([o EXCEPT !.cats = SortMap(ev.cats)])
    [] ev.op = "mset" -> IF o.lk = 1 \/ ~MapHasLabel(o, ev.a) THEN Same ELSE Do([o EXCEPT !.cells = SetCells(@, ev.idx, LAMBDA i : MapCode(o, ev.a))])
    [] ev.op = "msetc" -> IF ~MapHasCode(o, ev.a) THEN Same ELSE Do([o EXCEPT !.cells = SetCells(@, ev.idx, LAMBDA i : ev.a)])
    [] OTHER -> Same

(*------------------------- queries ---------------------------------------*)
B(x) == IF x THEN 1 ELSE 0
ANY == -9
Rel(q, x, y) == CASE q = "eq" -> x = y [] q = "ne" -> x # y [] q = "lt" -> x < y [] q = "le" -> x <= y [] q = "gt" -> x > y [] OTHER -> x >= y
IsOrd(q) == q \notin {"eq", "ne"}
SortedCats(o) == \A i \in 1..(Len(o.cats)-1) : o.cats[i] < o.cats[i+1]
(* order comparisons follow the declared category order (the code order of a mapping) *)
Key(o, x) == IF o.m = 1 THEN MapCode(o, x) ELSE PosIn(o.cats, x)
CmpScalar(o, q, x) ==
  LET ls == Labels(o)
      known == IF o.m = 1 THEN MapHasLabel(o, x) ELSE In(o.cats, x)
  IN Seqify(Len(ls), LAMBDA i :
       IF ~IsOrd(q) THEN B(Rel(q, ls[i], x))
       ELSE IF ls[i] <= 0 THEN ANY
       ELSE IF known THEN B(Rel(q, Key(o, ls[i]), Key(o, x)))
       ELSE IF o.m = 0 /\ SortedCats(o) THEN B(Rel(q, ls[i], x)) ELSE ANY)
CmpCat(o, p, q) ==
  LET l1 == Labels(o) l2 == Labels(p)
      comparable == o.m = 1 \/ o.cats = p.cats \/ (SortedCats(o) /\ SortedCats(p))
      u == IF o.m = 1 THEN o ELSE [o EXCEPT !.cats = IF o.cats = p.cats THEN @ ELSE UnionSorted(@, p.cats)]
  IN Seqify(Len(l1), LAMBDA i :
       IF ~IsOrd(q) THEN (IF l1[i] = 0 /\ l2[i] = 0 THEN ANY ELSE B(Rel(q, l1[i], l2[i])))
       ELSE IF l1[i] <= 0 \/ l2[i] <= 0 \/ ~comparable THEN ANY ELSE B(Rel(q, Key(u, l1[i]), Key(u, l2[i]))))
Agree(exp, got) == Len(exp) = Len(got) /\ \A i \in 1..Len(exp) : exp[i] = ANY \/ exp[i] = got[i]

Query(st, ev) ==  \* expected answer as a sequence
  LET o == st[ev.t] p == st[Oth(ev.t)] ls == Labels(o) n == Len(ls) IN
  CASE ev.q \in {"eq", "ne", "lt", "le", "gt", "ge"} -> CmpScalar(o, ev.q, ev.a)
    [] ev.q = "where" -> CmpScalar(o, "eq", ev.a)
    [] ev.q \in {"ceq", "cne", "clt", "cle", "cgt", "cge"} -> CmpCat(o, p, CASE ev.q = "ceq" -> "eq" [] ev.q = "cne" -> "ne" [] ev.q = "clt" -> "lt" [] ev.q = "cle" -> "le" [] ev.q = "cgt" -> "gt" [] OTHER -> "ge")
    [] ev.q = "aeq" -> Seqify(n, LAMBDA i : B(ls[i] = ev.cats[i]))          \* element by element with an array
    [] ev.q = "ane" -> Seqify(n, LAMBDA i : B(ls[i] # ev.cats[i]))
    [] ev.q = "isin" -> MapSeq(ls, LAMBDA x : B(In(ev.cats, x)))
    [] ev.q = "cisin" -> MapSeq(ls, LAMBDA x : IF x = 0 THEN ANY ELSE B(In(Labels(p), x)))
    [] ev.q = "member" -> \* first position in the list, or missing
         MapSeq(ls, LAMBDA x : IF In(ev.cats, x) THEN PosIn(ev.cats, x) - 1 ELSE NA)
    [] ev.q = "filtered" -> MapSeq(ls, LAMBDA x : B(x = 0))
    [] ev.q = "bin" -> <<IF o.m = 1 THEN MapLabel(o, ev.a) ELSE Decode(o, ev.a)>>
    [] ev.q = "cat" -> <<IF o.m = 1 THEN MapCode(o, ev.a) ELSE Code(o, ev.a)>>
    [] ev.q = "nuniq" -> <<IF o.m = 1 THEN Cardinality(ToSet(o.cells)) ELSE Cardinality(ToSet(ls) \ {0})>>
    [] ev.q = "hot" -> FoldLeft(LAMBDA acc, x : acc \o MapSeq(ls, LAMBDA y : B(x = y)), <<>>, o.cats)
    [] ev.q = "map" -> \* ev.cats[k] -> ev.to[k]; anything else is missing
         MapSeq(ls, LAMBDA x : IF In(ev.cats, x) THEN ev.to[PosIn(ev.cats, x)] ELSE ev.a)
    [] ev.q = "mapa" -> MapSeq(ls, LAMBDA x : IF x = 0 THEN ev.a ELSE ev.to[PosIn(o.cats, x)])
    [] ev.q = "single" -> ls
    [] ev.q = "cats" -> o.cats
    [] ev.q = "count" -> MapSeq(o.cats, LAMBDA x : Len(SelectSeq(ls, LAMBDA y : y = x)))
    [] OTHER -> <<BAD>>
QRaises(st, ev) ==
  LET o == st[ev.t] IN
  CASE ev.q = "bin" -> IF o.m = 1 THEN ~MapHasCode(o, ev.a) ELSE ev.a < o.b \/ ev.a - o.b + 1 > Len(o.cats)
    [] ev.q = "cat" -> IF o.m = 1 THEN ~MapHasLabel(o, ev.a) ELSE ~In(o.cats, ev.a)
    [] ev.q \in {"eq", "ne", "lt", "le", "gt", "ge", "where"} -> o.m = 1 /\ ~MapHasLabel(o, ev.a)
    [] OTHER -> FALSE
Norm(q, s) == IF q = "cats" THEN s ELSE s

CatJudge(st0, ev) ==
  LET st == IF ev.k = 0 THEN CStart ELSE st0 IN
  IF Len(st) = 0 THEN V(st, "ok")   \* the history has already left the specification
  ELSE IF ev.op = "q" THEN
    V(st, FirstFail(<< <<(ev.raised = 1) = QRaises(st, ev), "refusal:" \o ev.q>>,
                       <<ev.raised = 1 \/ Agree(Query(st, ev), ev.res), "query:" \o ev.q>>,
                       <<ev.frame = 1, "query-modified:" \o ev.q>> >>))
  ELSE LET e == Step(st, ev)
           bad == FirstFail(<< <<(ev.raised = 1) = (e.r = 1), "refusal:" \o ev.op>> >>)
           va == ObsV(ev.obs[1], e.st[1])
           vb == ObsV(ev.obs[2], e.st[2])
           vv == IF bad # "ok" THEN bad ELSE IF va # "ok" THEN ev.op \o ":" \o va ELSE IF vb # "ok" THEN ev.op \o ":" \o vb ELSE IF ev.frame # 1 THEN ev.op \o ":inputs-modified" ELSE "ok"
       IN V(IF vv = "ok" THEN e.st ELSE <<>>, vv)
=============================================================================
