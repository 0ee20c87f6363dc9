------------------------------- MODULE Stack -------------------------------
(***************************************************************************)
(* Stacking tables: one under the other (Dataset.concat_rows, hstack,      *)
(* stack_rows), side by side (concat_columns), and member by member        *)
(* (Struct.hstack).  A table is [n, c]: its number of rows and its columns *)
(* in order, each [m, k, g, v]: name, class, gap (what a cell reads as     *)
(* where a table lacks the column) and cells.                              *)
(***************************************************************************)
EXTENDS RtBase

Names(t) == MapSeq(t.c, LAMBDA c : c.m)
AllNames(T) == DistinctSeq(FoldLeft(LAMBDA acc, t : acc \o Names(t), <<>>, T))
Col(t, m) == t.c[PosIn(Names(t), m)]
Has(t, m) == PosIn(Names(t), m) # 0
Gap(g, n) == [i \in 1..n |-> g]
\* the cells of column m, one block per table
FirstWith(T, m) == T[CHOOSE i \in 1..Len(T) : Has(T[i], m) /\ \A j \in 1..(i - 1) : ~Has(T[j], m)]
GapOf(T, m) == Col(FirstWith(T, m), m).g
Cells(T, m) == LET g == GapOf(T, m) IN FoldLeft(LAMBDA acc, t : acc \o (IF Has(t, m) THEN Col(t, m).v ELSE Gap(g, t.n)), <<>>, T)
Rows(T) == FoldLeft(LAMBDA a, t : a + t.n, 0, T)
ClassesClash(T) == \E m \in ToSet(AllNames(T)) : \E i, j \in 1..Len(T) : Has(T[i], m) /\ Has(T[j], m) /\ Col(T[i], m).k # Col(T[j], m).k
StackRows(T) == [n |-> Rows(T), c |-> MapSeq(AllNames(T), LAMBDA m : [m |-> m, k |-> Col(FirstWith(T, m), m).k, g |-> GapOf(T, m), v |-> Cells(T, m)])]
\* rows a+1 .. b of a table
Slice(t, a, b) == [n |-> b - a, c |-> MapSeq(t.c, LAMBDA c : [c EXCEPT !.v = SubSeq(c.v, a + 1, b)])]
\* which table a row of the stack came from
RECURSIVE Owner(_, _)
Owner(L, i) == IF i <= L[1] THEN 1 ELSE 1 + Owner(Tail(L), i - L[1])
Owners(L) == FoldLeftDomain(LAMBDA acc, k : acc \o [i \in 1..L[k] |-> k], <<>>, L)
----------------------------------------------------------------------------
(* side by side *)
Repeated(T) == HasDup(FoldLeft(LAMBDA acc, t : acc \o Names(t), <<>>, T))
Uneven(T) == \E i \in 1..Len(T) : T[i].n # T[1].n
LastWith(T, m) == T[CHOOSE i \in 1..Len(T) : Has(T[i], m) /\ \A j \in (i + 1)..Len(T) : ~Has(T[j], m)]
SideBySide(T, dup) == [n |-> T[1].n, c |-> MapSeq(AllNames(T), LAMBDA m : Col(IF dup = "last" THEN LastWith(T, m) ELSE FirstWith(T, m), m))]
SideRefused(T, dup, mis) == Uneven(T) \/ (Repeated(T) /\ (dup = "raise" \/ mis = "raise"))
SideWarns(T, dup, mis) == Repeated(T) /\ dup # "raise" /\ mis = "warn"
----------------------------------------------------------------------------
(* member by member: a member some structures lack is stacked from the others *)
StructMember(T, m) == LET W == SelectSeq(T, LAMBDA t : Has(t, m)) IN FoldLeft(LAMBDA acc, t : acc \o Col(t, m).v, <<>>, W)
----------------------------------------------------------------------------
Cmp(obs, want, tag) ==
  FirstFail(<<
    <<MapSeq(obs.c, LAMBDA c : c.m) = MapSeq(want.c, LAMBDA c : c.m), tag \o "-columns">>,
    <<MapSeq(obs.c, LAMBDA c : c.m) # MapSeq(want.c, LAMBDA c : c.m) \/ \A i \in 1..Len(want.c) : Len(obs.c[i].v) = Len(want.c[i].v), tag \o "-rows">>,
    <<MapSeq(obs.c, LAMBDA c : c.m) # MapSeq(want.c, LAMBDA c : c.m) \/ \A i \in 1..Len(want.c) : obs.c[i].v = want.c[i].v, tag \o "-cells">>,
    <<obs.n = want.n, tag \o "-row-count">> >>)
StackJudge(st, ev) ==
  LET o == ev.obs
      frame == IF o.frame = 1 THEN "ok" ELSE "input-modified"
      both(a) == IF a # "ok" THEN a ELSE frame
      refuse(b) == IF o.raised = 1 THEN both("ok") ELSE "not-refused"
      ok(a) == IF o.raised = 1 THEN ev.t \o "-raised" ELSE both(a)
  IN V(st, CASE
     ev.t = "rows" -> IF ClassesClash(ev.T) THEN refuse(0) ELSE ok(Cmp(o.r, StackRows(ev.T), "rows"))
  [] ev.t = "dict" -> IF ClassesClash(ev.T) THEN refuse(0) ELSE ok(FirstFail(<<
        <<Cmp(o.r, StackRows(ev.T), "dict") = "ok", "dict-stack">>,
        <<o.keys = ev.keys, "dict-keys">>,
        <<o.own = Owners(MapSeq(ev.T, LAMBDA t : t.n)), "dict-owner">> >>))
  [] ev.t = "cols" -> IF SideRefused(ev.T, ev.dup, ev.mis) THEN refuse(0) ELSE ok(FirstFail(<<
        <<Cmp(o.r, SideBySide(ev.T, ev.dup), "cols") = "ok", "cols-stack">>,
        <<(o.warned = 1) <=> SideWarns(ev.T, ev.dup, ev.mis), "cols-warning">>,
        <<ev.copy = 0 \/ o.shared = 0, "cols-copy-shares-memory">> >>))
  [] ev.t = "struct" -> IF ClassesClash(ev.T) THEN V(0, "ok").v ELSE ok(FirstFail(<<
        <<o.names = AllNames(ev.T), "struct-members">>,
        <<o.names # AllNames(ev.T) \/ \A i \in 1..Len(o.names) : o.vals[i] = StructMember(ev.T, o.names[i]), "struct-cells">>,
        <<\A i \in 1..Len(o.subs) : Cmp(o.subs[i], StackRows(ev.subs[i]), "struct") = "ok", "struct-tables">> >>)))
StackStart == 0
=============================================================================
