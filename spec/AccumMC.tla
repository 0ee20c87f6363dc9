------------------------------ MODULE AccumMC ------------------------------
(* Rows arrive one by one; each is filed in a cell.  The machine keeps, per *)
(* cell, running aggregates only; the cross-table read off them must be the *)
(* table computed from the whole history.                                   *)
EXTENDS Accum
CONSTANTS NR, NC, Vals, MaxN
V2 == {NA, 3}
V3 == {NA, -1, 2}
VARIABLES hist, cell
vars == <<hist, cell>>
Z == [n |-> 0, c |-> 0, sum |-> 0, na |-> 0, mn |-> NA, mx |-> NA]
Cells == (0..NR) \X (0..NC)
Upd(a, v) == IF v = NA THEN [a EXCEPT !.n = @ + 1, !.na = @ + 1]
             ELSE [a EXCEPT !.n = @ + 1, !.c = @ + 1, !.sum = @ + v, !.mn = IF @ = NA \/ v < @ THEN v ELSE @, !.mx = IF @ = NA \/ v > @ THEN v ELSE @]
Init == hist = <<>> /\ cell = [k \in Cells |-> Z]
Next == /\ Len(hist) < MaxN
        /\ \E r \in 0..NR, c \in 0..NC, f \in {0, 1}, v \in Vals :
             LET k == <<IF f = 1 THEN r ELSE 0, IF f = 1 THEN c ELSE 0>> IN
             /\ hist' = Append(hist, [r |-> r, c |-> c, f |-> f, v |-> v])
             /\ cell' = [cell EXCEPT ![k] = Upd(@, v)]
Spec == Init /\ [][Next]_vars
RB == MapSeq(hist, LAMBDA h : h.r)
CB == MapSeq(hist, LAMBDA h : h.c)
F == MapSeq(hist, LAMBDA h : h.f)
VV == MapSeq(hist, LAMBDA h : h.v)
\* aggregates of a set of cells, combined from the cells' aggregates
SumOver(K, fld(_)) == FoldSet(LAMBDA k, a : a + fld(cell[k]), 0, K)
MinOver(K) == LET s == {cell[k].mn : k \in K} \ {NA} IN IF s = {} THEN NA ELSE Min(s)
MaxOver(K) == LET s == {cell[k].mx : k \in K} \ {NA} IN IF s = {} THEN NA ELSE Max(s)
Agrees(K, s) ==
  LET n == SumOver(K, LAMBDA a : a.n)  c == SumOver(K, LAMBDA a : a.c)  t == SumOver(K, LAMBDA a : a.sum) IN
  /\ REq(Reduce("count", s, <<0>>), R(n, 1))
  /\ REq(Reduce("nansum", s, <<0>>), R(t, 1))
  /\ REq(Reduce("sum", s, <<0>>), IF n # c THEN RNA ELSE R(t, 1))
  /\ REq(Reduce("nanmean", s, <<0>>), IF c = 0 THEN RNA ELSE R(t, c))
  /\ REq(Reduce("mean", s, <<0>>), IF n # c \/ n = 0 THEN RNA ELSE R(t, n))
  /\ REq(Reduce("nanmin", s, <<0>>), R(MinOver(K), 1)) /\ REq(Reduce("nanmax", s, <<0>>), R(MaxOver(K), 1))
  /\ REq(Reduce("min", s, <<0>>), IF n # c THEN RNA ELSE R(MinOver(K), 1))
CellsOK == \A k \in Cells : Agrees({k}, CellVals(RB, CB, F, VV, k[1], k[2]))
\* margins, with and without the Filtered bins and with any rows / columns left out
MarginsOK == \A o \in {0, 1} : LET S == o..NR C == o..NC IN
   /\ \A r \in S : Agrees({r} \X C, RowVals(RB, CB, F, VV, r, C))
   /\ \A c \in C : Agrees(S \X {c}, ColVals(RB, CB, F, VV, c, S))
   /\ \A S2 \in SUBSET S : \A C2 \in SUBSET C : Agrees(S2 \X C2, AllVals(RB, CB, F, VV, S2, C2))
\* nothing is lost: with Filtered shown the corner is the whole input
Total == ToSet(AllVals(RB, CB, F, VV, 0..NR, 0..NC)) = ToSet(VV) /\ SumOver(Cells, LAMBDA a : a.n) = Len(hist)
=============================================================================
