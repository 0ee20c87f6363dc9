------------------------------- MODULE RtBase -------------------------------
(***************************************************************************)
(* Values shared by all specification modules.                             *)
(* Every cell of a column is abstracted to an integer; NA is riptable's    *)
(* "invalid" (NaN, the integer sentinels, empty string where it acts as    *)
(* missing, ...).  BAD is what the projection emits for an observed value  *)
(* outside the value pool of the case: the specification never produces it.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

NA   == 2000000001
BAD  == 2000000002
INF  == 2000000003
NINF == 2000000004

IsNA(x) == x = NA
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
AbsV(a) == IF a < 0 THEN -a ELSE a

\* materialise a lazily evaluated function over 1..n as a sequence
Seqify(n, f(_)) == FoldLeftDomain(LAMBDA acc, i : Append(acc, f(i)), <<>>, [k \in 1..n |-> k])
MapSeq(s, f(_)) == FoldLeft(LAMBDA acc, x : Append(acc, f(x)), <<>>, s)
Idx(n) == [k \in 1..n |-> k]
SelIdx(n, P(_)) == SelectSeq(Idx(n), P)             \* 1-based positions satisfying P, ascending
Take(s, idx) == MapSeq(idx, LAMBDA i : s[i])         \* gather by 1-based positions
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
PosIn(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x ELSE 0
HasDup(s) == Cardinality(ToSet(s)) < Len(s)
\* distinct elements in order of first appearance
DistinctSeq(s) == FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : acc[i] = x THEN acc ELSE Append(acc, x), <<>>, s)
Rev(s) == Reverse(s)
V(st, verdict) == [st |-> st, v |-> verdict]
\* first failing clause of a sequence of <<holds, name>> pairs, or "ok"
FirstFail(cl) == LET bad == SelectSeq(cl, LAMBDA c : ~c[1]) IN IF Len(bad) = 0 THEN "ok" ELSE bad[1][2]
=============================================================================
