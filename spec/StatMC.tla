------------------------------ MODULE StatMC ------------------------------
(* A column is read in any number of chunks by two workers that keep only
   count, sum, sum of squares, least and greatest; at the end their states
   are merged.  Every reduction computed from the merged state must be the
   declarative one; the order statistics obey their laws. *)
EXTENDS Stat
CONSTANTS Cells, MaxN
VARIABLES x, acc
vars == <<x, acc>>
MCCells == {-2, 0, 3, NA}
Empty == [n |-> 0, s |-> 0, q |-> 0, lo |-> NA, hi |-> NA, na |-> 0]
Take1(a, v) == IF v = NA THEN [a EXCEPT !.na = @ + 1]
               ELSE [n |-> a.n + 1, s |-> a.s + v, q |-> a.q + v * v, na |-> a.na,
                     lo |-> IF a.n = 0 THEN v ELSE Min2(a.lo, v), hi |-> IF a.n = 0 THEN v ELSE Max2(a.hi, v)]
Merge(a, b) == IF a.n = 0 THEN [b EXCEPT !.na = @ + a.na] ELSE IF b.n = 0 THEN [a EXCEPT !.na = @ + b.na]
               ELSE [n |-> a.n + b.n, s |-> a.s + b.s, q |-> a.q + b.q, na |-> a.na + b.na, lo |-> Min2(a.lo, b.lo), hi |-> Max2(a.hi, b.hi)]
Init == x = <<>> /\ acc = <<Empty, Empty>>
Next == Len(x) < MaxN /\ \E v \in Cells, w \in 1..2 : x' = Append(x, v) /\ acc' = [acc EXCEPT ![w] = Take1(@, v)]
Spec == Init /\ [][Next]_vars
M == Merge(acc[1], acc[2])
MergedSums == /\ Reduce("nansum", x, <<>>) = R(M.s, 1)
              /\ REq(Reduce("nanmean", x, <<>>), IF M.n = 0 THEN RNA ELSE R(M.s, M.n))
              /\ REq(Reduce("nanmin", x, <<>>), R(M.lo, 1)) /\ REq(Reduce("nanmax", x, <<>>), R(M.hi, 1))
MergedVar == \A d \in 0..1 : REq(One("nanvar", x, <<d>>), IF M.n - d <= 0 THEN RNA ELSE R(M.n * M.q - M.s * M.s, M.n * (M.n - d)))
MissingPropagates == M.na > 0 => \A op \in {"sum", "mean", "min", "max"} : Reduce(op, x, <<>>) = RNA
NoMissingAgree == M.na = 0 => /\ REq(Reduce("sum", x, <<>>), Reduce("nansum", x, <<>>))
                              /\ REq(Reduce("mean", x, <<>>), Reduce("nanmean", x, <<>>))
                              /\ REq(One("var", x, <<1>>), One("nanvar", x, <<1>>))
LE(a, b) == a[1] = NA \/ b[1] = NA \/ a[1] * b[2] <= b[1] * a[2]
QuantileLaws == /\ REq(Linear(NoNA(x), 0, 1), R(M.lo, 1)) /\ REq(Linear(NoNA(x), 1, 1), R(M.hi, 1))
                /\ REq(Linear(NoNA(x), 1, 2), MedianOf(NoNA(x)))
                /\ LE(Linear(NoNA(x), 1, 10), Linear(NoNA(x), 1, 4)) /\ LE(Linear(NoNA(x), 3, 4), Linear(NoNA(x), 9, 10))
ArgIsExt == M.n > 0 => /\ x[ArgExt("nanargmin", x) + 1] = M.lo /\ x[ArgExt("nanargmax", x) + 1] = M.hi
                       /\ (M.na = 0 => ArgExt("argmin", x) = ArgExt("nanargmin", x))
RollWhole == Len(x) > 0 => LET w == Len(x)
   IN /\ REq(Roll("rolling_sum", x, w, <<>>)[w], Reduce("sum", x, <<>>))
      /\ \A i \in 1..w : REq(Roll("rolling_nansum", x, 1, <<>>)[i], R(IF x[i] = NA THEN 0 ELSE x[i], 1))
CountsAddUp == SumSeq(MapSeq(Uniq(x, 0), LAMBDA v : CountOf(x, v))) = Len(x) /\ ToSet(Uniq(x, 1)) = ToSet(x) /\ Len(Uniq(x, 1)) = Len(Uniq(x, 0))
DescribeAgrees == M.n > 0 => LET d == Describe(x, <<<<1, 2>>>>)
   IN /\ REq(d[2], R(M.n, 1)) /\ REq(d[4], R(M.s, M.n)) /\ REq(d[7], MedianOf(NoNA(x))) /\ LE(d[6], d[9]) /\ LE(d[9], d[8])
=============================================================================
