------------------------------ MODULE StackMC ------------------------------
(* A log table that grows: every step stacks a small table under it.  What  *)
(* is kept incrementally must be what stacking the whole history gives.     *)
EXTENDS Stack
CONSTANTS MaxT, MaxR, Vals
VARIABLES log, hist
vars == <<log, hist>>
MCNames == {"a", "b"}
Mk(m, v) == [m |-> m, k |-> "n", g |-> NA, v |-> v]
Tables == UNION {{[n |-> n, c |-> c] : c \in
             {<<>>} \cup {<<Mk("a", v)>> : v \in [1..n -> Vals]} \cup {<<Mk("b", v)>> : v \in [1..n -> Vals]}
             \cup {<<Mk("b", v), Mk("a", w)>> : v \in [1..n -> Vals], w \in [1..n -> Vals]}} : n \in 0..MaxR}
Init == log = [n |-> 0, c |-> <<>>] /\ hist = <<>>
Next == Len(hist) < MaxT /\ \E t \in Tables : log' = StackRows(<<log, t>>) /\ hist' = Append(hist, t)
Spec == Init /\ [][Next]_vars
Lens == MapSeq(hist, LAMBDA t : t.n)
Start(k) == SumSeq(SubSeq(Lens, 1, k - 1))
\* stacking at once and step by step agree
Incremental == log = StackRows(hist)
Counts == log.n = SumSeq(Lens) /\ \A i \in 1..Len(log.c) : Len(log.c[i].v) = log.n
\* every table is found again in its block of rows; where it lacks a column there is the gap
Blocks == \A k \in 1..Len(hist) : LET s == Slice(log, Start(k), Start(k) + hist[k].n) IN
            \A i \in 1..Len(s.c) : s.c[i].v = (IF Has(hist[k], s.c[i].m) THEN Col(hist[k], s.c[i].m).v ELSE Gap(NA, hist[k].n))
NoColumnLost == \A k \in 1..Len(hist) : \A m \in ToSet(Names(hist[k])) : Has(log, m)
OwnersOK == LET O == Owners(Lens) IN Len(O) = log.n /\ \A i \in 1..Len(O) : O[i] = Owner(Lens, i)
\* any grouping of the steps gives the same table
Assoc == \A k \in 1..(Len(hist) - 1) : StackRows(<<StackRows(SubSeq(hist, 1, k)), StackRows(SubSeq(hist, k + 1, Len(hist)))>>) = log
Sides == \A d \in {"first", "last"} : Len(hist) = 0 \/ Uneven(hist) \/ (LET s == SideBySide(hist, d) IN Names(s) = AllNames(hist) /\ \A i \in 1..Len(s.c) : \E k \in 1..Len(hist) : s.c[i] \in ToSet(hist[k].c))
=============================================================================
