------------------------------- MODULE BinMC -------------------------------
(* A sorted list of edges grows one edge at a time (splitting a bin) while a
   column grows one value at a time; the bins kept incrementally must be the
   declarative ones. *)
EXTENDS Bin
CONSTANTS Cells, Points, MaxN, MaxE
VARIABLES x, E, code
vars == <<x, E, code>>
MCCells == {-3, 0, 2, 4, 5, INFV, NA}
MCPoints == {<<-3, 1>>, <<1, 2>>, <<2, 1>>, <<9, 2>>, <<0 - INFV, 1>>, <<INFV, 1>>}
Init == /\ x = <<>> /\ code = <<>>
        /\ E \in {<<a, b>> : a, b \in Points} /\ ELt(E[1], E[2])
AddValue == /\ Len(x) < MaxN /\ \E v \in Cells : x' = Append(x, v) /\ code' = Append(code, CutRight(v, E))
            /\ UNCHANGED E
\* a new inner edge e splits bin k: its values above e, and all later bins, move up by one
Split == /\ Len(E) < MaxE
         /\ \E e \in Points, k \in 1..(Len(E) - 1) :
              /\ ELt(E[k], e) /\ ELt(e, E[k + 1])
              /\ E' = SubSeq(E, 1, k) \o <<e>> \o SubSeq(E, k + 1, Len(E))
              /\ code' = [i \in 1..Len(x) |-> IF code[i] > k \/ (code[i] = k /\ ~Le(x[i], e)) THEN code[i] + 1 ELSE code[i]]
         /\ UNCHANGED x
Next == AddValue \/ Split
Spec == Init /\ [][Next]_vars
CodesMatch == code = [i \in 1..Len(x) |-> CutRight(x[i], E)]
\* exactly one bin holds a value inside the edges; bins keep the order of the values
Partition == \A i \in 1..Len(x) : code[i] \in 0..(Len(E) - 1) /\ ((code[i] = 0) <=> (x[i] = NA \/ Lt(x[i], E[1]) \/ ~Le(x[i], E[Len(E)])))
Monotone == \A i, j \in 1..Len(x) : (code[i] > 0 /\ code[j] > 0 /\ x[i] <= x[j]) => code[i] <= code[j]
LeftRight == \A i \in 1..Len(x) : LET l == CutLeft(x[i], E) r == CutRight(x[i], E)
   IN x[i] # NA => (l = r \/ (Le(x[i], E[1]) /\ l = 0) \/ (l = Len(E) /\ r = 0))
QuantilesInside == LET f == Fin(x) Q == QuantEdges(x, <<<<0, 1>>, <<1, 3>>, <<1, 2>>, <<1, 1>>>>)
   IN Len(f) > 0 => /\ \A i \in 1..Len(f) : QCut(f[i], DropRepeats(Q)) >= (IF Cardinality(ToSet(f)) > 1 THEN 2 ELSE 1)
                    /\ Increasing(Q)
EqualCovers == LET f == Fin(x) IN Cardinality(ToSet(f)) > 1 => \A i \in 1..Len(f), nb \in 1..3 : CutRight(f[i], EqualEdges(f, nb)) \in 1..nb
SearchLaw == \A v \in Cells \ {NA} : LET s == Sorted(NoNA(x)) IN Search(s, v, "right") - Search(s, v, "left") = Len(SelectSeq(s, LAMBDA w : w = v))
=============================================================================
