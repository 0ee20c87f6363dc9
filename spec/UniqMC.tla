------------------------------ MODULE UniqMC ------------------------------
(* Incremental hash table: rows arrive one by one, each either opens a new
   bin or joins one.  Invariants: the table is exactly what the declarative
   operators say, and the laws between them hold for every history. *)
EXTENDS Uniq
CONSTANTS Cells, MaxN
VARIABLES K, F, bins, code, dupf
vars == <<K, F, bins, code, dupf>>
MCCells == {<<1>>, <<2>>, <<NA>>}
MCCells2 == {<<1, 1>>, <<1, NA>>, <<2, 1>>, <<NA, 2>>}
Init == K = <<>> /\ F = <<>> /\ bins = <<>> /\ code = <<>> /\ dupf = <<>>
\* bins : sequence of [key, first, last, n]
BinOf(k) == LET s == SelIdx(Len(bins), LAMBDA b : bins[b].key = k) IN IF s = <<>> THEN 0 ELSE s[1]
Add(k, f) ==
  LET i == Len(K) + 1
      b == BinOf(k)
  IN /\ K' = Append(K, k) /\ F' = Append(F, f)
     /\ IF f = 0 THEN bins' = bins /\ code' = Append(code, 0)
        ELSE IF b = 0 THEN bins' = Append(bins, [key |-> k, first |-> i, last |-> i, n |-> 1]) /\ code' = Append(code, Len(bins) + 1)
        ELSE bins' = [bins EXCEPT ![b].last = i, ![b].n = bins[b].n + 1] /\ code' = Append(code, b)
     /\ dupf' = Append(dupf, IF \E m \in 1..Len(K) : K[m] = k THEN 1 ELSE 0)
Next == Len(K) < MaxN /\ \E k \in Cells, f \in {0, 1} : Add(k, f)
Spec == Init /\ [][Next]_vars
All == Ones(Len(K))
NFs == LET n == Len(CHOOSE c \in Cells : TRUE) IN [1..n -> {0, 1}]
TableIsDistinct ==
  LET un == Distinct(K, F)
  IN /\ MapSeq(bins, LAMBDA b : b.key) = un
     /\ MapSeq(bins, LAMBDA b : b.first) = Indices(K, F, un)
     /\ MapSeq(bins, LAMBDA b : b.n) = Counts(K, F, un)
     /\ code = InverseOf(K, F, un)
SortedIsPermutation == \A nf \in NFs :
  LET s == Sorted(nf, Distinct(K, F)) IN ToSet(s) = ToSet(Distinct(K, F)) /\ \A i, j \in 1..Len(s) : i < j => RowLess(nf, s[i], s[j])
Reconstruct == LET un == Distinct(K, All) IN Take(un, InverseOf(K, All, un)) = K
CountsAddUp == SumSeq(Counts(K, F, Distinct(K, F))) = SumSeq(F)
DupIsComplement ==
  /\ dupf = DupMask(K, 1)
  /\ ToSet(DropRows(K, 1)) = {i \in 1..Len(K) : ~Dup(K, 1, i)}
  /\ ToSet(DropRows(K, 2)) = {i \in 1..Len(K) : ~Dup(K, 2, i)}
  /\ Len(DropRows(K, 1)) = Len(DropRows(K, 2))
  /\ \A i \in 1..Len(K) : Dup(K, 0, i) = (Dup(K, 1, i) \/ Dup(K, 2, i))
SelfMember == LET one == MapSeq(Idx(Len(CHOOSE c \in Cells : TRUE)), LAMBDA c : 1)
  IN \A i \in 1..Len(K) : FirstMatch(one, K[i], K) = PosIn(K, K[i])
NeverMember == LET z == MapSeq(Idx(Len(CHOOSE c \in Cells : TRUE)), LAMBDA c : 0)
  IN \A i \in 1..Len(K) : (\E c \in 1..Len(K[i]) : K[i][c] = NA) <=> FirstMatch(z, K[i], K) = 0
=============================================================================
