------------------------------ MODULE GroupMC ------------------------------
(* A table that grows one row at a time, with per-group accumulators that are
   updated incrementally (the way a streaming implementation would).  The
   invariants state that the incremental state always equals the declarative
   definition of the grouping, the reductions and the running operations over
   the whole table, and that the grouping structures form a partition. *)
EXTENDS Group
CONSTANTS Keys, Vals, MaxRows
VARIABLES K, F, Vs, gl, acc, cs, sh

vars == <<K, F, Vs, gl, acc, cs, sh>>
MCKeys == {<<1>>, <<2>>, <<3>>}
MCVals == {NA, -1, 2}

Init == K = <<>> /\ F = <<>> /\ Vs = <<>> /\ gl = <<>> /\ acc = <<>> /\ cs = <<>> /\ sh = <<>>

Zero == [n |-> 0, c |-> 0, sum |-> 0, na |-> FALSE, mn |-> NA, mx |-> NA, first |-> NA, last |-> NA, vals |-> {}]
Upd(a, v) == [n |-> a.n + 1, c |-> a.c + (IF v = NA THEN 0 ELSE 1),
              sum |-> a.sum + (IF v = NA THEN 0 ELSE v), na |-> a.na \/ v = NA,
              mn |-> IF v = NA THEN a.mn ELSE IF a.mn = NA THEN v ELSE Min2(a.mn, v),
              mx |-> IF v = NA THEN a.mx ELSE IF a.mx = NA THEN v ELSE Max2(a.mx, v),
              first |-> IF a.n = 0 THEN v ELSE a.first, last |-> v, vals |-> a.vals \cup {v}]

AddRow(k, f, v) ==
  LET isnew == f = 1 /\ ~(\E i \in 1..Len(gl) : gl[i] = k)
      g == IF isnew THEN Append(gl, k) ELSE gl
      a0 == IF isnew THEN Append(acc, Zero) ELSE acc
      b == IF f = 1 THEN PosIn(g, k) ELSE 0
      a1 == IF b = 0 THEN a0 ELSE [a0 EXCEPT ![b] = Upd(@, v)]
  IN /\ K' = Append(K, k) /\ F' = Append(F, f) /\ Vs' = Append(Vs, v)
     /\ gl' = g /\ acc' = a1
     /\ cs' = Append(cs, IF b = 0 THEN RNA ELSE IF a1[b].na THEN RNA ELSE R(a1[b].sum, 1))
     /\ sh' = Append(sh, IF b = 0 \/ a0[b].n = 0 THEN RNA ELSE R(a0[b].last, 1))

Next == Len(K) < MaxRows /\ \E k \in Keys, f \in {0, 1}, v \in Vals : AddRow(k, f, v)
Spec == Init /\ [][Next]_vars

n == Len(K)
B == Bins(K, F, gl)
Ones == [i \in 1..n |-> 1]
Zeros == [i \in 1..n |-> 0]

GroupsAgree == gl = Groups(K, F, "first", <<>>)
LexIsPermutation == LET x == Groups(K, F, "lex", <<>>) IN ToSet(x) = ToSet(gl) /\ Len(x) = Len(gl)
                    /\ \A i \in 1..(Len(x) - 1) : LexLess(x[i], x[i + 1])
Partition == LET ig == IGroup(B, Len(gl)) IN
     /\ Len(ig) = n /\ ToSet(ig) = {i - 1 : i \in 1..n}
     /\ SumSeq(NCount(B, Len(gl))) = n
     /\ \A b \in 1..Len(gl) : NCount(B, Len(gl))[b + 1] = acc[b].n /\ acc[b].n > 0
     /\ \A i \in 1..n : (F[i] = 1) => gl[B[i]] = K[i]
     /\ \A i \in 1..n : (F[i] = 0) <=> (B[i] = 0)
Chain == \A i \in 1..n : LET nx == INextKey(B)[i] IN nx = NA \/ IPrevKey(B)[nx + 1] = i - 1
FirstLast == \A b \in 1..Len(gl) : /\ IFirstKey(B, Len(gl))[b] <= ILastKey(B, Len(gl))[b]
                                   /\ IPrevKey(B)[IFirstKey(B, Len(gl))[b] + 1] = NA
                                   /\ INextKey(B)[ILastKey(B, Len(gl))[b] + 1] = NA
G(b) == ValuesIn(B, b, Vs, Ones)
Reductions == \A b \in 1..Len(gl) : LET a == acc[b] s == G(b) IN
     /\ REq(Reduce("count", s, <<0>>), R(a.n, 1))
     /\ REq(Reduce("nansum", s, <<0>>), R(a.sum, 1))
     /\ REq(Reduce("sum", s, <<0>>), IF a.na THEN RNA ELSE R(a.sum, 1))
     /\ REq(Reduce("nanmin", s, <<0>>), R(a.mn, 1)) /\ REq(Reduce("nanmax", s, <<0>>), R(a.mx, 1))
     /\ REq(Reduce("first", s, <<0>>), R(a.first, 1)) /\ REq(Reduce("last", s, <<0>>), R(a.last, 1))
     /\ REq(Reduce("nanmean", s, <<0>>), IF a.c = 0 THEN RNA ELSE R(a.sum, a.c))
     /\ REq(Reduce("count_uniques", s, <<0>>), R(Cardinality(a.vals), 1))
     /\ REq(Reduce("nanmedian", s, <<0>>), Reduce("nanquantile", s, <<1, 2>>))
     /\ REq(Reduce("nanquantile", s, <<0, 1>>), Reduce("nanmin", s, <<0>>))
     /\ REq(Reduce("nanquantile", s, <<1, 1>>), Reduce("nanmax", s, <<0>>))
RunningOps == \A i \in 1..n :
     /\ RowOp("cumsum", B, Vs, Ones, Zeros, <<0>>, i) = cs[i]
     /\ RowOp("shift", B, Vs, Ones, Zeros, <<1>>, i) = sh[i]
\* the running sum of the last row of a group is the group's sum; shift by w then by -w comes back
Consistency == \A b \in 1..Len(gl) :
     REq(cs[ILastKey(B, Len(gl))[b] + 1], Reduce("sum", G(b), <<0>>))
TotalSum == SumSeq(MapSeq(acc, LAMBDA a : a.sum)) = SumSeq(NoNA(MapSeq(SelIdx(n, LAMBDA i : F[i] = 1), LAMBDA i : Vs[i])))
============================================================================
