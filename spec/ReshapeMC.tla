----------------------------- MODULE ReshapeMC -----------------------------
(***************************************************************************)
(* A table with distinct row keys is built and edited cell by cell, rows   *)
(* are appended and moved.  Kept beside it: the long form (one record per  *)
(* cell), maintained incrementally.  Invariants tie melt, pivot, transpose *)
(* and trim of the table to that record and to each other.                 *)
(***************************************************************************)
EXTENDS Reshape
CONSTANTS MaxRows, NCols, Vals
VARIABLES keys, cols, long
vars == <<keys, cols, long>>
Cells == Vals \cup {NA}
N == Len(keys)

Init == keys = <<>> /\ cols = [j \in 1..NCols |-> <<>>] /\ long = {}
AddRow == /\ N < MaxRows
          /\ \E k \in (1..MaxRows) \ ToSet(keys), r \in [1..NCols -> Cells] :
               /\ keys' = Append(keys, k)
               /\ cols' = [j \in 1..NCols |-> Append(cols[j], r[j])]
               /\ long' = long \cup {<<k, j, r[j]>> : j \in 1..NCols}
SetCell == \E i \in 1..N, j \in 1..NCols, x \in Cells :
             /\ cols' = [cols EXCEPT ![j][i] = x]
             /\ long' = {t \in long : ~(t[1] = keys[i] /\ t[2] = j)} \cup {<<keys[i], j, x>>}
             /\ UNCHANGED keys
SwapRows == \E i \in 1..N : /\ i < N
              /\ LET p == [m \in 1..N |-> IF m = i THEN i + 1 ELSE IF m = i + 1 THEN i ELSE m] IN
                   keys' = [m \in 1..N |-> keys[p[m]]] /\ cols' = [j \in 1..NCols |-> [m \in 1..N |-> cols[j][p[m]]]]
              /\ UNCHANGED long
Next == AddRow \/ SetCell \/ SwapRows
Spec == Init /\ [][Next]_vars

All(j, i) == TRUE
M == Melt(<<keys>>, cols, N, All)
L == Len(M.var)
Lab(s) == MapSeq(s, LAMBDA x : <<x>>)
Full(n) == Const(1, n)
\* every cell is in the long form exactly once
MeltAll == /\ L = N * NCols
           /\ {<<M.ids[1][i], M.var[i], M.val[i]>> : i \in 1..L} = long
\* pivoting the long form gives the table back, rows sorted by key; with unsorted keys the table itself
PivotBack == LET un == KeysOf(Lab(M.ids[1]), FALSE)
                 so == KeysOf(Lab(M.ids[1]), TRUE)
                 cs == KeysOf(Lab(M.var), TRUE) IN
             N > 0 => /\ ~PivotDup(Lab(M.ids[1]), Lab(M.var), Full(L))
                      /\ un = Lab(keys)
                      /\ Pivot(Lab(M.ids[1]), Lab(M.var), Full(L), M.val, un, cs) = cols
                      /\ \A j \in 1..NCols, r \in 1..Len(so) : <<so[r][1], j, Pivot(Lab(M.ids[1]), Lab(M.var), Full(L), M.val, so, cs)[j][r]>> \in long
\* leaving out missing cells loses nothing on the way back, as long as the key keeps a row
PivotSparse == LET s == Melt(<<keys>>, cols, N, LAMBDA j, i : cols[j][i] # NA)
                   k == Len(s.var) IN
               \A i \in 1..N, j \in 1..NCols : PivotCell(Lab(s.ids[1]), Lab(s.var), Full(k), s.val, <<keys[i]>>, <<j>>) = cols[j][i]
\* a filter acts like removing the rows; two rows in one cell are noticed
PivotFilter == \A f \in [1..L -> {0, 1}] : L <= 4 =>
                 LET idx == SelIdx(L, LAMBDA i : f[i] = 1) IN
                 \A i \in 1..N, j \in 1..NCols : PivotCell(Lab(M.ids[1]), Lab(M.var), f, M.val, <<keys[i]>>, <<j>>)
                    = PivotCell(Lab(Take(M.ids[1], idx)), Lab(Take(M.var, idx)), Full(Len(idx)), Take(M.val, idx), <<keys[i]>>, <<j>>)
DupSeen == L > 0 => PivotDup(Append(Lab(M.ids[1]), <<M.ids[1][1]>>), Append(Lab(M.var), <<M.var[1]>>), Full(L + 1))
TransposeTwice == N > 0 => Transpose(Transpose(cols, N), NCols) = cols
\* trim removes nothing but empty lines, and trimming again removes nothing more
Emp(j, i) == cols[j][i] = NA
TrimSound == LET cs == TrimCols(NCols, N, Const(1, NCols), Emp, TRUE, FALSE)
                 rs == TrimRows(N, cs, Emp, TRUE, FALSE)
                 sub(j, i) == Emp(cs[j], rs[i]) IN
             /\ \A i \in 1..N, j \in 1..NCols : cols[j][i] # NA => (PosIn(cs, j) # 0 /\ PosIn(rs, i) # 0)
             /\ Len(cs) > 0 => /\ TrimCols(Len(cs), Len(rs), Const(1, Len(cs)), sub, TRUE, FALSE) = Idx(Len(cs))
                               /\ TrimRows(Len(rs), Idx(Len(cs)), sub, TRUE, FALSE) = Idx(Len(rs))
=============================================================================
