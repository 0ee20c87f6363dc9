------------------------------- MODULE Accum -------------------------------
(***************************************************************************)
(* Cross-tabulation (Accum2).  Every input row has a row key, a column key *)
(* and a value.  Cell (r, c) is the reduction of the values of the rows    *)
(* filed there; row 0 / column 0 is the Filtered row / column, which is    *)
(* shown on request only.  A row that the filter takes out is filed at     *)
(* (0, 0).  The margin of a shown row is the reduction of all the values   *)
(* filed in that row's shown cells -- not of the cells' results -- and     *)
(* likewise for the columns and for the corner.                            *)
(***************************************************************************)
EXTENDS Group

\* where row i is filed
RBin(RB, F, i) == IF F[i] = 1 THEN RB[i] ELSE 0
CellVals(RB, CB, F, vals, r, c) ==
  MapSeq(SelIdx(Len(RB), LAMBDA i : RBin(RB, F, i) = r /\ RBin(CB, F, i) = c), LAMBDA i : vals[i])
\* values filed in row r in a column of C; in column c in a row of R; anywhere in R x C
RowVals(RB, CB, F, vals, r, C) ==
  MapSeq(SelIdx(Len(RB), LAMBDA i : RBin(RB, F, i) = r /\ RBin(CB, F, i) \in C), LAMBDA i : vals[i])
ColVals(RB, CB, F, vals, c, S) ==
  MapSeq(SelIdx(Len(RB), LAMBDA i : RBin(CB, F, i) = c /\ RBin(RB, F, i) \in S), LAMBDA i : vals[i])
AllVals(RB, CB, F, vals, S, C) ==
  MapSeq(SelIdx(Len(RB), LAMBDA i : RBin(CB, F, i) \in C /\ RBin(RB, F, i) \in S), LAMBDA i : vals[i])

NoMargin == {"first", "last", "nth", "count_uniques"}
----------------------------------------------------------------------------
(* ev: RK, RF, rmode, rgiven / CK, CF, cmode, cgiven: the keys of both axes,
   F: the filter, sf: Filtered shown, op, p, vals, badr / badc: rows and
   columns left out of the margins (numbers, 1-based), tot: margins wanted *)
AccumJudge(st, ev) ==
  LET RG == Groups(ev.RK, ev.RF, ev.rmode, ev.rgiven)
      CG == Groups(ev.CK, ev.CF, ev.cmode, ev.cgiven)
      RB == Bins(ev.RK, ev.RF, RG)
      CB == Bins(ev.CK, ev.CF, CG)
      nr == Len(RG)
      nc == Len(CG)
      off == ev.sf
      S == (1 - off)..nr
      C == (1 - off)..nc
      SG == S \ ToSet(ev.badr)
      CGd == C \ ToSet(ev.badc)
      o == ev.obs
      both == ev.badr # <<>> /\ ev.badc # <<>>
      Ok(s, r) == IF ev.vb = 1 /\ Len(s) = 0 THEN TRUE ELSE IF ev.op = "mode" THEN ModeOk(s, r)
                  ELSE IF ev.op = "reduce" THEN Len(s) = 0 \/ REq(Reduce("sum", s, ev.p), r)    \* a user function that adds up; not called where there is nothing
                  ELSE REq(Reduce(ev.op, s, ev.p), r)
      shape == Len(o.cells) = Cardinality(C) /\ \A k \in 1..Len(o.cells) : Len(o.cells[k]) = Cardinality(S)
      at(c, r) == o.cells[c + off][r + off]
      marg == ev.tot = 1 /\ ev.op \notin NoMargin
  IN V(st, IF ev.t = "trans" THEN FirstFail(<<
       <<o.raised = 0, "raised">>,
       <<Len(o.res) = Len(ev.vals), "transform-length">>,
       \* every row of a shown cell gets its cell's result, also when the operation's own filter leaves the row out
       <<Len(o.res) # Len(ev.vals) \/ \A i \in 1..Len(ev.vals) :
            RBin(RB, ev.F0, i) = 0 \/ RBin(CB, ev.F0, i) = 0 \/ Ok(CellVals(RB, CB, ev.F, ev.vals, RB[i], CB[i]), o.res[i]), "transform-value">>,
       <<o.frame = 1, "input-modified">> >>)
     ELSE FirstFail(<<
       <<o.raised = 0, "raised">>,
       <<o.rows = RG, "row-labels">>,
       <<o.colnames = CG, "column-names">>,
       <<o.filtcol = off /\ o.filtrow = off, "filtered-shown">>,
       <<shape, "shape">>,
       <<~shape \/ \A r \in S : \A c \in C : Ok(CellVals(RB, CB, ev.F, ev.vals, r, c), at(c, r)), "cell">>,
       <<(o.tot = 1) <=> marg, "margins-present">>,
       <<~marg \/ o.tot = 0 \/ (Len(o.rtot) = Cardinality(S) /\ Len(o.ctot) = Cardinality(C)), "margins-shape">>,
       <<~marg \/ o.tot = 0 \/ Len(o.rtot) # Cardinality(S) \/ \A r \in S : (both /\ r \notin SG) \/ Ok(RowVals(RB, CB, ev.F, ev.vals, r, CGd), o.rtot[r + off]), "row-margin">>,
       <<~marg \/ o.tot = 0 \/ Len(o.ctot) # Cardinality(C) \/ \A c \in C : (both /\ c \notin CGd) \/ Ok(ColVals(RB, CB, ev.F, ev.vals, c, SG), o.ctot[c + off]), "column-margin">>,
       <<~marg \/ o.tot = 0 \/ Ok(AllVals(RB, CB, ev.F, ev.vals, SG, CGd), o.grand), "corner">>,
       <<o.frame = 1, "input-modified">> >>))
AccumStart == 0
=============================================================================
