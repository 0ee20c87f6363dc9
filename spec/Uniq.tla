------------------------------- MODULE Uniq -------------------------------
(***************************************************************************)
(* Identity of rows: membership (ismember, isin, assoc_index, assoc_copy), *)
(* distinct values (unique, nunique) and duplicates (duplicated,           *)
(* drop_duplicates).  A row is a tuple of key cells.  Each key column says *)
(* how a missing cell behaves:  nm = 0 a missing cell equals nothing,      *)
(* 1 it equals itself, 2 the type leaves it open; nf = 1 missing cells     *)
(* sort before all values, 0 after.                                        *)
(***************************************************************************)
EXTENDS RtBase

----------------------------------------------------------------------------
(* membership *)
CellMust(nm, a, b) == a = b /\ (a # NA \/ nm = 1)
CellMay(nm, a, b)  == a = b /\ (a # NA \/ nm # 0)
RowMust(nm, a, b) == \A c \in 1..Len(nm) : CellMust(nm[c], a[c], b[c])
RowMay(nm, a, b)  == \A c \in 1..Len(nm) : CellMay(nm[c], a[c], b[c])
\* position of the first row of B equal to row a, 0 = none
FirstMatch(nm, a, B) ==
  IF \E j \in 1..Len(B) : RowMay(nm, a, B[j])
  THEN CHOOSE j \in 1..Len(B) : RowMay(nm, a, B[j]) /\ \A m \in 1..(j - 1) : ~RowMay(nm, a, B[m])
  ELSE 0
Open(nm, a) == \E c \in 1..Len(nm) : a[c] = NA /\ nm[c] = 2
MemberRow(nm, a, B, mask, pos) ==
  LET f == FirstMatch(nm, a, B)
  IN \/ mask = (IF f # 0 THEN 1 ELSE 0) /\ pos = f
     \/ Open(nm, a) /\ mask = 0 /\ pos = 0
Members(nm, A, B, mask, pos) ==
  Len(mask) = Len(A) /\ Len(pos) = Len(A) /\ \A i \in 1..Len(A) : MemberRow(nm, A[i], B, mask[i], pos[i])
InSet(nm, A, B, mask) ==
  Len(mask) = Len(A) /\ \A i \in 1..Len(A) :
     \/ mask[i] = (IF FirstMatch(nm, A[i], B) # 0 THEN 1 ELSE 0)
     \/ Open(nm, A[i]) /\ mask[i] = 0

----------------------------------------------------------------------------
(* distinct rows; a missing cell is one value *)
CellLess(nf, a, b) == IF a = NA THEN nf = 1 /\ b # NA ELSE IF b = NA THEN nf = 0 ELSE a < b
RowLess(nf, a, b) ==
  \E c \in 1..Len(nf) : CellLess(nf[c], a[c], b[c]) /\ \A d \in 1..(c - 1) : a[d] = b[d]
Kept(K, F) == Take(K, SelIdx(Len(K), LAMBDA i : F[i] = 1))
Distinct(K, F) == DistinctSeq(Kept(K, F))
Sorted(nf, s) == SortSeq(s, LAMBDA x, y : RowLess(nf, x, y))
Uniques(K, F, nf, mode) == IF mode = "first" THEN Distinct(K, F) ELSE Sorted(nf, Distinct(K, F))
FirstIdx(K, F, u) == IF \E i \in 1..Len(K) : K[i] = u /\ F[i] = 1
                     THEN CHOOSE i \in 1..Len(K) : K[i] = u /\ F[i] = 1 /\ \A m \in 1..(i - 1) : ~(K[m] = u /\ F[m] = 1)
                     ELSE NA
CountOf(K, F, u) == Len(SelIdx(Len(K), LAMBDA i : K[i] = u /\ F[i] = 1))
Indices(K, F, un) == MapSeq(un, LAMBDA u : FirstIdx(K, F, u))
InverseOf(K, F, un) == MapSeq(Idx(Len(K)), LAMBDA i : IF F[i] = 1 THEN PosIn(un, K[i]) ELSE 0)
Counts(K, F, un) == MapSeq(un, LAMBDA u : CountOf(K, F, u))

----------------------------------------------------------------------------
(* duplicates; keep = 1 first, 2 last, 0 none *)
Dup(K, keep, i) ==
  CASE keep = 1 -> \E m \in 1..(i - 1) : K[m] = K[i]
    [] keep = 2 -> \E m \in (i + 1)..Len(K) : K[m] = K[i]
    [] OTHER    -> \E m \in 1..Len(K) : m # i /\ K[m] = K[i]
DupMask(K, keep) == MapSeq(Idx(Len(K)), LAMBDA i : IF Dup(K, keep, i) THEN 1 ELSE 0)
\* the rows that survive, in the order of the first appearance of their key
LastOf(K, u) == CHOOSE i \in 1..Len(K) : K[i] = u /\ \A m \in (i + 1)..Len(K) : K[m] # u
DropRows(K, keep) ==
  LET un == DistinctSeq(K)
  IN CASE keep = 1 -> MapSeq(un, LAMBDA u : PosIn(K, u))
       [] keep = 2 -> MapSeq(un, LAMBDA u : LastOf(K, u))
       [] OTHER    -> SelIdx(Len(K), LAMBDA i : ~Dup(K, 0, i))

----------------------------------------------------------------------------
(* conformance *)
Ones(n) == MapSeq(Idx(n), LAMBDA i : 1)
UniqMember(ev) ==
  << << ev.err = "", "raised" >>, << ev.frame = 1, "inputs_changed" >>, << Members(ev.nm, ev.A, ev.B, ev.mask, ev.pos), "member" >> >>
UniqIsin(ev) ==
  << << ev.err = "", "raised" >>, << ev.frame = 1, "inputs_changed" >>, << InSet(ev.nm, ev.A, ev.B, ev.mask), "isin" >> >>
UniqAssoc(ev) ==
  << << ev.err = "", "raised" >>, << ev.frame = 1, "inputs_changed" >>,
     << Len(ev.res) = Len(ev.A) /\ \A i \in 1..Len(ev.A) : Len(ev.res) = Len(ev.A) =>
          LET f == FirstMatch(ev.nm, ev.A[i], ev.B)
          IN ev.res[i] = (IF f = 0 THEN NA ELSE ev.vals[f]) \/ Open(ev.nm, ev.A[i]), "assoc" >> >>
UniqUnique(ev) ==
  LET un == IF ev.cats # <<>> THEN ev.cats ELSE Uniques(ev.K, ev.F, ev.nf, ev.mode)
  IN << << ev.err = "", "raised" >>, << ev.frame = 1, "inputs_changed" >>,
        << ev.un = un, "uniques" >>,
        << ev.want[1] = 1 => ev.idx = Indices(ev.K, ev.F, un), "index" >>,
        << ev.want[2] = 1 => ev.inv = InverseOf(ev.K, ev.F, un), "inverse" >>,
        << ev.want[3] = 1 => ev.cnt = Counts(ev.K, ev.F, un), "counts" >> >>
UniqN(ev) ==
  << << ev.err = "", "raised" >>, << ev.frame = 1, "inputs_changed" >>,
     << ev.n = Cardinality({ev.K[i] : i \in {j \in 1..Len(ev.K) : ev.cntna = 1 \/ ev.K[j][1] # NA}}), "nunique" >> >>
UniqDup(ev) ==
  << << ev.err = "", "raised" >>, << ev.frame = 1, "inputs_changed" >>, << ev.mask = DupMask(ev.K, ev.keep), "duplicated" >> >>
\* rows of the table are numbered by a value column; every other column must follow
UniqDrop(ev) ==
  << << ev.err = "", "raised" >>, << ev.frame = 1, "inputs_changed" >>,
     << ev.rows = <<-1>> \/ ev.rows = DropRows(ev.K, ev.keep), "rows" >>,
     << ev.okeys = Take(ev.K, DropRows(ev.K, ev.keep)), "keys" >>,
     << ToSet(ev.names) = ToSet(ev.cols) /\ Len(ev.names) = Len(ev.cols), "columns" >> >>
UniqStart == <<>>
UniqJudge(st, ev) ==
  V(st, FirstFail(CASE ev.fn = "member" -> UniqMember(ev)
                    [] ev.fn = "isin"   -> UniqIsin(ev)
                    [] ev.fn = "assoc"  -> UniqAssoc(ev)
                    [] ev.fn = "unique" -> UniqUnique(ev)
                    [] ev.fn = "n"      -> UniqN(ev)
                    [] ev.fn = "dup"    -> UniqDup(ev)
                    [] OTHER            -> UniqDrop(ev)))
=============================================================================
