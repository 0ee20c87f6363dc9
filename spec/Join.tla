------------------------------- MODULE Join -------------------------------
(***************************************************************************)
(* Database-style joins of two tables (merge2, merge, merge_lookup,        *)
(* merge_indices).  A table is a sequence of key tuples plus named columns.*)
(* A result row is a pair <<i, j>> of 1-based row numbers; 0 = no row.     *)
(***************************************************************************)
EXTENDS RtBase

Valid(k) == \A c \in 1..Len(k) : k[c] # NA
Match(L, R, i, j) == L[i] = R[j] /\ Valid(L[i])

\* rows that survive de-duplication: keep = 0 all, 1 first, 2 last row of each key
Keeps(K, keep, i) ==
  CASE keep = 0 -> TRUE
    [] keep = 1 -> ~(\E m \in 1..(i - 1) : K[m] = K[i])
    [] OTHER    -> ~(\E m \in (i + 1)..Len(K) : K[m] = K[i])
KeptRows(K, keep) == SelIdx(Len(K), LAMBDA i : Keeps(K, keep, i))

Partners(L, R, i, kr) == SelIdx(Len(R), LAMBDA j : Match(L, R, i, j) /\ Keeps(R, kr, j))

LeftRows(L, R, kl, kr, inner) ==
  FoldLeft(LAMBDA acc, i :
             LET p == Partners(L, R, i, kr)
             IN IF Len(p) = 0 THEN (IF inner THEN acc ELSE Append(acc, <<i, 0>>))
                ELSE acc \o MapSeq(p, LAMBDA j : <<i, j>>),
           <<>>, KeptRows(L, kl))
RightOnly(L, R, kr) ==
  MapSeq(SelIdx(Len(R), LAMBDA j : Keeps(R, kr, j) /\ ~(\E i \in 1..Len(L) : Match(L, R, i, j))), LAMBDA j : <<0, j>>)
Swap(rows) == MapSeq(rows, LAMBDA p : <<p[2], p[1]>>)

JoinRows(how, L, R, kl, kr) ==
  CASE how = "left"  -> LeftRows(L, R, kl, kr, FALSE)
    [] how = "inner" -> LeftRows(L, R, kl, kr, TRUE)
    [] how = "right" -> Swap(LeftRows(R, L, kr, kl, FALSE))
    [] how = "outer" -> LeftRows(L, R, kl, kr, FALSE) \o RightOnly(L, R, kr)

\* the older merge(): the first match only, keys taken as they come
FirstOf(K, k) == PosIn(K, k)
OldRows(how, L, R) ==
  CASE how = "left"  -> MapSeq(Idx(Len(L)), LAMBDA i : <<i, FirstOf(R, L[i])>>)
    [] how = "right" -> MapSeq(Idx(Len(R)), LAMBDA j : <<FirstOf(L, R[j]), j>>)
    [] how = "inner" -> MapSeq(SelIdx(Len(L), LAMBDA i : FirstOf(R, L[i]) # 0), LAMBDA i : <<FirstOf(L, L[i]), FirstOf(R, L[i])>>)
    [] how = "outer" -> MapSeq(DistinctSeq(L \o R), LAMBDA k : <<FirstOf(L, k), FirstOf(R, k)>>)

DupValid(K) == \E i, j \in 1..Len(K) : i < j /\ K[i] = K[j] /\ Valid(K[i])
DupAny(K) == \E i, j \in 1..Len(K) : i < j /\ (K[i] = K[j] \/ (~Valid(K[i]) /\ ~Valid(K[j])))
\* validate: 0 none, 1 = 1:1, 2 = 1:m, 3 = m:1, 4 = m:m
NeedL(v, kl) == v \in {1, 2} /\ kl = 0
NeedR(v, kr) == v \in {1, 3} /\ kr = 0
ValidateMust(v, L, R, kl, kr) == (NeedL(v, kl) /\ DupValid(L)) \/ (NeedR(v, kr) /\ DupValid(R))
ValidateMay(v, L, R, kl, kr) == (NeedL(v, kl) /\ DupAny(L)) \/ (NeedR(v, kr) /\ DupAny(R))

----------------------------------------------------------------------------
(* result columns *)
Inter(ev) == ToSet(ev.lon) \cap ToSet(ev.ron)
LOnly(ev) == SelectSeq(ev.cl, LAMBDA n : n \notin Inter(ev))
ROnly(ev) == SelectSeq(ev.cr, LAMBDA n : n \notin Inter(ev))
Overlap(ev) == ToSet(LOnly(ev)) \cap ToSet(ROnly(ev))
NewName(ev, n, s) == IF n \in Overlap(ev) THEN n \o ev.suf[s] ELSE n
NewL(ev) == MapSeq(LOnly(ev), LAMBDA n : NewName(ev, n, 1))
NewR(ev) == MapSeq(ROnly(ev), LAMBDA n : NewName(ev, n, 2))
NamesClash(ev) ==
  \/ Overlap(ev) # {} /\ Len(ev.suf) = 0
  \/ Overlap(ev) # {} /\ ev.suf[1] = ev.suf[2]
  \/ Overlap(ev) # {} /\ HasDup(SetToSeq(Inter(ev)) \o NewL(ev) \o NewR(ev))
  \/ Overlap(ev) = {} /\ HasDup(SetToSeq(Inter(ev)) \o LOnly(ev) \o ROnly(ev))
\* a suffixed name equal to a key column that was not selected: refusing is allowed
NamesMay(ev) == NamesClash(ev) \/ (Overlap(ev) # {} /\
   \E n \in Overlap(ev) : (n \o ev.suf[1]) \in ToSet(ev.lon) \/ (n \o ev.suf[2]) \in ToSet(ev.ron))
AllNames(ev) == IF Overlap(ev) = {} THEN LOnly(ev) \o ROnly(ev) ELSE NewL(ev) \o NewR(ev)
IndClash(ev) == ev.ind # "" /\ (ev.ind \in Inter(ev) \/ ev.ind \in ToSet(AllNames(ev)))

ColOf(cols, n) == CHOOSE c \in ToSet(cols) : c.n = n
Cell(col, r) == IF r = 0 THEN NA ELSE col.v[r]
SameCell(col, obs, r) == obs = Cell(col, r) \/ (r = 0 /\ col.nona = 1)

Rows(ev) == IF ev.fn = "merge" THEN OldRows(ev.how, ev.L, ev.R) ELSE JoinRows(ev.how, ev.L, ev.R, ev.kl, ev.kr)
Unmatched(ev) == \E p \in ToSet(Rows(ev)) : p[2] = 0

MustRaise(ev) ==
  \/ ValidateMust(ev.validate, ev.L, ev.R, ev.kl, ev.kr)
  \/ ev.fn # "indices" /\ (NamesClash(ev) \/ IndClash(ev))
  \/ ev.reqmatch = 1 /\ Unmatched(ev)
MayRaise(ev) == MustRaise(ev) \/ ValidateMay(ev.validate, ev.L, ev.R, ev.kl, ev.kr) \/ (ev.fn # "indices" /\ NamesMay(ev))

\* the observed order of rows: fixed, except that with keep on the driving side only the rows (not their order) are promised
DriverKept(ev) == IF ev.how = "right" \/ (ev.how = "outer" /\ Len(ev.L) = 0) THEN ev.kr # 0 ELSE ev.kl # 0
Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) : Count(a, x) = Count(b, x)

JudgeCols(ev, rows) ==
  LET o == ev.obs
      n == Len(rows)
      nl == IF Overlap(ev) = {} THEN LOnly(ev) ELSE NewL(ev)
      nr == IF Overlap(ev) = {} THEN ROnly(ev) ELSE NewR(ev)
      lo == LOnly(ev)
      ro == ROnly(ev)
      want == Inter(ev) \cup ToSet(nl) \cup ToSet(nr) \cup (IF ev.ind = "" THEN {} ELSE {ev.ind})
      names == MapSeq(o.cols, LAMBDA c : c.n)
      \* key columns that keep one name take the value of whichever side has the row
      interok == \A k \in Inter(ev) : LET c == ColOf(o.cols, k) lc == ColOf(ev.lcols, k) rc == ColOf(ev.rcols, k)
                   IN Len(c.l) = n /\ \A r \in 1..n : IF rows[r][1] # 0 /\ (ev.how # "right") THEN c.l[r] = lc.v[rows[r][1]]
                                                      ELSE c.l[r] = rc.v[rows[r][2]]
      leftok == \A q \in 1..Len(lo) : LET c == ColOf(o.cols, nl[q]) s == ColOf(ev.lcols, lo[q])
                   IN Len(c.l) = n /\ \A r \in 1..n : SameCell(s, c.l[r], rows[r][1])
      rightok == \A q \in 1..Len(ro) : LET c == ColOf(o.cols, nr[q]) s == ColOf(ev.rcols, ro[q])
                   IN Len(c.r) = n /\ \A r \in 1..n : SameCell(s, c.r[r], rows[r][2])
      indok == ev.ind = "" \/ LET c == ColOf(o.cols, ev.ind)
                   IN Len(c.l) = n /\ \A r \in 1..n : c.l[r] = (IF rows[r][1] # 0 THEN 1 ELSE 0) + (IF rows[r][2] # 0 THEN 2 ELSE 0)
  IN FirstFail(<<
       <<ToSet(names) = want /\ ~HasDup(names), "columns">>,
       <<ToSet(names) # want \/ (SelectSeq(names, LAMBDA x : x \in ToSet(nl)) = nl /\ SelectSeq(names, LAMBDA x : x \in ToSet(nr)) = nr), "column-order">>,
       <<ToSet(names) # want \/ interok, "key-values">>,
       <<ToSet(names) # want \/ leftok, "left-values">>,
       <<ToSet(names) # want \/ rightok, "right-values">>,
       <<ToSet(names) # want \/ indok, "indicator">> >>)

JoinJudge(st, ev) ==
  LET rows == Rows(ev)
      o == ev.obs
      \* row pairs as observed through the row-number columns / the returned indices
      seen == o.pairs
      verdict ==
        IF o.raised = 1 THEN (IF MayRaise(ev) THEN (IF o.frame = 1 THEN "ok" ELSE "inputs-modified") ELSE "raised")
        ELSE IF MustRaise(ev) THEN "not-refused"
        ELSE IF o.frame = 0 THEN "inputs-modified"
        ELSE IF ~(IF DriverKept(ev) THEN SameBag(seen, rows) ELSE seen = rows) THEN "rows"
        ELSE IF ev.fn = "indices" THEN "ok"
        ELSE JudgeCols(ev, seen)
  IN V(st, verdict)
JStart == 0
=============================================================================
