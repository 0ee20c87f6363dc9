------------------------------- MODULE Asof -------------------------------
(***************************************************************************)
(* As-of joins (merge_asof, Dataset.merge_asof, merge_asof2).  Every left  *)
(* row appears exactly once, in its place, with at most one right row: of  *)
(* the right rows with the same `by' key, the one whose `on' value is the  *)
(* closest in the requested direction.                                     *)
(***************************************************************************)
EXTENDS Join

\* T : [on |-> sequence of integers, by |-> sequence of key tuples]
Behind(x, y, exact) == y < x \/ (exact /\ y = x)
Ahead(x, y, exact) == y > x \/ (exact /\ y = x)
Near(x, y, tol) == tol < 0 \/ AbsV(x - y) <= tol

\* the latest right row not after left row i (the last of several with the same value); 0 = none
Back(L, R, i, exact, tol) ==
  LET c == {j \in 1..Len(R.on) : R.by[j] = L.by[i] /\ Behind(L.on[i], R.on[j], exact)}
      b == CHOOSE j \in c : \A m \in c : R.on[m] < R.on[j] \/ (R.on[m] = R.on[j] /\ m <= j)
  IN IF c = {} THEN 0 ELSE IF Near(L.on[i], R.on[b], tol) THEN b ELSE 0
\* the earliest right row not before left row i (the first of several with the same value)
Fwd(L, R, i, exact, tol) ==
  LET c == {j \in 1..Len(R.on) : R.by[j] = L.by[i] /\ Ahead(L.on[i], R.on[j], exact)}
      b == CHOOSE j \in c : \A m \in c : R.on[m] > R.on[j] \/ (R.on[m] = R.on[j] /\ m >= j)
  IN IF c = {} THEN 0 ELSE IF Near(L.on[i], R.on[b], tol) THEN b ELSE 0
\* the closer of the two; the earlier one when both are equally close
Nst(L, R, i, exact, tol) ==
  LET b == Back(L, R, i, exact, tol)
      f == Fwd(L, R, i, exact, tol)
  IN IF b = 0 THEN f ELSE IF f = 0 THEN b
     ELSE IF R.on[f] - L.on[i] < L.on[i] - R.on[b] THEN f ELSE b
Best(dir, L, R, i, exact, tol) ==
  CASE dir = "backward" -> Back(L, R, i, exact, tol)
    [] dir = "forward"  -> Fwd(L, R, i, exact, tol)
    [] dir = "nearest"  -> Nst(L, R, i, exact, tol)
AsofRows(dir, L, R, exact, tol) == MapSeq(Idx(Len(L.on)), LAMBDA i : <<i, Best(dir, L, R, i, exact, tol)>>)

SortedSeq(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
----------------------------------------------------------------------------
MatchClash(ev) == ev.ind # "" /\ (ev.ind \in Inter(ev) \/ ev.ind \in ToSet(AllNames(ev)))
AsofMust(ev) ==
  \/ NamesClash(ev) \/ MatchClash(ev)
  \/ ev.unsorted = "raise" /\ (~SortedSeq(ev.L.on) \/ ~SortedSeq(ev.R.on))
  \/ ev.badopt = 1
AsofMay(ev) == AsofMust(ev) \/ NamesMay(ev)

AsofJudge(st, ev) ==
  LET o == ev.obs
      rows == AsofRows(ev.dir, ev.L, ev.R, ev.exact = 1, ev.tol)
      n == Len(rows)
      rest == [ev EXCEPT !.ind = "", !.obs = [o EXCEPT !.cols = SelectSeq(o.cols, LAMBDA c : ev.ind = "" \/ c.n # ev.ind)]]
      extra == IF ev.ind = "" THEN <<>> ELSE SelectSeq(o.cols, LAMBDA c : c.n = ev.ind)
      matched == ev.ind = "" \/ (Len(extra) = 1 /\ Len(extra[1].m) = n
                    /\ \A r \in 1..n : extra[1].m[r] = (IF rows[r][2] = 0 THEN NA ELSE ev.R.on[rows[r][2]]))
      verdict ==
        IF o.raised = 1 THEN (IF AsofMay(ev) THEN (IF o.frame = 1 THEN "ok" ELSE "inputs-modified") ELSE "raised")
        ELSE IF AsofMust(ev) THEN "not-refused"
        ELSE IF o.frame = 0 THEN "inputs-modified"
        ELSE IF Len(o.pairs) # n THEN "row-count"
        ELSE IF \E r \in 1..n : o.pairs[r][1] # r THEN "left-rows"
        ELSE IF o.pairs # rows THEN "matches"
        ELSE IF ~matched THEN "matched-on"
        ELSE JudgeCols(rest, rows)
  IN V(st, verdict)
AStart == 0
=============================================================================
