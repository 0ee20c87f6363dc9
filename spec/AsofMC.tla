------------------------------ MODULE AsofMC ------------------------------
(* Quotes and trades as two streams ordered by time.  A reader that walks
   both streams once, remembering the last quote per key, must produce the
   declarative backward as-of join; walking the mirrored streams must
   produce the forward one.  Rows are added in any order that keeps each
   stream sorted (or in any order at all when Unsorted). *)
EXTENDS Asof
CONSTANTS Times, MaxL, MaxR, Unsorted
VARIABLES L, R, exact, phase, i, j, last, out
vars == <<L, R, exact, phase, i, j, last, out>>
Bys == {<<1>>, <<2>>}
Empty == [on |-> <<>>, by |-> <<>>]
Init == L = Empty /\ R = Empty /\ exact \in BOOLEAN /\ phase = "fill" /\ i = 1 /\ j = 1 /\ last = [b \in Bys |-> 0] /\ out = <<>>
Room(T, t) == IF Unsorted \/ Len(T.on) = 0 THEN TRUE ELSE T.on[Len(T.on)] <= t
Add(T, t, b) == [on |-> Append(T.on, t), by |-> Append(T.by, b)]
Trade == /\ phase = "fill" /\ Len(L.on) < MaxL /\ R = Empty
         /\ \E t \in Times, b \in Bys : Room(L, t) /\ L' = Add(L, t, b)
         /\ UNCHANGED <<R, exact, phase, i, j, last, out>>
Quote == /\ phase = "fill" /\ Len(R.on) < MaxR
         /\ \E t \in Times, b \in Bys : Room(R, t) /\ R' = Add(R, t, b)
         /\ UNCHANGED <<L, exact, phase, i, j, last, out>>
Begin == phase = "fill" /\ phase' = "walk" /\ UNCHANGED <<L, R, exact, i, j, last, out>>
\* the stream whose next row is due: a quote goes before a trade of the same time iff exact matches count
QuoteDue == j <= Len(R.on) /\ (i > Len(L.on) \/ Behind(L.on[i], R.on[j], exact))
Walk == /\ phase = "walk" /\ ~Unsorted
        /\ IF QuoteDue THEN last' = [last EXCEPT ![R.by[j]] = j] /\ j' = j + 1 /\ UNCHANGED <<i, out, phase>>
           ELSE IF i <= Len(L.on) THEN out' = Append(out, last[L.by[i]]) /\ i' = i + 1 /\ UNCHANGED <<j, last, phase>>
           ELSE phase' = "done" /\ UNCHANGED <<i, j, last, out>>
        /\ UNCHANGED <<L, R, exact>>
Next == Trade \/ Quote \/ Begin \/ Walk
Spec == Init /\ [][Next]_vars

Mirror(T) == [on |-> MapSeq(Rev(T.on), LAMBDA x : -x), by |-> Rev(T.by)]
nL == Len(L.on)
nR == Len(R.on)
Full == phase = "walk" /\ i = 1 /\ j = 1
Dirs == {"backward", "forward", "nearest"}
Dist(p) == AbsV(L.on[p[1]] - R.on[p[2]])

WalkIsBackward == phase = "done" => out = MapSeq(AsofRows("backward", L, R, exact, -1), LAMBDA p : p[2])
ForwardIsMirror == Full =>
  \A k \in 1..nL : LET m == Back(Mirror(L), Mirror(R), nL + 1 - k, exact, -1)
                   IN Fwd(L, R, k, exact, -1) = (IF m = 0 THEN 0 ELSE nR + 1 - m)
NearestIsClosest == Full =>
  \A p \in ToSet(AsofRows("nearest", L, R, exact, -1)) :
     LET c == {q \in 1..nR : R.by[q] = L.by[p[1]] /\ (exact \/ R.on[q] # L.on[p[1]])}
     IN IF p[2] = 0 THEN c = {} ELSE \A q \in c : Dist(p) <= Dist(<<p[1], q>>)
ToleranceOnlyRemoves == Full =>
  \A d \in Dirs, t \in 0..3 : \A k \in 1..nL :
     LET a == Best(d, L, R, k, exact, t)
         b == Best(d, L, R, k, exact, -1)
     IN a = (IF b # 0 /\ Dist(<<k, b>>) <= t THEN b ELSE 0)
ExactIsJoin == Full /\ exact =>
  \A k \in 1..nL, d \in Dirs :
     LET q == {m \in 1..nR : R.by[m] = L.by[k] /\ R.on[m] = L.on[k]}
     IN q # {} => Best(d, L, R, k, exact, -1) \in q
\* reordering left rows reorders the result and nothing else: each row is matched on its own
RowsIndependent == Full =>
  \A d \in Dirs : \A k \in 1..nL : Best(d, L, R, k, exact, -1) = Best(d, [on |-> <<L.on[k]>>, by |-> <<L.by[k]>>], R, 1, exact, -1)
=============================================================================
