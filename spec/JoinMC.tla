------------------------------ MODULE JoinMC ------------------------------
(* A hash join as a state machine: rows of both tables arrive one by one,
   a build phase indexes the right table, a probe phase emits result rows,
   and a final sweep emits the right rows that were never probed.  The
   invariants state that the machine's output is the declarative join, and
   the relational laws between the four kinds of join. *)
EXTENDS Join
CONSTANTS Keys, MaxL, MaxR
VARIABLES L, R, kl, kr, phase, idx, pos, out, hit
vars == <<L, R, kl, kr, phase, idx, pos, out, hit>>
MCKeys == {<<1>>, <<2>>, <<NA>>}

Init == L = <<>> /\ R = <<>> /\ phase = "fill" /\ idx = << >> /\ pos = 0 /\ out = <<>> /\ hit = {} /\ kl \in 0..2 /\ kr \in 0..2
AddL == phase = "fill" /\ Len(L) < MaxL /\ R = <<>> /\ \E k \in Keys : L' = Append(L, k) /\ UNCHANGED <<R, kl, kr, phase, idx, pos, out, hit>>
AddR == phase = "fill" /\ Len(R) < MaxR /\ \E k \in Keys : R' = Append(R, k) /\ UNCHANGED <<L, kl, kr, phase, idx, pos, out, hit>>
StartBuild == phase = "fill" /\ phase' = "build" /\ pos' = 1 /\ UNCHANGED <<L, R, kl, kr, idx, out, hit>>

\* idx : association list key -> sequence of row numbers
Lookup(k) == LET m == SelectSeq(idx, LAMBDA e : e[1] = k) IN IF Len(m) = 0 THEN <<>> ELSE m[1][2]
Insert(k, j) ==
  LET old == Lookup(k)
      new == CASE kr = 0 -> Append(old, j) [] kr = 1 -> (IF old = <<>> THEN <<j>> ELSE old) [] OTHER -> <<j>>
  IN Append(SelectSeq(idx, LAMBDA e : e[1] # k), <<k, new>>)
Build == /\ phase = "build"
         /\ IF pos > Len(R) THEN phase' = "probe" /\ pos' = 1 /\ UNCHANGED idx
            ELSE phase' = phase /\ pos' = pos + 1 /\ idx' = Insert(R[pos], pos)
         /\ UNCHANGED <<L, R, kl, kr, out, hit>>
Emit(i) == LET p == IF Valid(L[i]) THEN Lookup(L[i]) ELSE <<>>
           IN IF p = <<>> THEN << <<i, 0>> >> ELSE MapSeq(p, LAMBDA j : <<i, j>>)
Probe == /\ phase = "probe"
         /\ IF pos > Len(L) THEN phase' = "sweep" /\ pos' = 1 /\ UNCHANGED <<out, hit>>
            ELSE /\ phase' = phase /\ pos' = pos + 1
                 /\ IF Keeps(L, kl, pos) THEN out' = out \o Emit(pos) ELSE UNCHANGED out
                 /\ hit' = hit \cup {L[pos]}
         /\ UNCHANGED <<L, R, kl, kr, idx>>
Sweep == /\ phase = "sweep"
         /\ IF pos > Len(R) THEN phase' = "done" /\ pos' = 0 /\ UNCHANGED out
            ELSE /\ phase' = phase /\ pos' = pos + 1
                 /\ IF Keeps(R, kr, pos) /\ (~Valid(R[pos]) \/ R[pos] \notin hit) THEN out' = Append(out, <<0, pos>>) ELSE UNCHANGED out
         /\ UNCHANGED <<L, R, kl, kr, idx, hit>>
Next == AddL \/ AddR \/ StartBuild \/ Build \/ Probe \/ Sweep
Spec == Init /\ [][Next]_vars

ProbeIsLeft == (phase = "sweep" /\ pos = 1) => out = JoinRows("left", L, R, kl, kr)
DoneIsOuter == phase = "done" => out = JoinRows("outer", L, R, kl, kr)
InnerOfLeft == phase = "done" => JoinRows("inner", L, R, kl, kr) = SelectSeq(JoinRows("left", L, R, kl, kr), LAMBDA p : p[2] # 0)
RightIsMirror == phase = "done" /\ (kl = 0 /\ kr = 0) => ToSet(JoinRows("right", L, R, 0, 0)) = {p \in ToSet(JoinRows("outer", L, R, 0, 0)) : p[2] # 0}
EveryPairOnce == phase = "done" /\ (kl = 0 /\ kr = 0) =>
   \A i \in 1..Len(L), j \in 1..Len(R) : Count(JoinRows("inner", L, R, 0, 0), <<i, j>>) = (IF Match(L, R, i, j) THEN 1 ELSE 0)
EveryRowAppears == phase = "done" /\ (kl = 0 /\ kr = 0) =>
   /\ \A i \in 1..Len(L) : \E p \in ToSet(JoinRows("left", L, R, 0, 0)) : p[1] = i
   /\ \A j \in 1..Len(R) : \E p \in ToSet(JoinRows("outer", L, R, 0, 0)) : p[2] = j
NoDuplicationByUniqueRight == phase = "done" /\ (kl = 0 /\ (kr # 0 \/ ~DupValid(R))) => Len(JoinRows("left", L, R, 0, kr)) = Len(L)
OldAgreesOnUnique == phase = "done" /\ (~DupAny(L) /\ ~DupAny(R) /\ (\A i \in 1..Len(L) : Valid(L[i])) /\ (\A i \in 1..Len(R) : Valid(R[i]))) =>
   \A how \in {"left", "right", "inner", "outer"} : OldRows(how, L, R) = JoinRows(how, L, R, 0, 0)
=============================================================================
