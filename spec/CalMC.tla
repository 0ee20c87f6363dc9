------------------------------- MODULE CalMC -------------------------------
(***************************************************************************)
(* A clock that ticks.  The state is a wall calendar advanced one step at  *)
(* a time by the textbook rules (carry into the month, the year, the next  *)
(* weekday); the closed formulas of Cal must agree with it at every tick,  *)
(* and every zone's offset must change only by one hour, only at the       *)
(* starts and ends of summer time, which alternate.                        *)
(***************************************************************************)
EXTENDS Cal
CONSTANTS LastYear, SecStep
VARIABLES n, y, m, d, w, s, off
vars == <<n, y, m, d, w, s, off>>
Offs(dd, ss) == [z \in Zones |-> OffsetAt(z, <<dd, ss, 0>>)]
\* each year is started on its own as well as reached from the one before
Init == /\ y \in 1970..LastYear /\ m = 1 /\ d = (IF y = 1970 THEN 2 ELSE 1) /\ n = DayNum(y, m, d) /\ w = DowOf(n)
        /\ (y = 1970 => w = 4) /\ s = 0 /\ off = Offs(n, 0)
Tick ==
  /\ ~(y = LastYear /\ m = 12 /\ d = 31 /\ s + SecStep >= 86400)
  /\ IF s + SecStep < 86400
     THEN s' = s + SecStep /\ UNCHANGED <<n, y, m, d, w>>
     ELSE /\ s' = 0 /\ n' = n + 1 /\ w' = (w + 1) % 7
          /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<m, y>>
             ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
  /\ off' = Offs(n', s')
Spec == Init /\ [][Tick]_vars
CalendarAgrees == YearOf(n) = y /\ MonthOf(n) = m /\ DomOf(n) = d /\ DowOf(n) = w /\ DayNum(y, m, d) = n
RoundTrip == \A z \in Zones : LET t == <<n, s, 0>> l == LocalOf(z, t)
   IN \/ UtcOf(z, l) = {t}
      \/ UtcOf(z, l) = {PlusSec(t, -3600)} /\ ~DstOn(z, t) /\ DstOn(z, PlusSec(t, -3600))   \* the second pass of an ambiguous hour
      \/ n < 2
Transitions(z, dd) == {x \in StartsT[z][YearOf(dd)] \cup EndsT[z][YearOf(dd)] : x[1] = dd}
\* the offset moves only across a transition, by an hour
OffsetSteps == [][\A z \in Zones :
   /\ AbsV(off'[z] - off[z]) \in {0, 3600}
   /\ off'[z] # off[z] => \E x \in Transitions(z, n) \cup Transitions(z, n') : TLess(<<n, s, 0>>, x) /\ TLeq(x, <<n', s', 0>>)
   /\ (\E x \in Transitions(z, n) \cup Transitions(z, n') : TLess(<<n, s, 0>>, x) /\ TLeq(x, <<n', s', 0>>)) => off'[z] # off[z]]_vars
TextAgrees == Text("ymd", <<n, s, 0>>) = Pad(8, YMD(n))
=============================================================================
