-------------------------------- MODULE Str --------------------------------
(***************************************************************************)
(* String columns (FastArray.str and Categorical.str): every operation is  *)
(* a function of the row's own text.  A text is a sequence of code points; *)
(* Filt stands for a filtered row of a Categorical.  Regular expressions   *)
(* are sequences of atoms matched greedily with backtracking.              *)
(***************************************************************************)
EXTENDS RtBase

Filt == <<-1>>
Up(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Upper(s) == MapSeq(s, Up)
Lower(s) == MapSeq(s, Low)
RECURSIVE RmTrail(_, _)
RmTrail(s, c) == IF Len(s) > 0 /\ s[Len(s)] = c THEN RmTrail(SubSeq(s, 1, Len(s) - 1), c) ELSE s
AtPos(s, t, i) == i + Len(t) - 1 <= Len(s) /\ \A k \in 1..Len(t) : s[i + k - 1] = t[k]
Hits(s, t) == {i \in 1..(Len(s) + 1) : AtPos(s, t, i)}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
IndexOf(s, t) == IF Hits(s, t) = {} THEN -1 ELSE Least(Hits(s, t)) - 1
IndexAny(s, t) == LET H == {i \in 1..Len(s) : \E k \in 1..Len(t) : s[i] = t[k]} IN IF Len(t) = 0 THEN 0 ELSE IF H = {} THEN -1 ELSE Least(H) - 1
Holds(s, t) == Hits(s, t) # {}
Starts(s, t) == AtPos(s, t, 1)
Ends(s, t) == Len(s) >= Len(t) /\ AtPos(s, t, Len(s) - Len(t) + 1)
\* leftmost occurrences that do not overlap
RECURSIVE ReplAt(_, _, _, _)
ReplAt(s, old, new, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF AtPos(s, old, i) THEN new \o ReplAt(s, old, new, i + Len(old))
  ELSE <<s[i]>> \o ReplAt(s, old, new, i + 1)
Replace(s, old, new) == ReplAt(s, old, new, 1)
\* as a Python slice: 0-based, negative bounds count from the end
Substr(s, i, j) == LET n == Len(s)
                       a == Max2(0, IF i < 0 THEN i + n ELSE i)
                       b == Min2(n, IF j < 0 THEN j + n ELSE j)
                   IN SubSeq(s, a + 1, b)
CharPos(s, p) == IF p < 0 THEN Len(s) + p ELSE p
CharAt(s, p) == LET q == CharPos(s, p) IN IF q < Len(s) THEN <<s[q + 1]>> ELSE <<>>
CharStop(s, t, incl) == LET i == IndexOf(s, t) IN IF i = -1 THEN s ELSE SubSeq(s, 1, i + (IF incl = 1 THEN Len(t) ELSE 0))
----------------------------------------------------------------------------
(* regular expressions *)
Fits(a, ch) == CASE a.k = "c" -> ch = a.c[1] [] a.k = "any" -> TRUE [] a.k = "cls" -> PosIn(a.c, ch) # 0
RECURSIVE RunLen(_, _, _)
RunLen(a, s, i) == IF i <= Len(s) /\ Fits(a, s[i]) THEN 1 + RunLen(a, s, i + 1) ELSE 0
Lo(a) == IF a.q \in {"1", "+"} THEN 1 ELSE 0
Hi(a, run) == IF a.q \in {"1", "?"} THEN Min2(1, run) ELSE run
Fail == <<0>>
\* the positions at which the atoms k, k+1, ... begin, and where the match ends
RECURSIVE MatchAt(_, _, _, _, _)
RECURSIVE Try(_, _, _, _, _, _)
MatchAt(A, k, s, i, eol) ==
  IF k > Len(A) THEN (IF eol = 1 /\ i # Len(s) + 1 THEN Fail ELSE <<i>>)
  ELSE Try(A, k, s, i, Hi(A[k], RunLen(A[k], s, i)), eol)
Try(A, k, s, i, n, eol) ==
  IF n < Lo(A[k]) THEN Fail
  ELSE LET r == MatchAt(A, k + 1, s, i + n, eol) IN IF r # Fail THEN <<i>> \o r ELSE Try(A, k, s, i, n - 1, eol)
RECURSIVE SearchFrom(_, _, _)
SearchFrom(re, s, i) ==
  IF i > Len(s) + 1 \/ (re.bol = 1 /\ i > 1) THEN Fail
  ELSE LET r == MatchAt(re.a, 1, s, i, re.eol) IN IF r # Fail THEN r ELSE SearchFrom(re, s, i + 1)
ReMatch(re, s) == SearchFrom(re, s, 1) # Fail
RECURSIVE SubFrom(_, _, _, _)
SubFrom(re, s, new, i) ==
  LET r == SearchFrom(re, s, i)
  IN IF r = Fail THEN SubSeq(s, i, Len(s))
     ELSE SubSeq(s, i, r[1] - 1) \o new \o SubFrom(re, s, new, r[Len(r)])
ReSub(re, s, new) == SubFrom(re, s, new, 1)
\* a group <<from atom, to atom, optional>>: its text in the leftmost match, or the fill text
Group1(re, s, g, fill) ==
  LET r == SearchFrom(re, s, 1)
  IN IF r = Fail THEN fill
     ELSE IF g[3] = 1 /\ r[g[1]] = r[g[2] + 1] THEN fill
     ELSE SubSeq(s, r[g[1]], r[g[2] + 1] - 1)
----------------------------------------------------------------------------
Bool(b) == IF b THEN 1 ELSE 0
Arg(p, i) == IF Len(p) = 1 THEN p[1] ELSE p[i]
\* one row
Row(ev, s, i) ==
  CASE ev.t = "upper" -> Upper(s) [] ev.t = "lower" -> Lower(s) [] ev.t = "reverse" -> Rev(s)
    [] ev.t = "rmtrail" -> RmTrail(s, ev.p[1])
    [] ev.t = "strlen" -> Len(s)
    [] ev.t = "index" -> IndexOf(s, ev.s2)
    [] ev.t = "anyof" -> IndexAny(s, ev.s2)
    [] ev.t = "contains" -> Bool(Holds(s, ev.s2))
    [] ev.t = "starts" -> Bool(Starts(s, ev.s2))
    [] ev.t = "ends" -> Bool(Ends(s, ev.s2))
    [] ev.t = "replace" -> Replace(s, ev.s2, ev.s3)
    [] ev.t = "substr" -> Substr(s, Arg(ev.p, i), IF Len(ev.p2) = 0 THEN Len(s) ELSE Arg(ev.p2, i))
    [] ev.t = "char" -> CharAt(s, Arg(ev.p, i))
    [] ev.t = "charstop" -> CharStop(s, ev.s2, ev.p[1])
    [] ev.t = "rematch" -> Bool(ReMatch(ev.re, s))
    [] ev.t = "resub" -> ReSub(ev.re, s, ev.s3)
    [] ev.t = "extract" -> MapSeq(ev.re.g, LAMBDA g : Group1(ev.re, s, g, ev.s3))
Truth == {"contains", "starts", "ends", "rematch"}
Numeric == {"strlen", "index", "anyof"} \cup Truth
\* a filtered row stays filtered; as a number it is missing, as a truth value false
Want(ev, i) ==
  IF ev.x[i] # Filt THEN Row(ev, ev.x[i], i)
  ELSE IF ev.t \in Truth THEN 0 ELSE IF ev.t \in Numeric THEN NA
  ELSE IF ev.t = "extract" THEN MapSeq(ev.re.g, LAMBDA g : Filt) ELSE Filt
Refused(ev) ==
  \/ (ev.t = "char" /\ \E i \in 1..Len(ev.x) : ev.x[i] # Filt /\ LET q == CharPos(ev.x[i], Arg(ev.p, i)) IN q < 0 \/ q >= ev.w)
  \/ (ev.t = "char" /\ ev.sc = 0 /\ Len(ev.p) # Len(ev.x))
  \/ (ev.t = "replace" /\ Len(ev.s2) = 0)
  \/ ev.two = 1

StrJudge(st, ev) ==
  LET o == ev.obs IN
  V(st, IF Refused(ev) THEN (IF o.raised = 1 THEN "ok" ELSE "not-refused")
        ELSE FirstFail(<<
          <<o.raised = 0, ev.t \o "-raised">>,
          <<o.frame = 1, "input-modified">>,
          <<o.names = 1, "names">>,
          <<o.raised = 1 \/ Len(o.out) = Len(ev.x), ev.t \o "-length">>,
          <<o.raised = 1 \/ Len(o.out) # Len(ev.x) \/ \A i \in 1..Len(ev.x) : o.out[i] = Want(ev, i), ev.t>>,
          <<o.rep = 1, ev.t \o "-repeated-rows-differ">> >>))
StrStart == 0
=============================================================================
