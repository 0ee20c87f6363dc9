------------------------------- MODULE SpanMC -------------------------------
(***************************************************************************)
(* Two points and two spans, moved about by the operations; the algebra    *)
(* of points and spans must hold in every state reached.                   *)
(***************************************************************************)
EXTENDS Span
CONSTANTS Lo, Hi, MaxLevel
VARIABLES p, q, s, u
vars == <<p, q, s, u>>
Pts == {Miss, <<10, 0, 0>>, <<11, 86399, 999999999>>}
Sps == {Miss, <<0, 0, 0>>, <<0, 0, 1>>, <<-1, 86399, 999999999>>, <<1, 1, 0>>}
Bnd(x) == x = Miss \/ (x[1] >= Lo /\ x[1] <= Hi)
BndS(x) == x = Miss \/ (x[1] >= -3 /\ x[1] <= 3)
Init == p \in Pts /\ q \in Pts /\ s \in Sps /\ u \in Sps
Next == \/ p' = PlusM(p, s) /\ UNCHANGED <<q, s, u>>
        \/ p' = MinusM(p, s) /\ UNCHANGED <<q, s, u>>
        \/ s' = MinusM(p, q) /\ UNCHANGED <<p, q, u>>
        \/ s' = PlusM(s, u) /\ UNCHANGED <<p, q, u>>
        \/ u' = Neg(s) /\ UNCHANGED <<p, q, s>>
        \/ u' = (IF s = Miss THEN Miss ELSE Mul(s, 3)) /\ UNCHANGED <<p, q, s>>
        \/ q' = p /\ UNCHANGED <<p, s, u>>
Spec == Init /\ [][Next]_vars
Inside == TLCGet("level") <= MaxLevel /\ Bnd(p) /\ Bnd(q) /\ BndS(s) /\ BndS(u)
Wf(x) == x = Miss \/ (x[2] \in 0..86399 /\ x[3] >= 0 /\ x[3] < 1000000000)
Shapes == Wf(p) /\ Wf(q) /\ Wf(s) /\ Wf(u)
Laws ==
  /\ (p # Miss /\ s # Miss) => (MinusM(PlusM(p, s), p) = s /\ MinusM(PlusM(p, s), s) = p)
  /\ (p # Miss /\ q # Miss) => (PlusM(q, MinusM(p, q)) = p /\ MinusM(p, q) = Neg(MinusM(q, p)))
  /\ MinusM(p, s) = PlusM(p, Neg(s))
  /\ PlusM(s, u) = PlusM(u, s) /\ PlusM(PlusM(p, s), u) = PlusM(p, PlusM(s, u))
  /\ (p = Miss \/ s = Miss) => (PlusM(p, s) = Miss /\ MinusM(p, s) = Miss)
Order == (p # Miss /\ q # Miss) =>
  /\ (TLess(p, q) <=> TLess(MinusM(p, q), <<0, 0, 0>>)) /\ (TLess(p, q) \/ TLess(q, p) \/ p = q)
  /\ (s # Miss => (TLess(p, q) <=> TLess(PlusM(p, s), PlusM(q, s))))
Scales == s # Miss => (Mul(s, 5) = SumT(<<s, s, s, s, s>>) /\ Mul(s, -2) = Neg(TAdd(s, s)) /\ AbsT(s) = AbsT(TNeg(s)))
\* shifting and differencing agree with each other, and the kinds form a consistent table
Arr == <<p, q, PlusM(p, s), q>>
Lags == \A k \in -4..4 : DiffOf(Arr, k) = ZipM(Arr, ShiftOf(Arr, k), MinusM)
Kinds == {"D", "S", "T", "N"}
Table == \A a \in Kinds, b \in Kinds :
  /\ AddKind(a, b) = AddKind(b, a)
  /\ (AddKind(a, b) # "X" /\ SubKind(AddKind(a, b), b) # "X") => (Point(SubKind(AddKind(a, b), b)) <=> Point(a))
  /\ (SubKind(a, b) # "X") => (AddKind(SubKind(a, b), b) # "X" /\ (Point(AddKind(SubKind(a, b), b)) <=> Point(a)))
Median == (p # Miss /\ q # Miss /\ s # Miss) => LET xs == <<p, q, PlusM(p, s)>> IN TLeq(MinT(xs), Kth(xs, 2)) /\ TLeq(Kth(xs, 2), MaxT(xs)) /\ Kth(xs, 1) = MinT(xs) /\ Kth(xs, 3) = MaxT(xs)
=============================================================================
