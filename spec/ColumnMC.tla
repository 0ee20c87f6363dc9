----------------------------- MODULE ColumnMC -----------------------------
(* A column grows cell by cell; then a filler walks over it once, carrying
   the last valid cell and how many more cells it may fill.  The walk must
   produce the declarative fill; the other invariants are the algebra of
   the row-by-row operations. *)
EXTENDS Column
CONSTANTS Vals, MaxN
VARIABLES x, m, phase, pos, good, left, lim, out
vars == <<x, m, phase, pos, good, left, lim, out>>
MCVals == {1, 3, NA}
FV == 7
Init == x = <<>> /\ m = <<>> /\ phase = "grow" /\ pos = 1 /\ good = FV /\ left = 0 /\ lim \in 0..2 /\ out = <<>>
Grow == /\ phase = "grow" /\ Len(x) < MaxN
        /\ \E v \in Vals, b \in 0..1 : x' = Append(x, v) /\ m' = Append(m, b)
        /\ UNCHANGED <<phase, pos, good, left, lim, out>>
Begin == phase = "grow" /\ phase' = "walk" /\ left' = lim /\ UNCHANGED <<x, m, pos, good, lim, out>>
Walk == /\ phase = "walk"
        /\ IF pos > Len(x) THEN phase' = "done" /\ UNCHANGED <<pos, good, left, out>>
           ELSE /\ pos' = pos + 1 /\ phase' = phase
                /\ IF x[pos] # NA THEN good' = x[pos] /\ left' = lim /\ out' = Append(out, x[pos])
                   ELSE IF lim = 0 \/ left > 0 THEN out' = Append(out, good) /\ left' = left - 1 /\ UNCHANGED good
                   ELSE out' = Append(out, NA) /\ UNCHANGED <<good, left>>
        /\ UNCHANGED <<x, m, lim>>
Next == Grow \/ Begin \/ Walk
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Start == phase = "walk" /\ pos = 1
WalkFills == Done => out = FillFwd(x, FV, lim)
FillIsTotal == Start => (\A i \in 1..Len(x) : FillFwd(x, FV, 0)[i] # NA /\ FillBwd(x, FV, 0)[i] # NA)
FillKeepsValid == Start => \A l \in 0..2 : \A i \in 1..Len(x) : x[i] # NA => (FillFwd(x, NA, l)[i] = x[i] /\ FillBwd(x, NA, l)[i] = x[i])
FillIdempotent == Start => FillFwd(FillFwd(x, NA, 0), NA, 0) = FillFwd(x, NA, 0)
LimitOnlyRemoves == Start => \A i \in 1..Len(x) : FillFwd(x, FV, lim)[i] \in {NA, FillFwd(x, FV, 0)[i]}
ShiftComposes == Start => \A a, b \in 0..2 : Shift(Shift(x, a, NA), b, NA) = Shift(x, a + b, NA)
ShiftMirror == Start => \A a \in -3..3 : Rev(Shift(x, a, NA)) = Shift(Rev(x), -a, NA)
ChangesOrStays == Start => \A n \in {-2, -1, 1, 2} : \A i \in 1..Len(x) :
    Changes(x, n, 1)[i] + Stays(x, n, 1)[i] = B(i - n \in 1..Len(x))
PredsComplement == Start => \A v \in ToSet(x) \cup {INF, NINF, 0} :
    /\ Pred("isnan", v) # Pred("isnotnan", v) /\ Pred("isfinite", v) # Pred("isnotfinite", v) /\ Pred("isinf", v) # Pred("isnotinf", v)
    /\ B(Pred("isnan", v)) + B(Pred("isinf", v)) + B(Pred("isfinite", v)) = 1
FancyDual == Start => LET b == Bools(x, LAMBDA v : Pred("isnan", v))
    IN ToSet(Truth(b)) \cup ToSet(Falsity(b)) = 1..Len(x) /\ Len(Truth(b)) + Len(Falsity(b)) = Len(x)
DeMorgan == Start => LET b == Bools(x, LAMBDA v : v = 1)
    IN /\ MaskFold("xor", <<b, m>>) = MaskFold("or", <<MaskFold("andnot", <<b, m>>), MaskFold("andnot", <<m, b>>)>>)
       /\ MaskFold("andnot", <<b, m>>) = MaskFold("xor", <<b, MaskFold("and", <<b, m>>)>>)
WhereIsPutMask == Start => /\ Where(m, x, x) = x
                           /\ PutMask(x, m, <<9>>) = (IF Len(x) = 0 THEN <<>> ELSE Where(m, [i \in 1..Len(x) |-> 9], x))
ClipBetween == Start => \A i \in 1..Len(x) :
    Between(x, <<1>>, <<2>>, 1, 1)[i] = B(x[i] # NA /\ Clip(x, <<1>>, <<2>>)[i] = x[i])
SearchCounts == (Start /\ NA \notin ToSet(x)) => \A v \in 0..4 :
    Search(x, v, "right") - Search(x, v, "left") = Cardinality({i \in 1..Len(x) : x[i] = v})
TileRepeat == Start => Len(Tile(x, 2)) = Len(Repeat(x, <<2>>)) /\ ToSet(Tile(x, 2)) = ToSet(Repeat(x, <<2>>))
=============================================================================
