----------------------------- MODULE ExchangeMC -----------------------------
(***************************************************************************)
(* A column that travels.  At home it is stored as codes of its kind (the  *)
(* lowest code of an integer kind means missing); abroad it is a sequence  *)
(* of windows on buffers with nulls.  Abroad it may be split into chunks,  *)
(* cut out of larger buffers, sliced.  Whatever the journey, the cells are *)
(* those of the ghost variable, in particular when a foreign value         *)
(* coincides with the code that stands for missing at home.                *)
(***************************************************************************)
EXTENDS Exchange
CONSTANTS Kinds, MaxN, MaxSteps, Foreign
VARIABLES where, kind, codes, chunks, ghost, steps, u
vars == <<where, kind, codes, chunks, ghost, steps, u>>

\* an i1 holds the values -8..7, an i2 -16..15 (scaled down); the lowest code of a kind means missing at home
Low(k) == CASE k = "i1" -> -8 [] k = "i2" -> -16 [] k = "i4" -> -32 [] k = "i8" -> -64 [] OTHER -> -99
Enc(k, x) == IF x = NA THEN Low(k) ELSE x
Dec(k, c) == IF c = Low(k) THEN NA ELSE c
Rank(t, x) == IF t \in INTS /\ x = Low(t) THEN SENT ELSE x
Opts(zc, aw) == [lib |-> "arrow", zc |-> zc, aw |-> aw, tz |-> "", u |-> IF u THEN 1 ELSE 0, wr |-> 0]
TypeOut(k) == OutType(k, "arrow", [pfb |-> 0, e2n |-> 1, nullable |-> 1])

Init == \E n \in 0..MaxN : \E k \in Kinds : \E uu \in BOOLEAN : \E s \in [1..n -> {1, 2, NA} \cup (IF Foreign /\ k \in INTS THEN {Low(k)} ELSE {})] :
          /\ u = uu /\ kind = k /\ ghost = s /\ steps = 0
          /\ (k = "?" => \A i \in 1..n : s[i] # NA)
          /\ where = (IF Foreign THEN "abroad" ELSE "home")
          /\ codes = IF Foreign THEN <<>> ELSE [i \in 1..n |-> Enc(k, s[i])]
          /\ chunks = IF Foreign THEN <<[buf |-> s, off |-> 0, len |-> n]>> ELSE <<>>

Step == steps < MaxSteps /\ steps' = steps + 1 /\ u' = u
\* home -> abroad: nulls are explicit
Out == /\ Step /\ where = "home" /\ where' = "abroad"
       /\ chunks' = <<[buf |-> [i \in 1..Len(codes) |-> Dec(kind, codes[i])], off |-> 0, len |-> Len(codes)]>>
       /\ codes' = <<>> /\ UNCHANGED <<kind, ghost>>
\* abroad -> home, allowed to widen or not, to copy or not
In == /\ Step /\ where = "abroad"
      /\ \E zc, aw \in {0, 1} :
           LET v == Logical(chunks)
               r == MapSeq(v, LAMBDA x : Rank(kind, x))
               t == TypeOut(kind)
               k2 == IF kind \in INTS /\ PosIn(r, SENT) # 0 THEN Wider(kind) ELSE KindIn(t, r, Opts(zc, aw))
           IN /\ ~MustRefuse(t, r, Len(chunks), Opts(zc, aw))
              /\ kind' = k2 /\ codes' = [i \in 1..Len(v) |-> Enc(k2, v[i])]
      /\ where' = "home" /\ chunks' = <<>> /\ UNCHANGED ghost
Split == /\ Step /\ where = "abroad" /\ Len(chunks) < 3
         /\ \E i \in 1..Len(chunks) : \E m \in 0..chunks[i].len :
              chunks' = SubSeq(chunks, 1, i - 1) \o <<[chunks[i] EXCEPT !.len = m], [chunks[i] EXCEPT !.off = @ + m, !.len = @ - m]>> \o SubSeq(chunks, i + 1, Len(chunks))
         /\ UNCHANGED <<where, kind, codes, ghost>>
Pad == /\ Step /\ where = "abroad"
       /\ \E i \in 1..Len(chunks) : Len(chunks[i].buf) <= MaxN /\ chunks' = [chunks EXCEPT ![i].buf = <<1>> \o @ \o <<NA>>, ![i].off = @ + 1]
       /\ UNCHANGED <<where, kind, codes, ghost>>
Slice == /\ Step /\ where = "abroad" /\ Len(chunks) = 1 /\ chunks[1].len > 0
         /\ chunks' = [chunks EXCEPT ![1].off = @ + 1, ![1].len = @ - 1]
         /\ ghost' = Tail(ghost) /\ UNCHANGED <<where, kind, codes>>
Next == Out \/ In \/ Split \/ Pad \/ Slice
Spec == Init /\ [][Next]_vars

SameCells == IF where = "home" THEN [i \in 1..Len(codes) |-> Dec(kind, codes[i])] = ghost ELSE Logical(chunks) = ghost
\* the kind a column settles on does not depend on how often it travels
RS == {"pickle", "deepcopy", "dict", "struct", "rowds", "arrow", "pandas", "rec", "rows", "tagged", "named"}
AllKinds == PLAIN \cup {"S", "U", "date", "dspan", "tsp", "dtn:NYC", "dtn:GMT", "cat:S", "cat:U", "cat:i8", "cate"}
Settles == \A k \in AllKinds, r \in RS, b \in BOOLEAN : LET k1 == KindVia(k, r, b) IN k1 = REFUSED \/ (k1 \in AllKinds /\ KindVia(k1, r, b) = k1)
ASSUME Settles
Fits == kind \in AllKinds
\* a lossless way home always exists unless the value of the missing marker of the widest type is used
WayHome == where = "abroad" /\ ~(kind = "i8" /\ \E i \in 1..Len(ghost) : ghost[i] = Low("i8"))
             => ~MustRefuse(TypeOut(kind), MapSeq(ghost, LAMBDA x : Rank(kind, x)), Len(chunks), Opts(0, 1))
HomeKinds == {"i1", "i2", "i8", "?", "S", "U", "date", "cat:U"}
IntKinds == {"i1", "i2", "i4", "i8", "f8"}
=============================================================================
