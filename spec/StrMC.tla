------------------------------- MODULE StrMC -------------------------------
(* A text is read character by character by a scanner that keeps the longest
   prefix of a pattern ending here (the way a streaming matcher works); what
   it found must be what the declarative operators find in the whole text. *)
EXTENDS Str
CONSTANTS Chars, MaxN, MaxP
VARIABLES pat, text, k, first, repl, pend
vars == <<pat, text, k, first, repl, pend>>
MCChars == {97, 98, 65}
\* longest proper border of t that is a prefix of pat
Border(t) == LET S == {n \in 0..(Len(t) - 1) : SubSeq(pat, 1, n) = SubSeq(t, Len(t) - n + 1, Len(t))} IN CHOOSE n \in S : \A m \in S : m <= n
RECURSIVE Step(_, _)
Step(n, c) == IF n < Len(pat) /\ pat[n + 1] = c THEN n + 1 ELSE IF n = 0 THEN 0 ELSE Step(Border(SubSeq(pat, 1, n)), c)
X == <<88, 89>>
Init == /\ pat \in UNION {[1..n -> Chars] : n \in 1..MaxP}
        /\ text = <<>> /\ k = 0 /\ first = -1 /\ repl = <<>> /\ pend = 0
\* repl: the output so far of replacing pat by X, of which the last pend characters may still become part of a match
Next == /\ Len(text) < MaxN
        /\ \E c \in Chars :
             LET n == Step(k, c) m == Step(pend, c) out == Append(repl, c) IN
             /\ text' = Append(text, c) /\ k' = n
             /\ first' = IF first = -1 /\ n = Len(pat) THEN Len(text) + 1 - Len(pat) ELSE first
             /\ repl' = IF m = Len(pat) THEN SubSeq(out, 1, Len(out) - Len(pat)) \o X ELSE out
             /\ pend' = IF m = Len(pat) THEN 0 ELSE m
        /\ UNCHANGED pat
Spec == Init /\ [][Next]_vars
FoundFirst == first = IndexOf(text, pat)
FoundIff == Holds(text, pat) <=> first # -1
Replaced == repl = Replace(text, pat, X)
EndsWhen == Ends(text, pat) <=> k = Len(pat)
Mirror == Rev(Rev(text)) = text /\ (Starts(text, pat) <=> Ends(Rev(text), Rev(pat)))
Cases == Upper(Lower(text)) = Upper(text) /\ Lower(Upper(text)) = Lower(text)
Slices == \A i \in 0..Len(text) : Substr(text, 0, i) \o Substr(text, i, Len(text)) = text /\ (i > 0 => Substr(text, 0 - i, Len(text)) = SubSeq(text, Len(text) - i + 1, Len(text)))
Lits(p) == [i \in 1..Len(p) |-> [k |-> "c", c |-> <<p[i]>>, q |-> "1"]]
ReLit(b, e) == [a |-> Lits(pat), bol |-> b, eol |-> e, g |-> <<<<1, Len(pat), 0>>>>]
RegexLiteral == /\ ReMatch(ReLit(0, 0), text) <=> Holds(text, pat)
                /\ ReMatch(ReLit(1, 0), text) <=> Starts(text, pat)
                /\ ReMatch(ReLit(0, 1), text) <=> Ends(text, pat)
                /\ ReSub(ReLit(0, 0), text, X) = Replace(text, pat, X)
Stop == CharStop(text, pat, 0) \o (IF Holds(text, pat) THEN SubSeq(text, first + 1, Len(text)) ELSE <<>>) = text
\* a+ takes the whole run
Plus == LET r == SearchFrom([a |-> <<[k |-> "c", c |-> <<97>>, q |-> "+"]>>, bol |-> 0, eol |-> 0], text, 1)
        IN IF r = Fail THEN PosIn(text, 97) = 0 ELSE r[1] = PosIn(text, 97) /\ (r[2] > Len(text) \/ text[r[2]] # 97)
=============================================================================
