------------------------------- MODULE CatMC -------------------------------
(* Every history of edits of two small Categoricals: the meaning of the     *)
(* codes never drifts from the labels.                                      *)
EXTENDS Cat
CONSTANTS L, N, DEPTH

VARIABLES st, last, d
vars == <<st, last, d>>

Ev0 == [op |-> "", t |-> 1, vals |-> <<>>, cats |-> <<>>, flt |-> <<>>, srt |-> 1, base |-> 1, form |-> "", idx |-> <<>>, jdx |-> <<>>, a |-> 0, c |-> 0, room |-> 100, obs |-> <<[cats |-> <<>>], [cats |-> <<>>]>>]
Lab == 1..L
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
News == {[Ev0 EXCEPT !.op = "new", !.form = "vals", !.vals = v, !.srt = s] : v \in [1..N -> Lab], s \in 0..1}
        \cup {[Ev0 EXCEPT !.op = "new", !.form = "vals", !.vals = v, !.flt = f] : v \in [1..N -> Lab], f \in {<<1>> \o [i \in 1..(N-1) |-> 0]}}
        \cup {[Ev0 EXCEPT !.op = "new", !.form = "codes", !.vals = v, !.cats = <<2, 1>>, !.base = b] : v \in [1..N -> 0..1], b \in 0..1}
Rows == {<<1>>, <<N>>, <<1, N>>}
Edits(o) ==
     {[Ev0 EXCEPT !.op = p, !.a = x] : p \in {"add", "rem"}, x \in Lab}
  \cup {[Ev0 EXCEPT !.op = p, !.a = x, !.c = y] : p \in {"rep", "setl"}, x \in Lab, y \in Lab}
  \cup {[Ev0 EXCEPT !.op = "set", !.a = x, !.idx = r] : x \in Lab, r \in Rows}
  \cup {[Ev0 EXCEPT !.op = "setc", !.a = x, !.idx = r] : x \in {0, 1, 9}, r \in Rows}
  \cup {[Ev0 EXCEPT !.op = "setk", !.jdx = r, !.idx = r] : r \in Rows}
  \cup {[Ev0 EXCEPT !.op = p] : p \in {"lock", "unlock", "auto", "noauto", "copy", "inval"}}
  \cup {[Ev0 EXCEPT !.op = "valid", !.flt = [i \in 1..N |-> IF i = 1 THEN 0 ELSE 1]]}
  \cup {[Ev0 EXCEPT !.op = p, !.cats = <<x>>, !.c = y] : p \in {"shrink", "shrinki"}, x \in Lab, y \in {0, L}}
  \cup {[Ev0 EXCEPT !.op = "shiftc", !.a = x] : x \in {-1, 1}}
  \cup {[Ev0 EXCEPT !.op = "align"]}
OkEdit(o, e) == ~(o.b = 0 /\ e.op \in {"rem", "valid", "shiftc", "inval"})   \* no filtered rows with base 0
                /\ ~(e.op \in {"setk"} /\ o.b = 0)

Init == /\ d = 0 /\ last = [e |-> Ev0, pre |-> CStart]
        /\ \E e1 \in News, e2 \in News : st = <<New(e1).o, New(e2).o>>
Next == /\ d < DEPTH
        /\ \E t \in 1..2 : \E e \in Edits(st[t]) :
             /\ OkEdit(st[t], e)
             /\ LET ev == [e EXCEPT !.t = t] r == Step(st, ev)
                IN st' = r.st /\ last' = [e |-> ev, pre |-> st]
        /\ d' = d + 1
Spec == Init /\ [][Next]_vars

Wf(o) == /\ Cardinality(ToSet(o.cats)) = Len(o.cats)
         /\ \A i \in 1..Len(o.cells) : (o.cells[i] = 0 /\ o.b = 1) \/ In(o.cats, o.cells[i])
WellFormed == Wf(st[1]) /\ Wf(st[2])
(* a label is what its code decodes to *)
RoundTrip == \A t \in 1..2 : \A i \in 1..Len(st[t].cells) : Decode(st[t], Code(st[t], st[t].cells[i])) = st[t].cells[i]
(* an edit changes no cell but those it names *)
OnlyNamed ==
  LET e == last.e t == e.t o == last.pre[t] x == st[t] y == st[Oth(t)] IN
  /\ e.op \in {"add", "lock", "unlock", "auto", "noauto", "align", "copy", "valid", "shrink", "shiftc", "inval"} => x.cells = o.cells
  /\ e.op = "align" => y.cells = last.pre[Oth(t)].cells
  /\ e.op \in {"add", "rem", "rep", "set", "setl", "setc", "setk", "shrinki", "lock", "unlock"} => y = last.pre[Oth(t)]
  /\ e.op = "rem" => \A i \in 1..Len(o.cells) : x.cells[i] = o.cells[i] \/ (o.cells[i] = e.a /\ x.cells[i] = 0)
  /\ e.op \in {"rep", "setl"} => \A i \in 1..Len(o.cells) : x.cells[i] = o.cells[i] \/ (o.cells[i] = e.a /\ x.cells[i] = e.c)
  /\ e.op \in {"set", "setc", "setk"} => \A i \in 1..Len(o.cells) : x.cells[i] = o.cells[i] \/ In(e.idx, i)
  /\ o.lk = 1 /\ e.op \in {"add", "rem", "rep", "set", "setl"} => x = o
  /\ e.op \in {"set", "setl"} /\ o.au = 0 => ToSet(x.cats) = ToSet(o.cats)
(* the answers agree with each other *)
Answers == \A t \in 1..2 : \A v \in Lab :
  LET o == st[t] n == Len(o.cells) IN
  \A i \in 1..n :
    /\ CmpScalar(o, "eq", v)[i] + CmpScalar(o, "ne", v)[i] = 1
    /\ (o.cells[i] # 0 /\ In(o.cats, v)) => /\ CmpScalar(o, "lt", v)[i] + CmpScalar(o, "ge", v)[i] = 1
                                             /\ CmpScalar(o, "le", v)[i] = Max2(CmpScalar(o, "lt", v)[i], CmpScalar(o, "eq", v)[i])
=============================================================================
