------------------------------ MODULE StoreMC ------------------------------
(* All histories of saves, item saves, appends and concatenations over a small universe; the loads are
   state functions whose laws are the invariants.  `last` is a history variable: what was last written under each name. *)
EXTENDS Store
CONSTANTS MaxOps
VARIABLES fs, last, ops
vars == <<fs, last, ops>>

D(n, v) == Node(<<n>>, "i4", "", v, <<>>)
Ds(cols) == << Node(<<>>, "Dataset", "", <<>>, <<>>) >> \o cols
Objs == { Ds(<<D("a", <<1, 2>>)>>), Ds(<<D("a", <<3>>), D("b", <<4>>)>>), Ds(<<D("b", <<>>)>>) }
St(i) == << StructNode >> \o Under("x", Ds(<<D("a", <<i>>)>>)) \o << D("k", <<7>>) >>
Init == fs = << >> /\ last = << >> /\ ops = 0
DoSave == \E n \in {"f", "g"}, o \in Objs : fs' = Save(fs, n, o) /\ last' = Put(last, n, <<o>>)
DoSaveSt == fs' = Save(fs, "d", St(1)) /\ last' = Put(last, "d", <<St(1)>>)
DoSaveIn == /\ Exists(fs, "d")
            /\ \E i \in {"x", "y"}, o \in Objs : fs' = SaveIn(fs, "d", i, o) /\ last' = Put(last, "d", <<i, o>>)
DoAppend == \E s \in {"s1", "s2"}, o \in Objs :
              /\ ~(\E q \in ToSet(Parts(fs, "s")) : q.s = s)
              /\ fs' = AppendSec(fs, "s", s, o) /\ last' = Put(last, "s", <<s, o>>)
DoConcat == \E ns \in {<<"f", "g">>, <<"g", "f", "f">>} : AllParts(fs, ns) # <<>>
              /\ fs' = Put(fs, "c", MapSeq(AllParts(fs, ns), LAMBDA t : Part("?", t))) /\ last' = Put(last, "c", ns)
Next == ops < MaxOps /\ ops' = ops + 1 /\ (DoSave \/ DoSaveSt \/ DoSaveIn \/ DoAppend \/ DoConcat)
Spec == Init /\ [][Next]_vars

RoundTrip == \A n \in {"f", "g"} : Exists(fs, n) => LoadAll(fs[n], <<"*">>, <<-1>>) = last[n][1]
ItemRoundTrip == Exists(fs, "d") /\ Len(last["d"]) = 2 => SubTree(fs["d"][1].t, <<last["d"][1]>>) = last["d"][2]
KeepsOthers == Exists(fs, "d") => SubTree(fs["d"][1].t, <<"k">>) = << Node(<<>>, "i4", "", <<7>>, <<>>) >>
NoDupItems == Exists(fs, "d") => ~HasDup(MapSeq(fs["d"][1].t, LAMBDA d : d.p))
SecRoundTrip == Exists(fs, "s") => (IF Len(fs["s"]) = 1 THEN LoadAll(fs["s"], <<"*">>, <<-1>>) ELSE SubTree(LoadAll(fs["s"], <<"*">>, <<-1>>), <<last["s"][1]>>)) = last["s"][2]
StackLen == \A ns \in {<<"f", "g">>, <<"g", "f">>, <<"f", "f">>} :
   LET ts == AllParts(fs, ns) IN \A n \in ToSet(StackNames(ts, <<"*">>)) : Len(StackCol(ts, n)) = SumSeq(MapSeq(ts, NRows))
StackHomomorphic == LET a == AllParts(fs, <<"f">>) b == AllParts(fs, <<"g">>) IN
   \A n \in ToSet(StackNames(a, <<"*">>)) \cap ToSet(StackNames(b, <<"*">>)) : StackCol(a \o b, n) = StackCol(a, n) \o StackCol(b, n)
MaskIncludeCommute == \A n \in {"f", "g"} : Exists(fs, n) =>
   \A inc \in {<<"*">>, <<"a">>, <<>>} : \A m \in {<<-1>>, <<1, 0>>, <<0, 1>>, <<0>>} :
      Include(Mask(fs[n][1].t, m), inc) = Mask(Include(fs[n][1].t, inc), m)
FrameSave == [][\A n \in {"f", "g", "d", "s", "c"} : (Exists(fs, n) /\ (~Exists(last', n) \/ last'[n] = last[n])) => Exists(fs', n)]_vars
OthersUntouched == [][Cardinality({n \in DOMAIN fs : fs'[n] # fs[n]}) <= 1 /\ DOMAIN fs \subseteq DOMAIN fs']_vars
ConcatIsStack == Exists(fs, "c") => AllParts(fs, <<"c">>) # <<>>
=============================================================================
