----------------------------- MODULE ContainerMC -----------------------------
(* The Dataset/Struct state machine: exhaustive exploration of every history of
   container operations over small constants, and the source of the behaviours
   that are replayed into the real classes. *)
EXTENDS Container, Json
\* The state machine (model checked with the constants of Container_MC.cfg)
CONSTANTS Names, Vectors, Kinds, Depth
MCVectors == {<<1, 2>>, <<3, 4>>, <<5>>}
VARIABLES c, lastok, hist, start

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
NoRx == [t |-> "none", s |-> ""]
Ops ==
     {[op |-> "set", name |-> n, val |-> v, form |-> f] : n \in Names \cup {"keys"}, v \in Vectors, f \in {"list", "arr"}}
  \cup {[op |-> "set", name |-> n, val |-> <<9>>, form |-> "scalar"] : n \in Names}
  \cup {[op |-> "del", name |-> n] : n \in Names}
  \cup {[op |-> "rename", old |-> n, new |-> m] : n \in Names, m \in Names \cup {"z", "keys"}}
  \cup {[op |-> "map", pairs |-> p] : p \in {<< <<x, y>>, <<w, z>> >> : x \in Names, y \in Names \cup {"z"}, w \in Names, z \in Names}}
  \cup {[op |-> o, cols |-> cs] : o \in {"front", "back", "labels"}, cs \in SeqsUpTo(Names, 2)}
  \cup {[op |-> "swap", cols |-> <<x, y>>, cols2 |-> <<y, x>>] : x \in Names, y \in Names}
  \cup {[op |-> "remove", items |-> cs, like |-> k, regex |-> NoRx, miss |-> m] : cs \in SeqsUpTo(Names, 1), k \in {"", "b"}, m \in {"raise", "ignore"}}
  \cup {[op |-> "pop", items |-> cs] : cs \in {q \in SeqsUpTo(Names, 2) : q # <<>> /\ ~HasDup(q)}}
  \cup {[op |-> "strrep", old |-> "a", new |-> x, max |-> -1] : x \in {"b", "q", "ab"}}
  \cup {[op |-> o, s |-> "p"] : o \in {"prefix", "suffix"}}
  \cup {[op |-> o] : o \in {"lock", "unlock", "copy", "nolabels"}}

Starts == {EmptyC(k) : k \in Kinds}
  \cup {[kind |-> k, names |-> <<"a", "b", "ab">>, vals |-> << <<1, 2>>, <<3, 4>>, <<5, 6>> >>, labels |-> <<>>, locked |-> FALSE] : k \in Kinds}
  \cup {[kind |-> k, names |-> <<"b", "a">>, vals |-> << <<7>>, <<8>> >>, labels |-> <<>>, locked |-> FALSE] : k \in Kinds}
Init == c \in Starts /\ lastok = TRUE /\ hist = <<>> /\ start = c

Do(op) == LET r == Apply(c, op) IN
          /\ c' = r.st
          /\ lastok' = r.ok
          /\ hist' = Append(hist, op)
          /\ start' = start

\* map with duplicate old names is not expressible as a dict
Sensible(op) == op.op = "map" => op.pairs[1][1] # op.pairs[2][1]
Next == Len(hist) < Depth /\ \E op \in Ops : Sensible(op) /\ Do(op)
Spec == Init /\ [][Next]_<<c, lastok, hist, start>>

\* ---- design-level properties ----
UniqueNames   == ~HasDup(c.names)
Paired        == Len(c.names) = Len(c.vals)
EqualLengths  == c.kind = "D" => \A i, j \in 1..Len(c.vals) : Len(c.vals[i]) = Len(c.vals[j])
LabelsExist   == \A i \in 1..Len(c.labels) : HasName(c, c.labels[i])
RefusedIsNoop == [][~lastok' => c' = c]_<<c, lastok, hist, start>>
LockedKeepsColumns == [][(c.locked /\ c'.locked) =>
     (Len(c'.names) = Len(c.names) /\ c'.vals = c.vals)]_<<c, lastok, hist, start>>
View == <<c, lastok>>

\* one behaviour per explored transition, for replay into the real code
Emit == PrintT("BEH " \o ToJson([t |-> "beh", kind |-> start.kind, names |-> start.names, vals |-> start.vals, ops |-> hist']))


==============================================================================
