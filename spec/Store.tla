------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* SDS persistence as a state machine over a file system.                  *)
(*                                                                         *)
(* A stored object is a tree, written as the sequence of its nodes in      *)
(* preorder.  A node is [p, c, a, v, g]: path from the root, class,        *)
(* attributes (dtype, time zone, category flags, ...), cell values and     *)
(* category labels.  The file system maps a name to a sequence of parts    *)
(* [s, t] (section name, tree); most files have a single unnamed part.     *)
(***************************************************************************)
EXTENDS RtBase

Node(p, c, a, v, g) == [p |-> p, c |-> c, a |-> a, v |-> v, g |-> g]
Part(s, t) == [s |-> s, t |-> t]
Exists(fs, n) == n \in DOMAIN fs
Parts(fs, n) == IF Exists(fs, n) THEN fs[n] ELSE <<>>
Put(fs, n, parts) == [x \in (DOMAIN fs) \cup {n} |-> IF x = n THEN parts ELSE fs[x]]

IsDs(t) == Len(t) > 0 /\ t[1].c = "Dataset"
Cols(t) == SelectSeq(t, LAMBDA d : Len(d.p) = 1)
ColNames(t) == MapSeq(Cols(t), LAMBDA d : d.p[1])
Col(t, n) == LET m == SelectSeq(t, LAMBDA d : d.p = <<n>>) IN m[1]
HasCol(t, n) == \E i \in 1..Len(t) : t[i].p = <<n>>
NRows(t) == IF Len(Cols(t)) = 0 THEN 0 ELSE Len(Cols(t)[1].v)

\* --- operations -----------------------------------------------------------
Save(fs, n, t) == Put(fs, n, << Part("", t) >>)

Under(item, t) == MapSeq(t, LAMBDA d : [d EXCEPT !.p = <<item>> \o d.p])
\* save an item into a directory holding a Struct: replaces the item in place or appends it
SaveIn(fs, n, item, t) ==
  LET old == fs[n][1].t
      first == IF \E i \in 1..Len(old) : old[i].p # <<>> /\ old[i].p[1] = item
               THEN CHOOSE i \in 1..Len(old) : old[i].p # <<>> /\ old[i].p[1] = item /\ \A j \in 1..(i - 1) : old[j].p = <<>> \/ old[j].p[1] # item
               ELSE Len(old) + 1
      rest == SelectSeq(Idx(Len(old)), LAMBDA i : old[i].p = <<>> \/ old[i].p[1] # item)
      before == SelectSeq(rest, LAMBDA i : i < first)
      after == SelectSeq(rest, LAMBDA i : i > first)
  IN Put(fs, n, << Part("", Take(old, before) \o Under(item, t) \o Take(old, after)) >>)

AppendSec(fs, n, s, t) == Put(fs, n, Append(Parts(fs, n), Part(s, t)))

\* --- loading --------------------------------------------------------------
\* the label column of a Dataset stays its label only if it is loaded
Include(t, inc) ==
  IF inc = <<"*">> THEN t
  ELSE MapSeq(SelectSeq(t, LAMBDA d : d.p = <<>> \/ d.p[1] \in ToSet(inc)),
              LAMBDA d : IF d.p = <<>> /\ d.c = "Dataset" /\ d.a \notin ToSet(inc) THEN [d EXCEPT !.a = ""] ELSE d)
MaskRows(v, m) == IF m = <<-1>> THEN v ELSE Take(v, SelIdx(Min2(Len(v), Len(m)), LAMBDA i : m[i] = 1))
Mask(t, m) == IF m = <<-1>> THEN t ELSE MapSeq(t, LAMBDA d : IF d.p = <<>> THEN d ELSE [d EXCEPT !.v = MaskRows(d.v, m)])
LoadPart(t, inc, m) == Mask(Include(t, inc), m)
SubTree(t, path) ==
  LET k == Len(path)
      in(d) == Len(d.p) >= k /\ SubSeq(d.p, 1, k) = path
  IN MapSeq(SelectSeq(t, in), LAMBDA d : [d EXCEPT !.p = SubSeq(d.p, k + 1, Len(d.p))])
StructNode == Node(<<>>, "Struct", "", <<>>, <<>>)
\* a file with several sections loads as a Struct of its sections
LoadAll(parts, inc, m) ==
  IF Len(parts) = 1 THEN LoadPart(parts[1].t, inc, m)
  ELSE FoldLeft(LAMBDA acc, q : acc \o Under(q.s, LoadPart(q.t, inc, m)), << StructNode >>, parts)

\* --- stacking -------------------------------------------------------------
AllParts(fs, ns) == FoldLeft(LAMBDA acc, n : acc \o MapSeq(Parts(fs, n), LAMBDA q : q.t), <<>>, ns)
StackNames(ts, inc) ==
  SelectSeq(DistinctSeq(FoldLeft(LAMBDA acc, t : acc \o ColNames(t), <<>>, ts)), LAMBDA n : inc = <<"*">> \/ n \in ToSet(inc))
\* a file without the column contributes missing values (0 stands for "no promise": booleans)
FillFor(ts, n) == LET has == SelectSeq(ts, LAMBDA t : HasCol(t, n)) IN IF Col(has[1], n).c = "FastArray:b" THEN 0 ELSE NA
StackCol(ts, n) ==
  FoldLeft(LAMBDA acc, t : acc \o (IF HasCol(t, n) THEN Col(t, n).v ELSE Seqify(NRows(t), LAMBDA i : FillFor(ts, n))), <<>>, ts)

SameVals(exp, obs) == Len(exp) = Len(obs) /\ \A i \in 1..Len(exp) : exp[i] = obs[i] \/ exp[i] = 0

\* a file with none of the included columns is skipped
Stacked(ts, inc) == SelectSeq(ts, LAMBDA t : inc = <<"*">> \/ ToSet(ColNames(t)) \cap ToSet(inc) # {})

JudgeStack(ts, inc, m, obs) ==
  LET names == StackNames(ts, inc)
      cols == Cols(obs)
      onames == MapSeq(cols, LAMBDA d : d.p[1])
      same(n) == LET e == MaskRows(StackCol(ts, n), m)
                     o == Col(obs, n)
                     src == Col(SelectSeq(ts, LAMBDA t : HasCol(t, n))[1], n)
                 IN IF o.c # src.c THEN "stack-class" ELSE IF SameVals(e, o.v) THEN "ok" ELSE "stack-values"
      bad == SelectSeq(names, LAMBDA n : same(n) # "ok")
  IN IF ToSet(onames) # ToSet(names) \/ HasDup(onames) THEN "stack-columns"
     ELSE IF Len(bad) > 0 THEN same(bad[1]) ELSE "ok"

\* clause at which two trees differ.  A Struct nested in a folder that only holds containers has no file
\* of its own: the order of its items is not promised.
Containers == {"Dataset", "Struct", "Multiset"}
ChildOf(d, p) == Len(d.p) = Len(p) + 1 /\ SubSeq(d.p, 1, Len(p)) = p
Kids(t, p) == MapSeq(SelectSeq(t, LAMBDA d : ChildOf(d, p)), LAMBDA d : d.p[Len(d.p)])
Ordered(t, d) == d.p = <<>> \/ d.c = "Dataset" \/ \E i \in 1..Len(t) : ChildOf(t[i], d.p) /\ t[i].c \notin Containers
At(t, p) == LET m == SelectSeq(t, LAMBDA d : d.p = p) IN m[1]
Diff(e, o) ==
  LET ps(t) == MapSeq(t, LAMBDA d : d.p)
      same == ToSet(ps(e)) = ToSet(ps(o)) /\ Len(e) = Len(o)
      all(P(_, _)) == ~same \/ \A i \in 1..Len(e) : P(e[i], At(o, e[i].p))
  IN FirstFail(<<
    <<same, "items">>,
    <<~same \/ \A i \in 1..Len(e) : e[i].c \notin Containers \/ ~Ordered(e, e[i]) \/ Kids(e, e[i].p) = Kids(o, e[i].p), "item-order">>,
    <<all(LAMBDA x, y : x.c = y.c), "class">>,
    <<all(LAMBDA x, y : x.a = y.a), "attributes">>,
    <<all(LAMBDA x, y : x.v = y.v), "values">>,
    <<all(LAMBDA x, y : x.g = y.g), "categories">> >>)

\* --- conformance ----------------------------------------------------------
Wrote(ev, fs1, fs) == IF ev.obs.raised = 1 THEN V(fs, "raised") ELSE IF ev.obs.frame = 0 THEN V(fs1, "input-modified") ELSE V(fs1, "ok")
StoreJudge(fs0, ev) ==
  LET fs == IF ev.k = 0 THEN << >> ELSE fs0
      o == ev.obs
  IN CASE ev.t = "save" -> Wrote(ev, Save(fs, ev.n, ev.tree), fs)
       [] ev.t = "savein" -> IF ~Exists(fs, ev.n) THEN V(fs, "ok") ELSE Wrote(ev, SaveIn(fs, ev.n, ev.item, ev.tree), fs)
       [] ev.t = "append" -> Wrote(ev, AppendSec(fs, ev.n, ev.s, ev.tree), fs)
       [] ev.t = "concat" -> IF o.raised = 1 THEN V(fs, "raised")
                             ELSE V(Put(fs, ev.n, MapSeq(AllParts(fs, ev.ns), LAMBDA t : Part("?", t))), "ok")
       [] ev.t = "load" -> V(fs, IF ~Exists(fs, ev.n) THEN (IF o.raised = 1 THEN "ok" ELSE "loaded-nothing")
                                 ELSE IF o.raised = 1 THEN "raised"
                                 ELSE Diff(LoadAll(fs[ev.n], ev.inc, ev.m), o.tree))
       [] ev.t = "loadname" -> V(fs, IF o.raised = 1 THEN "raised" ELSE Diff(SubTree(fs[ev.n][1].t, ev.path), o.tree))
       [] ev.t = "list" -> V(fs, IF o.raised = 1 THEN "raised" ELSE IF Len(o.trees) # Len(ev.ns) THEN "list-length"
                                 ELSE LET d == MapSeq(Idx(Len(ev.ns)), LAMBDA i : Diff(LoadAll(fs[ev.ns[i]], ev.inc, ev.m), o.trees[i]))
                                          bad == SelectSeq(d, LAMBDA x : x # "ok")
                                      IN IF Len(bad) = 0 THEN "ok" ELSE bad[1])
       [] ev.t = "stack" -> LET ts == Stacked(AllParts(fs, ev.ns), ev.inc)
                            IN V(fs, IF o.raised = 1 THEN (IF Len(ts) = 0 THEN "ok" ELSE "raised") ELSE JudgeStack(ts, ev.inc, ev.m, o.tree))
       [] ev.t = "dir" -> V(fs, IF o.raised = 1 THEN "raised" ELSE IF o.names = ColNames(LoadAll(fs[ev.n], <<"*">>, <<-1>>)) THEN "ok" ELSE "dir-names")
SStart == << >>
=============================================================================
