------------------------------ MODULE Container ------------------------------
(***************************************************************************)
(* Dataset / Struct as an ordered mapping from names to values.            *)
(*                                                                         *)
(* Abstract state: names (ordered, unique), vals (vals[i] is the content   *)
(* of column names[i]), labels (ordered list of label columns), locked.    *)
(* A Dataset ("D") additionally has all columns of one length.             *)
(*                                                                         *)
(* One action per public operation.  The effect of every operation is the  *)
(* pure operator Apply(s, op); the action simply installs it.  Refused     *)
(* operations (ok = FALSE) leave the state unchanged.                      *)
(***************************************************************************)
EXTENDS RtBase

NoRet == [names |-> <<>>, vals |-> <<>>, has |-> 0]
Ret(n, v) == [names |-> n, vals |-> v, has |-> 1]

EmptyC(kind) == [kind |-> kind, names |-> <<>>, vals |-> <<>>, labels |-> <<>>, locked |-> FALSE]

HasName(s, n) == \E i \in 1..Len(s.names) : s.names[i] = n
NRows(s) == IF s.kind = "S" \/ Len(s.names) = 0 THEN 0 ELSE Len(s.vals[1])

Refuse(s) == [st |-> s, ok |-> FALSE, ret |-> NoRet]
Done(s)   == [st |-> s, ok |-> TRUE,  ret |-> NoRet]
Return(s, n, v) == [st |-> s, ok |-> TRUE, ret |-> Ret(n, v)]

ValOf(s, n) == s.vals[PosIn(s.names, n)]

\* labels follow their column; a deleted column is no longer a label
DropLabels(labels, gone) == SelectSeq(labels, LAMBDA x : x \notin gone)

PutCol(s, n, v) ==
  IF HasName(s, n)
  THEN [s EXCEPT !.vals[PosIn(s.names, n)] = v]
  ELSE [s EXCEPT !.names = Append(@, n), !.vals = Append(@, v)]

RemoveCols(s, gone) ==
  LET keep == SelIdx(Len(s.names), LAMBDA i : s.names[i] \notin gone)
  IN [s EXCEPT !.names = Take(s.names, keep), !.vals = Take(s.vals, keep), !.labels = DropLabels(@, gone)]

Reorder(s, order) == [s EXCEPT !.names = order, !.vals = MapSeq(order, LAMBDA n : ValOf(s, n))]

RenameBy(s, f(_)) == [s EXCEPT !.names = MapSeq(@, f), !.labels = MapSeq(@, f)]

\* ---- value coercion on assignment into a Dataset -------------------------
\* op.val is the sequence assigned, op.form says how it was written:
\* "list" / "arr" (a vector), "scalar" (val has one element, broadcast)
Fit(s, op) ==
  IF s.kind = "S" THEN [ok |-> TRUE, v |-> op.val]
  ELSE IF Len(s.names) = 0 THEN [ok |-> TRUE, v |-> op.val]
  ELSE LET n == NRows(s) IN
       IF op.form = "scalar" \/ (Len(op.val) = 1 /\ n # 1)
       THEN [ok |-> TRUE, v |-> [i \in 1..n |-> op.val[1]]]
       ELSE [ok |-> Len(op.val) = n, v |-> op.val]

\* ---- string helpers for names ---------------------------------------------
SubAt(x, i, y) == i + Len(y) - 1 <= Len(x) /\ SubSeq(x, i, i + Len(y) - 1) = y
ContainsStr(x, y) == \E i \in 1..(Len(x) - Len(y) + 1) : SubAt(x, i, y)
Matches(x, rx) == CASE rx.t = "in"  -> ContainsStr(x, rx.s)
                    [] rx.t = "pre" -> SubAt(x, 1, rx.s)
                    [] rx.t = "suf" -> Len(x) >= Len(rx.s) /\ SubAt(x, Len(x) - Len(rx.s) + 1, rx.s)
RECURSIVE ReplaceStr(_, _, _, _)
ReplaceStr(x, old, new, mx) ==
  LET P == {i \in 1..(Len(x) - Len(old) + 1) : SubAt(x, i, old)} IN
  IF mx = 0 \/ P = {} THEN x
  ELSE LET i == Min(P) IN
       SubSeq(x, 1, i - 1) \o new \o ReplaceStr(SubSeq(x, i + Len(old), Len(x)), old, new, mx - 1)

\* ---- column selection: op.items (names), op.like, op.regex ----------------
MatchList(s, op) ==
  DistinctSeq(SelectSeq(op.items, LAMBDA n : HasName(s, n))
              \o (IF op.like = "" THEN <<>> ELSE SelectSeq(s.names, LAMBDA n : ContainsStr(n, op.like)))
              \o (IF op.regex.t = "none" THEN <<>> ELSE SelectSeq(s.names, LAMBDA n : Matches(n, op.regex))))
NoSpec(op) == op.items = <<>> /\ op.like = "" /\ op.regex.t = "none"
Missing(s, op) == \E i \in 1..Len(op.items) : ~HasName(s, op.items[i])

NameOk(n, restricted) == n \notin restricted

Restricted == {"keys", "copy", "shape", "for"}

\* simultaneous renaming: old -> new pairs
MapName(pairs, n) == IF \E i \in 1..Len(pairs) : pairs[i][1] = n
                     THEN pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = n][2] ELSE n

Apply(s, op) ==
  CASE op.op = "set" ->
         IF s.locked \/ op.name \in Restricted THEN Refuse(s)   \* a method name assigned as attribute is ignored with a warning
         ELSE LET f == Fit(s, op) IN IF f.ok THEN Done(PutCol(s, op.name, f.v)) ELSE Refuse(s)
    [] op.op = "del" ->
         IF s.locked \/ ~HasName(s, op.name) THEN Refuse(s) ELSE Done(RemoveCols(s, {op.name}))
    [] op.op = "rename" ->
         IF op.old = op.new THEN Done(s)
         ELSE IF s.locked \/ ~HasName(s, op.old) \/ HasName(s, op.new) \/ op.new \in Restricted THEN Refuse(s)
         ELSE Done(RenameBy(s, LAMBDA n : IF n = op.old THEN op.new ELSE n))
    [] op.op = "map" ->
         LET olds == {op.pairs[i][1] : i \in 1..Len(op.pairs)}
             news == [i \in 1..Len(op.pairs) |-> op.pairs[i][2]]
             stay == {s.names[i] : i \in 1..Len(s.names)} \ olds
             live == SelIdx(Len(op.pairs), LAMBDA i : HasName(s, op.pairs[i][1]))
             overlap == \E i \in 1..Len(news) : HasName(s, news[i])
         IN IF s.locked \/ HasDup(news) \/ (~overlap /\ Len(live) # Len(op.pairs))
               \/ (\E i \in 1..Len(news) : news[i] \in Restricted)
               \/ (\E i \in 1..Len(live) : news[live[i]] \in stay)
            THEN Refuse(s)
            ELSE Done(RenameBy(s, LAMBDA n : MapName(op.pairs, n)))
    [] op.op = "prefix" -> Done(RenameBy(s, LAMBDA n : op.s \o n))
    [] op.op = "suffix" -> Done(RenameBy(s, LAMBDA n : n \o op.s))
    [] op.op = "strrep" ->
         LET nn == MapSeq(s.names, LAMBDA n : ReplaceStr(n, op.old, op.new, op.max))
         IN IF HasDup(nn) \/ (\E i \in 1..Len(nn) : nn[i] # s.names[i] /\ HasName(s, nn[i]))
            THEN Refuse(s)
            ELSE Done(RenameBy(s, LAMBDA n : ReplaceStr(n, op.old, op.new, op.max)))
    [] op.op = "front" ->
         IF s.locked \/ Len(op.cols) > Len(s.names) THEN Refuse(s)
         ELSE LET pres == DistinctSeq(SelectSeq(op.cols, LAMBDA n : HasName(s, n)))
              IN Done(Reorder(s, pres \o SelectSeq(s.names, LAMBDA n : n \notin ToSet(pres))))
    [] op.op = "back" ->
         IF s.locked \/ Len(op.cols) > Len(s.names) THEN Refuse(s)
         ELSE LET pres == Rev(DistinctSeq(Rev(SelectSeq(op.cols, LAMBDA n : HasName(s, n)))))
              IN Done(Reorder(s, SelectSeq(s.names, LAMBDA n : n \notin ToSet(pres)) \o pres))
    [] op.op = "move" ->
         IF s.locked \/ Len(op.cols) > Len(s.names) \/ Len(op.cols2) > Len(s.names) THEN Refuse(s)
         ELSE LET pres == DistinctSeq(SelectSeq(op.cols, LAMBDA n : HasName(s, n)))
                  s1   == Reorder(s, pres \o SelectSeq(s.names, LAMBDA n : n \notin ToSet(pres)))
                  pb   == Rev(DistinctSeq(Rev(SelectSeq(op.cols2, LAMBDA n : HasName(s1, n)))))
              IN Done(Reorder(s1, SelectSeq(s1.names, LAMBDA n : n \notin ToSet(pb)) \o pb))
    [] op.op = "swap" ->
         IF s.locked THEN Refuse(s)
         ELSE IF op.cols = op.cols2 THEN Done(s)
         ELSE IF HasDup(op.cols) \/ HasDup(op.cols2) \/ Len(op.cols) # Len(op.cols2)
                 \/ ToSet(op.cols) # ToSet(op.cols2) \/ (\E i \in 1..Len(op.cols) : ~HasName(s, op.cols[i]))
              THEN Refuse(s)
              ELSE Done([s EXCEPT !.vals = [i \in 1..Len(s.names) |->
                          IF s.names[i] \in ToSet(op.cols2)
                          THEN ValOf(s, op.cols[PosIn(op.cols2, s.names[i])]) ELSE s.vals[i]]])
    [] op.op = "remove" ->
         IF s.locked \/ NoSpec(op) \/ (op.miss = "raise" /\ Missing(s, op)) THEN Refuse(s)
         ELSE Done(RemoveCols(s, ToSet(MatchList(s, op))))
    [] op.op = "pop" ->
         IF s.locked \/ Len(op.items) = 0 \/ Missing(s, op) THEN Refuse(s)
         ELSE LET it == DistinctSeq(op.items)
              IN Return(RemoveCols(s, ToSet(it)), it, MapSeq(it, LAMBDA n : ValOf(s, n)))
    [] op.op = "filter" ->
         IF NoSpec(op) \/ (op.miss = "raise" /\ Missing(s, op)) \/ Len(MatchList(s, op)) = 0 THEN Refuse(s)
         ELSE LET m == MatchList(s, op) IN Return(s, m, MapSeq(m, LAMBDA n : ValOf(s, n)))
    [] op.op = "select" ->                         \* ds[[names]]
         IF Len(op.items) = 0 \/ Missing(s, op) \/ HasDup(op.items) THEN Refuse(s)
         ELSE Return(s, op.items, MapSeq(op.items, LAMBDA n : ValOf(s, n)))
    [] op.op = "selpos" ->                         \* ds[[positions]] / ds[slice] / ds[[bools]] resolved to 0-based positions
         IF \E i \in 1..Len(op.pos) : op.pos[i] >= Len(s.names) \/ op.pos[i] < -Len(s.names) THEN Refuse(s)
         ELSE LET p == MapSeq(op.pos, LAMBDA q : IF q < 0 THEN q + Len(s.names) + 1 ELSE q + 1)
                  q == DistinctSeq(p)
              IN Return(s, Take(s.names, q), Take(s.vals, q))
    [] op.op = "labels" ->
         Done([s EXCEPT !.labels = DistinctSeq(SelectSeq(op.cols, LAMBDA n : HasName(s, n)))])
    [] op.op = "nolabels" -> Done([s EXCEPT !.labels = <<>>])
    [] op.op = "lock"   -> Done([s EXCEPT !.locked = TRUE])
    [] op.op = "unlock" -> Done([s EXCEPT !.locked = FALSE])
    [] op.op = "copy"   -> Return(s, s.names, s.vals)
    [] op.op = "asdict" ->
         IF Missing(s, op) THEN Refuse(s)
         ELSE Return(s, op.items, MapSeq(op.items, LAMBDA n : ValOf(s, n)))

---------------------------------------------------------------------------
\* Conformance: ev.op = the operation, ev.obs = projected state after it
CStart == EmptyC("D")

SameMapping(n1, v1, n2, v2) ==
  /\ Len(n1) = Len(n2) /\ ToSet(n1) = ToSet(n2)
  /\ \A i \in 1..Len(n1) : v1[i] = v2[PosIn(n2, n1[i])]

ContainerJudge(s, ev) ==
  IF ev.t = "init" THEN V([kind |-> ev.kind, names |-> ev.names, vals |-> ev.vals, labels |-> <<>>, locked |-> FALSE], "ok")
  ELSE
  LET o == ev.obs
      \* a one-element vector assigned into a Dataset of zero-length columns may be broadcast or refused
      free == ev.op.op = "set" /\ s.kind = "D" /\ Len(s.names) > 0 /\ NRows(s) = 0 /\ o.ok = 0
      r == IF free THEN Refuse(s) ELSE Apply(s, ev.op)
      e == r.st
      v == FirstFail(<<
             <<~HasDup(o.names), "duplicate-names">>,
             <<Len(o.names) = Len(o.vals), "names-values-unpaired">>,
             <<s.kind = "D" => \A i, j \in 1..Len(o.vals) : Len(o.vals[i]) = Len(o.vals[j]), "columns-of-unequal-length">>,
             <<r.ok = (o.ok = 1) \/ (ev.op.op = "set" /\ ev.op.name \in Restricted), IF r.ok THEN "operation-wrongly-refused" ELSE "operation-wrongly-accepted">>,
             <<r.ok \/ (o.names = s.names /\ o.vals = s.vals /\ o.labels = s.labels), "refused-operation-changed-state">>,
             <<IF ev.op.op = "map" THEN SameMapping(o.names, o.vals, e.names, e.vals)
               ELSE o.names = e.names, "column-names-or-order">>,
             <<ev.op.op = "map" \/ o.vals = e.vals, "column-contents">>,
             <<ev.op.op \in {"map", "swap"} \/ o.labels = e.labels, "label-columns">>,
             <<(o.locked = 1) = e.locked, "lock-flag">>,
             <<o.ncols = Len(e.names) /\ o.len = (IF s.kind = "D" THEN NRows(e) ELSE Len(e.names))
                 /\ o.nrows = NRows(e), "reported-shape">>,
             <<o.api = 1, "accessors-disagree">>,
             <<~r.ok \/ r.ret.has = 0 \/ (o.ret.names = r.ret.names /\ o.ret.vals = r.ret.vals), "returned-container">>
           >>)
      \* resynchronise on the observed state so one divergence is one report
      n == [kind |-> s.kind, names |-> o.names, vals |-> o.vals, labels |-> o.labels, locked |-> (o.locked = 1)]
  IN V(IF Len(o.names) = Len(o.vals) THEN n ELSE e, v)
==============================================================================
