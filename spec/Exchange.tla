------------------------------ MODULE Exchange ------------------------------
(***************************************************************************)
(* Exchange of columns with other representations: Arrow, pandas, NumPy    *)
(* record arrays, rows, dictionaries and pickles.                          *)
(*                                                                         *)
(* A column is a kind and a sequence of cells (ranks, NA for missing).     *)
(* KindVia says in which kind a column comes back from a conversion there  *)
(* and back; the cells always come back as they were, or the conversion is *)
(* refused.                                                                *)
(*                                                                         *)
(* A foreign column is a type, a sequence of chunks and options.  A chunk  *)
(* is a window (offset, length) on a buffer, as in Arrow: what is stored   *)
(* outside the window does not exist.                                      *)
(***************************************************************************)
EXTENDS RtBase

SENT == 6                    \* rank of the value that riptable reserves for missing in an integer type
EMPTY == 0                   \* an empty text that is not null
INTS == {"i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"}
PLAIN == INTS \cup {"f4", "f8", "?"}
WidthOf(k) == CASE k \in {"i1", "u1"} -> 1 [] k \in {"i2", "u2"} -> 2 [] k \in {"i4", "u4"} -> 4 [] OTHER -> 8
Wider(k) == CASE k = "i1" -> "i2" [] k = "i2" -> "i4" [] k = "i4" -> "i8" [] k = "u1" -> "u2" [] k = "u2" -> "u4" [] k = "u4" -> "u8" [] OTHER -> k
REFUSED == "refused"

\* text of a column: u = some of it is not ASCII
TextKind(u) == IF u THEN "U" ELSE "S"

\* the kind of column k (with or without text outside ASCII) after a trip through representation r
KindVia(k, r, u) ==
  CASE r \in {"pickle", "deepcopy", "dict", "struct", "rowds"} -> k
    [] r = "arrow" -> (CASE k = "dspan" -> REFUSED
                         [] k \in {"S", "U"} -> TextKind(u)
                         [] k \in {"cat:S", "cat:U"} -> (IF u THEN "cat:U" ELSE "cat:S")
                         [] OTHER -> k)                               \* a multi-key categorical ("catm") stays one
    [] r = "pandas" -> (CASE k \in {"S", "U"} -> TextKind(u)
                          [] k \in {"date", "dspan"} -> "i4"
                          [] k \in {"cat:S", "cat:U", "cate"} -> (IF u THEN "cat:U" ELSE "cat:S")
                          [] OTHER -> k)
    [] r = "rec" -> (CASE k \in {"date", "dspan"} -> "i4" [] k = "tsp" -> "f8" [] k \in {"dtn:NYC", "dtn:GMT"} -> "dtn:GMT" [] OTHER -> k)
    [] r \in {"rows", "tagged", "named"} -> (CASE k \in {"date", "dspan"} -> "i4" [] k = "tsp" -> "f8" [] k \in {"dtn:NYC", "dtn:GMT"} -> "i8"
                                               [] k \in {"S", "U"} -> TextKind(u) [] OTHER -> k)
    [] OTHER -> REFUSED
KindRoute(k, rs, u) == FoldLeft(LAMBDA acc, r : IF acc = REFUSED THEN acc ELSE KindVia(acc, r, u), k, rs)

\* ---- a foreign column ------------------------------------------------------------------
Window(c) == SubSeq(c.buf, c.off + 1, c.off + c.len)
Logical(chunks) == FoldLeft(LAMBDA acc, c : acc \o Window(c), <<>>, chunks)

\* what the column must be refused for
MustRefuse(t, v, nch, o) ==
  \/ t \in INTS /\ PosIn(v, SENT) # 0 /\ (WidthOf(t) = 8 \/ o.aw = 0 \/ o.zc = 1)
  \/ t = "?" /\ PosIn(v, NA) # 0
  \/ o.lib = "arrow" /\ o.tz = "naive"
  \/ o.zc = 1 /\ t \in INTS \cup {"f4", "f8"} /\ (PosIn(v, NA) # 0 \/ nch > 1)
MayRefuse(t, v, nch, o) == MustRefuse(t, v, nch, o) \/ o.zc = 1

\* the kind a foreign column of type t is read as
KindIn(t, v, o) ==
  CASE t \in INTS /\ PosIn(v, SENT) # 0 -> Wider(t)
    [] t = "text" -> TextKind(o.u = 1)
    [] t = "fsb" -> "S"
    [] t = "date" -> "date"
    [] t = "ts" -> (IF o.tz \in {"America/New_York", "NYC"} THEN "dtn:NYC" ELSE "dtn:GMT")
    [] t = "dur" -> "tsp"
    [] t = "dict:text" -> (IF o.u = 1 THEN "cat:U" ELSE "cat:S")
    [] t = "dict:i8" -> "cat:i8"
    [] OTHER -> t

\* ---- verdicts ---------------------------------------------------------------------------
\* empties that are not null are missing once they are home
Home(v) == MapSeq(v, LAMBDA x : IF x = EMPTY THEN NA ELSE x)

ColVerdict(c, o, k) ==
  FirstFail(<< <<o.k = k \/ (Len(c.v) = 0 /\ {o.k, k} = {"S", "U"}), "column has another kind">>, <<o.v = c.v, "cells differ">>,
               <<Len(c.cats) = 0 \/ o.cats = c.cats, "categories differ">> >>)

RouteVerdict(ev) ==
  LET n == Len(ev.cols)
      ks == [i \in 1..n |-> KindRoute(ev.cols[i].k, ev.route, ev.cols[i].u = 1)]
      refuse == \E i \in 1..n : ks[i] = REFUSED
  IN  IF ev.obs.raised = 1 THEN (IF refuse THEN "ok" ELSE "conversion refused")
      ELSE IF refuse THEN "conversion not refused"
      ELSE IF ev.obs.names # ev.names THEN "column names differ"
      ELSE IF ev.obs.frame # 1 THEN "the source changed"
      ELSE LET fs == [i \in 1..n |-> ColVerdict(ev.cols[i], ev.obs.cols[i], ks[i])]
               bad == SelIdx(n, LAMBDA i : fs[i] # "ok")
           IN IF Len(bad) = 0 THEN "ok" ELSE fs[bad[1]]

\* what the other side is given
OutType(k, r, o) ==
  CASE k \in {"S", "U"} -> (IF k = "S" /\ r = "arrow" /\ o.pfb = 1 THEN "fsb" ELSE "text")
    [] k = "date" /\ r = "arrow" -> "date"
    [] k \in {"date", "dspan"} -> "i4"
    [] k \in {"dtn:NYC", "dtn:GMT"} -> "ts"
    [] k = "tsp" -> "dur"
    [] k \in {"cat:S", "cat:U"} -> "dict:text"
    [] k = "cat:i8" -> "dict:i8"
    [] k = "cate" -> (IF r = "arrow" THEN "dict:struct" ELSE "dict:text")
    [] OTHER -> k
\* a missing cell as the other side sees it
OutNA(k, r, o) ==
  CASE k \in {"S", "U"} -> (IF r = "arrow" /\ o.e2n = 1 THEN NA ELSE EMPTY)
    [] k \in INTS /\ r = "pandas" /\ o.nullable = 0 -> SENT
    [] OTHER -> NA
OutVerdict(ev) ==
  LET v == MapSeq(ev.v, LAMBDA x : IF x = NA THEN OutNA(ev.kd, ev.r, ev.o) ELSE x)
  IN  IF ev.obs.raised = 1 THEN (IF ev.kd = "dspan" /\ ev.r = "arrow" THEN "ok" ELSE "conversion refused")
      ELSE FirstFail(<< <<ev.obs.t = OutType(ev.kd, ev.r, ev.o), "the other side gets another type">>, <<ev.obs.v = v, "the other side gets other cells">>,
                        <<Len(ev.cats) = 0 \/ ev.obs.cats = ev.cats, "the other side gets other categories">>, <<ev.obs.frame = 1, "the source changed">> >>)

InVerdict(ev) ==
  LET v == Logical(ev.chunks)
      nch == Len(ev.chunks)
      o == ev.o
  IN  IF ev.obs.raised = 1 THEN (IF MayRefuse(ev.t, v, nch, o) THEN "ok" ELSE "conversion refused")
      ELSE IF MustRefuse(ev.t, v, nch, o) THEN "not representable, and not refused"
      ELSE FirstFail(<< <<ev.obs.names = ev.names, "column names differ">>, <<ev.obs.k = KindIn(ev.t, v, o), "column has another kind">>,
                        <<ev.obs.v = Home(v), "cells differ">>, <<ev.obs.idx = ev.idx, "the index column differs">>,
                        <<o.wr = 0 \/ ev.obs.wr = 1, "the column is not writable">>, <<ev.obs.frame = 1, "the source changed">> >>)

XStart == [n |-> 0]
XJudge(st, ev) ==
  V([n |-> st.n + 1],
    CASE ev.op = "route" -> RouteVerdict(ev)
      [] ev.op = "out" -> OutVerdict(ev)
      [] ev.op = "in" -> InVerdict(ev)
      [] OTHER -> "unknown event")
=============================================================================
