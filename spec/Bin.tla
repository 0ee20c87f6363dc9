-------------------------------- MODULE Bin --------------------------------
(***************************************************************************)
(* Cutting a column into bins: rt.cut (given edges or a number of equal    *)
(* bins), rt.qcut (edges at quantiles), rt.quantile and rt.searchsorted.   *)
(* Values are integers (eighths); an edge is a rational <<num, den>> of    *)
(* the same unit; +-10^6 stands for the infinities.                        *)
(***************************************************************************)
EXTENDS Stat

INFV == 1000000
Fin(s) == SelectSeq(NoNA(s), LAMBDA v : v # INFV /\ v # 0 - INFV)
\* compare a value with an edge
Le(v, e) == v * e[2] <= e[1]
Lt(v, e) == v * e[2] < e[1]
ELt(e, f) == e[1] * f[2] < f[1] * e[2]
EEq(e, f) == e[1] * f[2] = f[1] * e[2]

Increasing(E) == \A i \in 1..(Len(E) - 1) : ~ELt(E[i + 1], E[i])
Repeated(E) == \E i, j \in 1..Len(E) : i < j /\ EEq(E[i], E[j])
DropRepeats(E) == FoldLeft(LAMBDA acc, e : IF \E i \in 1..Len(acc) : EEq(acc[i], e) THEN acc ELSE Append(acc, e), <<>>, E)

\* the bin of one value: (left, right], the first bin closed; 0 outside and for a missing value
CutRight(v, E) ==
  IF v = NA THEN 0
  ELSE IF Lt(v, E[1]) \/ ~Le(v, E[Len(E)]) THEN 0
  ELSE IF Le(v, E[1]) THEN 1
  ELSE CHOOSE i \in 1..(Len(E) - 1) : ~Le(v, E[i]) /\ Le(v, E[i + 1])
\* right=False, as documented: the first bin open, what lies beyond the last edge gets the next number
CutLeft(v, E) ==
  IF v = NA THEN 0
  ELSE Cardinality({i \in 1..Len(E) : ~Le(v, E[i])})
\* qcut: 0 missing or infinite, 1 clipped, then the bins
QCut(v, E) == IF v \in {NA, INFV, 0 - INFV} THEN 0 ELSE IF CutRight(v, E) = 0 THEN 1 ELSE CutRight(v, E) + 1

\* nb equal bins from the least to the greatest value
EqualEdges(x, nb) == LET lo == Min(ToSet(NoNA(x))) hi == Max(ToSet(NoNA(x)))
                     IN [k \in 1..(nb + 1) |-> <<lo * nb + (k - 1) * (hi - lo), nb>>]
\* the order statistic below or above instead of interpolating
RankAt(s, qn, qd, up) == LET p == qn * (Len(s) - 1) IN R(Sorted(s)[(p \div qd) + (IF up /\ p % qd # 0 THEN 2 ELSE 1)], 1)
QuantBy(x, qs, how) == MapSeq(qs, LAMBDA q : IF how = "fraction" THEN Linear(Fin(x), q[1], q[2]) ELSE RankAt(Fin(x), q[1], q[2], how = "higher"))
QuantEdges(x, qs) == MapSeq(qs, LAMBDA q : Linear(Fin(x), q[1], q[2]))

\* what the column looks like to the cut: rows left out by the filter are missing
Seen(ev) == [i \in 1..Len(ev.x) |-> IF ev.hasm = 1 /\ ev.m[i] = 0 THEN NA ELSE ev.x[i]]
\* a single distinct value: the edges lie symmetrically around it (their distance is not specified)
OneValue(x) == Cardinality(ToSet(NoNA(x))) = 1

Edges(ev) == CASE ev.t = "cut" -> ev.edges
               [] ev.t = "ncut" -> EqualEdges(Seen(ev), ev.nb)
               [] OTHER -> QuantEdges(Seen(ev), ev.qs)
Kept(E, dup) == IF Len(E) # 2 /\ Repeated(E) /\ dup = 1 THEN DropRepeats(E) ELSE E
\* what must be refused
Refused(ev, E) ==
  \/ (ev.t = "cut" /\ ~Increasing(E))
  \/ (ev.t = "ncut" /\ ev.nb < 1)
  \/ (Len(E) # 2 /\ Repeated(E) /\ ev.dup = 0)
  \/ (ev.lab = "own" /\ ev.nlab # Len(Kept(E, ev.dup)) - 1)

Code(ev, v, E) == IF ev.t = "qcut" THEN QCut(v, E) ELSE IF ev.right = 1 THEN CutRight(v, E) ELSE CutLeft(v, E)

\* labels show three decimals: exact whenever 1000 * edge is whole (the unit is 1/8)
Shown(e) == (125 * e[1]) % e[2] = 0
LabelOk(lab, E) == \A i \in 1..Len(lab) :
    (~Shown(E[i]) \/ REq(lab[i][1], E[i])) /\ (~Shown(E[i + 1]) \/ REq(lab[i][2], E[i + 1]))

CutVerdict(ev) ==
  LET o == ev.obs x == Seen(ev)
      mid == ev.t = "ncut" /\ ev.nb >= 1 /\ OneValue(x)
      E == IF ev.t = "ncut" /\ ev.nb < 1 THEN <<>> ELSE Edges(ev)
  IN IF mid \/ ~Refused(ev, E)
     THEN IF o.raised = 1 THEN "raised"
          ELSE LET K == Kept(E, ev.dup) nb == IF mid THEN ev.nb ELSE Len(K) - 1
               IN FirstFail(<<
                    <<o.frame = 1, "input-modified">>,
                    <<Len(o.codes) = Len(x), "length">>,
                    <<Len(o.codes) # Len(x) \/ \A i \in 1..Len(x) : o.codes[i] = IF mid THEN (IF x[i] = NA THEN 0 ELSE (ev.nb + 1) \div 2) ELSE Code(ev, x[i], K), ev.t \o "-bin">>,
                    <<ev.ret = 0 \/ Len(o.bins) = nb + 1, "edges-length">>,
                    <<ev.ret = 0 \/ mid \/ Len(o.bins) # nb + 1 \/ \A i \in 1..(nb + 1) : REq(o.bins[i], K[i]), "edges">>,
                    <<ev.lab = "no" \/ o.clip = (IF ev.t = "qcut" THEN 1 ELSE 0), "clipped-label">>,
                    <<ev.lab # "own" \/ o.own = Idx(nb), "own-labels">>,
                    <<ev.lab # "auto" \/ Len(o.lab) = nb, "labels-length">>,
                    <<ev.lab # "auto" \/ mid \/ Len(o.lab) # nb \/ LabelOk(o.lab, K), "labels">> >>)
     ELSE IF o.raised = 1 THEN "ok" ELSE "not-refused"
----------------------------------------------------------------------------
\* searchsorted: how many of the sorted values are less than (or equal to) v
Search(s, v, side) == Cardinality({i \in 1..Len(s) : IF side = "left" THEN s[i] < v ELSE s[i] <= v})

BinJudge(st, ev) ==
  LET o == ev.obs IN
  V(st,
    CASE ev.t \in {"cut", "ncut", "qcut"} -> CutVerdict(ev)
      [] ev.t = "quant" ->
           (IF o.raised = 1 THEN "raised" ELSE IF o.frame = 0 THEN "input-modified"
            ELSE LET E == QuantBy(ev.x, ev.qs, ev.side)
                 IN IF Len(o.bins) # Len(E) \/ \E i \in 1..Len(E) : ~REq(o.bins[i], E[i]) THEN "quantile" ELSE "ok")
      [] ev.t = "search" ->
           (IF o.raised = 1 THEN "raised" ELSE IF o.frame = 0 THEN "input-modified"
            ELSE IF Len(o.codes) # Len(ev.x) \/ \E i \in 1..Len(ev.x) : o.codes[i] # Search(ev.edges, ev.x[i], ev.side) THEN "search-" \o ev.side ELSE "ok"))
BStart == 0
=============================================================================
