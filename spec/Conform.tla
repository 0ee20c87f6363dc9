------------------------------- MODULE Conform -------------------------------
(***************************************************************************)
(* Trace validation.  A trace file holds events recorded from the real     *)
(* code (one JSON object per line).  The specification module that is      *)
(* being conformed to supplies                                             *)
(*     Judge(st, ev) = [st |-> abstract state after ev, v |-> verdict]     *)
(* where the verdict is "ok" or the name of the clause of the              *)
(* specification that the observed step contradicts.  Every event of the   *)
(* trace is consumed (a rejected step resynchronises on the next trace),   *)
(* so one rejection does not hide the rest of the file.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Judge(_, _),   \* the specification's transition relation, as a decider
          Start          \* the specification's initial abstract state

VARIABLES l, st, nrej

Trace == ndJsonDeserialize(IOEnv.TRACE)

TraceInit == l = 1 /\ st = Start /\ nrej = 0

TraceNext ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
         r  == Judge(st, ev)
     IN /\ st' = r.st
        /\ nrej' = nrej + (IF r.v = "ok" THEN 0 ELSE 1)
        /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", ev.id, r.v, ev.k>>)
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("TRACE-COMPLETE")

TraceSpec == TraceInit /\ [][TraceNext]_<<l, st, nrej>>

\* accepted by postcondition: every line was consumed
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
