----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Skeleton shared by the trace specifications of stateless calls.         *)
(* A recorded call is judged in NSteps(e) steps (pixels, points, clauses); *)
(* step k yields "ok" or the name of the violated clause.  Verdicts are    *)
(* total: a violated clause ends that call's behaviour and is reported,    *)
(* every other call is still judged.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils



CONSTANTS Trace, NSteps(_), Clause(_,_)
VARIABLES ev, k, bad

vars == <<ev, k, bad>>

TInit == ev \in 1..Len(Trace) /\ k = 0 /\ bad = "ok"
TNext == /\ bad = "ok"
         /\ k < NSteps(Trace[ev])
         /\ k' = k + 1
         /\ bad' = Clause(Trace[ev], k + 1)
         /\ UNCHANGED ev
TSpec == TInit /\ [][TNext]_vars

\* always TRUE; reports the violated clause of a recorded call
Report == bad = "ok" \/ PrintT("VIOL|" \o ToString(ev) \o "|" \o ToString(k) \o "|" \o bad)
Done == (bad = "ok" /\ k = NSteps(Trace[ev])) =>
           PrintT("DONE|" \o ToString(ev) \o "|" \o ToString(k))
=============================================================================
