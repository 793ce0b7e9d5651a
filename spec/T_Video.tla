------------------------------ MODULE T_Video -------------------------------
(***************************************************************************)
(* Trace specification: recorded camera sessions.  e.reads, e.keys as in   *)
(* Video; e.log: the actions seen, <<name, number>>; a frame shown counts  *)
(* under the identity of the frame whose correction it is (-1: none).      *)
(***************************************************************************)
EXTENDS Video, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
NSteps(e) == 1
First(a, b) == CHOOSE i \in 1..Len(a) : i > Len(b) \/ a[i] # b[i]
Clause(e, z) == LET w == Log(e.reads, e.keys) IN
  IF e.out # "ok" THEN "outcome"
  ELSE IF e.log = w THEN "ok"
  ELSE IF Len(e.log) > Len(w) THEN "too-many-actions"
  ELSE w[First(w, e.log)][1] \o "-wrong"
INSTANCE TraceBase
=============================================================================
