------------------------------- MODULE T_Pure -------------------------------
(* Trace specification: recorded histories of library calls. *)
EXTENDS Pure, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
NSteps(e) == Len(e.h)
Clause(e, z) == IF e.h[z].out # "ok" THEN "outcome" ELSE StepClause(e.h, z)
INSTANCE TraceBase
=============================================================================
