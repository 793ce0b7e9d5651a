------------------------------ MODULE T_Resid -------------------------------
(***************************************************************************)
(* Trace specification: recorded residual lists and verdicts.              *)
(*  "resid"   e.L lines of dots <<u, v>> in units; e.rad (1/128 unit) and  *)
(*            e.res (1/2^20 unit, at most 512 units) rows returned, e.inc = 1 if the  *)
(*            radii are non-decreasing                                     *)
(*  "verdict" e.big of e.n dots above one pixel, e.v: 1 distorted          *)
(***************************************************************************)
EXTENDS Resid, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
Total(e) == SumSeq([i \in 1..Len(e.L) |-> Len(e.L[i])])
OkRow(e, j, p, d) == /\ Abs(e.rad[j]*e.rad[j] - 16384 * R2(p)) <= 2 * e.rad[j] + 4
                     /\ Abs(e.res[j] - d \div 16) <= 64
LineClause(e, z) == LET l == e.L[z]  D == [i \in 1..Len(l) |-> Dist(l, i)] IN
   IF \E i \in 1..Len(l) : \A j \in 1..Len(e.rad) : ~OkRow(e, j, l[i], D[i]) THEN "dot-residual" ELSE "ok"
RowClause(e) == LET D == [z \in 1..Len(e.L) |-> [i \in 1..Len(e.L[z]) |-> Dist(e.L[z], i)]] IN
   IF \E j \in 1..Len(e.rad) : \A z \in 1..Len(e.L) : \A i \in 1..Len(e.L[z]) : ~OkRow(e, j, e.L[z][i], D[z][i]) THEN "row-without-dot" ELSE "ok"
NSteps(e) == IF e.op = "resid" /\ e.out = "ok" THEN Len(e.L) + 1 ELSE 1
Clause(e, z) ==
  IF e.out # "ok" THEN "outcome"
  ELSE IF e.op = "verdict" THEN (IF (e.v = 1) = Distorted(e.big, e.n) THEN "ok" ELSE "verdict")
  ELSE IF Len(e.rad) # Total(e) \/ Len(e.res) # Total(e) THEN "number-of-dots"
  ELSE IF e.inc # 1 THEN "order"
  ELSE IF z <= Len(e.L) THEN LineClause(e, z) ELSE RowClause(e)
INSTANCE TraceBase
=============================================================================
