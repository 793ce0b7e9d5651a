------------------------------ MODULE T_Points ------------------------------
(***************************************************************************)
(* Trace specification: recorded calls that move points through a radial   *)
(* model.  Coordinates are fixed point in units of R pixels.               *)
(*   e.lines[l][p] = <<y,x>> given, e.res[l][p] = <<y,x>> returned         *)
(*   op "fwd": the result is the image of the point under the model        *)
(*   op "bwd": the model maps the result back onto the point               *)
(*   op "round": the result returned to where it came from                 *)
(***************************************************************************)
EXTENDS Warp, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad

M(e) == [R |-> e.R, xc |-> e.xc, yc |-> e.yc, K |-> e.K]
Sane(q) == Abs(q[1]) < 4*S /\ Abs(q[2]) < 4*S
NearPt(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
\* tolerance: 8 ulp of the fixed point + a thousandth of a pixel
TolF(e) == 8 + U(M(e)) \div 1000
TolB(e) == 16 + U(M(e)) \div 1000

SameShape(e) == /\ Len(e.res) = Len(e.lines)
                /\ \A l \in 1..Len(e.lines) : Len(e.res[l]) = Len(e.lines[l])
PtOK(e, a, q) ==
  /\ Sane(q)
  /\ CASE e.op = "fwd" -> NearPt(q, Through(M(e), a[1], a[2]), TolF(e))
       [] e.op = "bwd" -> NearPt(a, Through(M(e), q[1], q[2]), TolB(e))
                          /\ (Radius(a[2]-e.xc, a[1]-e.yc) > 64 =>
                                FMul(q[2]-e.xc, a[2]-e.xc) >= -8 /\ FMul(q[1]-e.yc, a[1]-e.yc) >= -8)
       [] e.op = "round" -> NearPt(a, q, TolB(e))
       [] OTHER -> FALSE

NSteps(e) == IF e.out # "ok" THEN 1 ELSE 1 + Len(e.lines)
Clause(e, n) ==
  IF n = 1 THEN (IF e.out # "ok" THEN "outcome" ELSE IF ~SameShape(e) THEN "structure" ELSE "ok")
  ELSE IF \A p \in 1..Len(e.lines[n-1]) : PtOK(e, e.lines[n-1][p], e.res[n-1][p]) THEN "ok" ELSE "point-" \o e.op
INSTANCE TraceBase
=============================================================================
