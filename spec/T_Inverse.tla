----------------------------- MODULE T_Inverse ------------------------------
(***************************************************************************)
(* Trace specification: a recorded coefficient transformation returned T   *)
(* for the model K.  Lengths are in units of R pixels and the calibration  *)
(* range is [r0, r1].  The returned model must carry every radius of the   *)
(* range back: T(F(r)) = r up to the truncation error of a polynomial of   *)
(* the same degree, which is of second order in the strength of the        *)
(* distortion.                                                             *)
(***************************************************************************)
EXTENDS Warp, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
NR == 24
RadAt(e, n) == e.r0 + ((e.r1 - e.r0) \div NR) * n
RM(K, r) == FMul(r, Poly(K, r))
Strength(e) == Poly([i \in 1..Len(e.K) |-> IF i = 1 THEN 0 ELSE Abs(e.K[i])], e.r1)
Tol(e) == LET s == Strength(e) IN
   IF Len(e.K) = 1 THEN 40
   ELSE 60 + (IF Len(e.K) <= 3 THEN 2 * FMul(s, s) ELSE FMul(s, s) \div 2)
Sane(e) == Len(e.T) = Len(e.K) /\ \A i \in 1..Len(e.T) : Abs(e.T[i]) < 30*S
NSteps(e) == IF e.out # "ok" THEN 1 ELSE 2 + NR
Clause(e, n) ==
  IF e.want = "reject" THEN (IF e.out = "raise:ValueError" THEN "ok" ELSE "too-few-points-not-rejected")
  ELSE IF e.out # "ok" THEN "outcome"
  ELSE IF n = 1 THEN (IF Sane(e) THEN "ok" ELSE "coefficients")
  ELSE LET r == RadAt(e, n-2) IN IF Near(RM(e.T, RM(e.K, r)), r, Tol(e)) THEN "ok" ELSE "not-inverse"
INSTANCE TraceBase
=============================================================================
