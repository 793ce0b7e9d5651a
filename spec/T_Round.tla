------------------------------- MODULE T_Round ------------------------------
(***************************************************************************)
(* Trace specification: recorded round trips through files.                *)
(*  "same"    e.A saved, e.B loaded (numbers or strings)                   *)
(*  "eight"   image turned into 8 bits: e.A values, e.B pixels             *)
(*  "mean"    colour image averaged: e.A pixels (channel lists), e.B in    *)
(*            1/256                                                        *)
(*  "stream"  history e.w of slices written, e.B slices found, e.meta      *)
(*            metadata, e.shape                                            *)
(*  "reject"  ValueError                                                   *)
(***************************************************************************)
EXTENDS Hdf, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
SetOf(s) == {s[i] : i \in 1..Len(s)}
MinS(s) == CHOOSE x \in SetOf(s) : \A y \in SetOf(s) : x <= y
MaxS(s) == CHOOSE x \in SetOf(s) : \A y \in SetOf(s) : y <= x
EightClause(e) == LET a == MinS(e.A)  r == MaxS(e.A) - a IN
   IF Len(e.A) # Len(e.B) THEN "size"
   ELSE IF e.u8 = 1 THEN (IF e.A = e.B THEN "ok" ELSE "pixels-changed")
   ELSE IF r = 0 THEN (IF a >= 0 /\ a <= 255 /\ e.A # e.B THEN "constant-changed" ELSE "ok")
   ELSE IF \E i \in 1..Len(e.A) : e.B[i] # (255 * (e.A[i] - a)) \div r THEN "rescaled" ELSE "ok"
RECURSIVE Add(_,_)
Add(s, i) == IF i = 0 THEN 0 ELSE s[i] + Add(s, i-1)
MeanClause(e) == IF Len(e.A) # Len(e.B) THEN "size"
   ELSE IF \E i \in 1..Len(e.A) : LET n == Len(e.A[i])  d == 256 * Add(e.A[i], n) - e.B[i] * n IN d > 2*n \/ d < -2*n THEN "mean" ELSE "ok"
StreamClause(e) == IF e.shape # e.want THEN "shape"
   ELSE IF \E s \in 1..Len(e.B) : e.B[s] # Slot(e.w, s - 1) THEN "slice"
   ELSE IF e.meta # e.gave THEN "metadata" ELSE IF e.tok # 1 THEN "data-type" ELSE "ok"
NSteps(e) == 1
Clause(e, z) ==
  IF e.op = "reject" THEN (IF e.out = "raise:ValueError" THEN "ok" ELSE "not-rejected")
  ELSE IF e.out # "ok" THEN "outcome"
  ELSE IF e.op = "same" THEN (IF e.A = e.B THEN "ok" ELSE e.what)
  ELSE IF e.op = "eight" THEN EightClause(e) ELSE IF e.op = "mean" THEN MeanClause(e) ELSE StreamClause(e)
INSTANCE TraceBase
=============================================================================
