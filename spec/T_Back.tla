------------------------------- MODULE T_Back -------------------------------
(***************************************************************************)
(* Trace specification: background normalisation and grey-level threshold. *)
(*  "norm"    e.G grey image, e.n window; e.res result (1/1024)            *)
(*  "agree"   two results that have to be equal: e.A, e.B, within e.tol    *)
(*  "flat"    smooth shading is removed: spread of the result (e.rs) is at *)
(*            most 1/e.f of the spread of the input (e.ms)                 *)
(*  "ramp"    threshold of evenly spread grey levels lo..hi (1/64),        *)
(*            e.snr8, e.bgr                                                *)
(*  "between" threshold separates the dots from the background             *)
(***************************************************************************)
EXTENDS Segment, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
RECURSIVE SumRow(_,_)
SumRow(r, n) == IF n = 0 THEN 0 ELSE r[n] + SumRow(r, n-1)
SumImg(B, h, w) == LET s == [y \in 1..h |-> SumRow(B[y], w)] IN SumRow(s, h)
\* result * background = mean * image; a zero background counts as the mean
NormOK(e) ==
  LET B == MedImg(e.G, e.h, e.w, e.n, e.n)
      t == SumImg(B, e.h, e.w)                   \* mean = t / (h*w)
      hw == e.h * e.w
  IN t = 0 \/ \A y \in 1..e.h, x \in 1..e.w :
        IF B[y][x] = 0 THEN Near(e.res[y][x], e.G[y][x] * 1024, 2)
        ELSE Near((e.res[y][x] * B[y][x]) , ((t * e.G[y][x]) \div hw) * 1024 + ((((t * e.G[y][x]) % hw) * 1024) \div hw), 2 * B[y][x] + 2)
RampWant(e) == LET d == e.hi - e.lo IN IF e.bgr = "bright" THEN e.lo - ((d * e.snr8) \div 16) ELSE e.hi + ((d * e.snr8) \div 16)
NSteps(e) == 1
Clause(e, z) ==
  IF e.out # "ok" THEN "outcome"
  ELSE CASE e.op = "norm" -> IF e.oh # e.h \/ e.ow # e.w THEN "shape" ELSE IF NormOK(e) THEN "ok" ELSE "normalised-value"
         [] e.op = "agree" -> IF Len(e.A) = Len(e.B) /\ \A i \in 1..Len(e.A) : Near(e.A[i], e.B[i], e.tol) THEN "ok" ELSE e.what
         [] e.op = "flat" -> IF e.rs * e.f <= e.ms THEN "ok" ELSE "shading-left"
         [] e.op = "ramp" -> IF Near(e.t, RampWant(e), 3) THEN "ok" ELSE "threshold"
         [] e.op = "between" -> IF e.lo < e.t /\ e.t < e.hi THEN "ok" ELSE "threshold-between"
         [] OTHER -> "unknown"
INSTANCE TraceBase
=============================================================================
