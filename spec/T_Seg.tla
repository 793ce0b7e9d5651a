------------------------------- MODULE T_Seg --------------------------------
(***************************************************************************)
(* Trace specification: recorded segmentations.                            *)
(*  "bin"    image e.G (doubled values), threshold e.thr, e.den            *)
(*  "otsu"   the same, e.thr lies between the two levels of the region of  *)
(*           interest; the code finds the threshold itself                 *)
(*  "count"  fewer than 25 objects?                                        *)
(* e.res: bright pixels of the result.                                     *)
(***************************************************************************)
EXTENDS Segment, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
PxSet(l) == {l[i] : i \in 1..Len(l)}
BinClause(e) ==
  LET want == Binary(e.G, e.h, e.w, e.thr, e.den)  got == PxSet(e.res) IN
  IF e.oh # e.h \/ e.ow # e.w THEN "shape"
  ELSE IF e.binary # 1 THEN "not-binary"
  ELSE IF got = want THEN "ok"
  ELSE IF \E p \in got : OnBorder(p, e.h, e.w) THEN "cut-off-object-kept"
  ELSE IF \E p \in want : p \notin got THEN "dot-pixel-lost"
  ELSE "pixel-invented"
CountClause(e) == IF e.few = (IF Cardinality(Objects(PxSet(e.px))) < 25 THEN 1 ELSE 0) THEN "ok" ELSE "number-of-dots"
NSteps(e) == 1
Clause(e, z) == IF e.out # "ok" THEN "outcome" ELSE IF e.op = "count" THEN CountClause(e) ELSE BinClause(e)
INSTANCE TraceBase
=============================================================================
