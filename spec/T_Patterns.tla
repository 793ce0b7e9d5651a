---------------------------- MODULE T_Patterns ------------------------------
(***************************************************************************)
(* Trace specification: recorded calibration patterns, judged row by row.  *)
(* e.rows[y]: columns with the value zero (disc: one), strictly ascending; *)
(* e.two: only the two (chessboard: three) expected values occur;          *)
(* e.grey[y] (chess): columns with the margin value                        *)
(***************************************************************************)
EXTENDS Patterns, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
Row(l) == {l[i] : i \in 1..Len(l)}
Sz(e) == SizeUsed(e.h, e.w, e.s)
\* a dot larger than its distance to the next cannot be drawn
Unfit(e) == e.op = "dots" /\ e.d < Sz(e)
Empty(e) == e.op = "lines" /\ (LineRows(e.h, Sz(e), e.d, e.mv) = {} \/ LineRows(e.w, Sz(e), e.d, e.mh) = {})
NSteps(e) == IF e.op # "default" /\ e.out = "ok" /\ ~Unfit(e) /\ e.oh = e.h /\ e.ow = e.w THEN e.h ELSE 1
Zeros(e, y) ==
  IF e.op = "disc" THEN {x \in 0..e.w-1 : InDisc(e.w, e.r, y, x)}
  ELSE IF e.op = "lines" THEN {x \in 0..e.w-1 : OnLine(e.h, e.w, Sz(e), e.d, e.mv, e.mh, y, x)}
  ELSE {x \in 0..e.w-1 : Chess(e.h, e.w, e.s, e.mv, y, x) = 0}
DotsRow(e, y, f) == Row(e.rows[y+1]) =
   (IF \E i \in DotRows(e.h, Sz(e), e.d, e.mv) : (y - i <= Sz(e) /\ i - y <= Sz(e))
    THEN {x \in 0..e.w-1 : OnDot(e.h, e.w, Sz(e), e.d, e.mv, e.mh, f, y, x)} ELSE {})
Clause(e, z) ==
  IF Unfit(e) THEN (IF e.out = "raise:ValueError" THEN "ok" ELSE "not-rejected")
  ELSE IF Empty(e) THEN "ok"
  ELSE IF e.out # "ok" THEN "outcome"
  ELSE IF e.op = "default" THEN (IF e.same = 1 THEN "ok" ELSE "default-differs")
  ELSE IF e.oh # e.h \/ e.ow # e.w THEN "size"
  ELSE IF e.two # 1 THEN "values"
  ELSE IF e.op = "dots" THEN (IF DotsRow(e, z-1, 0) \/ (Sz(e) % 2 = 0 /\ DotsRow(e, z-1, 1)) THEN "ok" ELSE "dot-pixels")
  ELSE IF Row(e.rows[z]) # Zeros(e, z-1) THEN "pixels"
  ELSE IF e.op = "chess" /\ Row(e.grey[z]) # {x \in 0..e.w-1 : Chess(e.h, e.w, e.s, e.mv, z-1, x) = 2} THEN "margin"
  ELSE "ok"
INSTANCE TraceBase
=============================================================================
