---------------------------- MODULE MC_Patterns -----------------------------
(***************************************************************************)
(* Design model: a dot pattern is painted dot by dot in any order.  TLC    *)
(* checks for all small patterns that the finished picture is the closed   *)
(* form used by the trace specification, that dots never touch the margin  *)
(* and, if their distance exceeds their size, never merge; and that the    *)
(* squares of a chessboard alternate and cover the board.                  *)
(***************************************************************************)
EXTENDS Patterns, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxSide
VARIABLES par, todo, ink
vars == <<par, todo, ink>>
Pars == {p \in [h : {MaxSide - 1, MaxSide}, w : {MaxSide}, s : {1, 3}, d : {3, 4, 5}, m : 0..3] : p.d >= p.s}
Centres(p) == DotRows(p.h, p.s, p.d, p.m) \X DotRows(p.w, p.s, p.d, p.m)
Init == par \in Pars /\ todo = Centres(par) /\ ink = {}
Paint == \E c \in todo : /\ \A o \in todo : c[1] < o[1] \/ (c[1] = o[1] /\ c[2] <= o[2])
                         /\ todo' = todo \ {c}
                         /\ ink' = ink \cup {<<c[1] + q[1], c[2] + q[2]>> : q \in Disc(par.s)}
                         /\ UNCHANGED par
Spec == Init /\ [][Paint]_vars
Done == todo = {}
Closed == Done => ink = {p \in (0..par.h-1) \X (0..par.w-1) : OnDot(par.h, par.w, par.s, par.d, par.m, par.m, 0, p[1], p[2])}
InMargin == \A p \in ink : p[1] > par.m - 1 /\ p[1] < par.h - par.m /\ p[2] > par.m - 1 /\ p[2] < par.w - par.m
Complete == Done => Cardinality(ink) = Cardinality(Centres(par)) * Cardinality(Disc(par.s))
\* chessboard: neighbouring squares differ, every board pixel belongs to one square
ASSUME \A s \in 2..3, m \in 0..2 : LET n == 14 IN
   \A y \in 0..n-1, x \in 0..n-1-s : LET a == Chess(n, n, s, m, y, x)  b == Chess(n, n, s, m, y, x + s) IN (a # 2 /\ b # 2) => a # b
ASSUME ndJsonSerialize(IOEnv.SCEN,
  LET q == SetToSeq({<<h, w, s, d, mv, mh>> : h \in {8, 17, 24}, w \in {9, 16, 25}, s \in 1..3, d \in {2, 4, 5}, mv \in 0..2, mh \in 0..2})
  IN [i \in 1..Len(q) |-> [h |-> q[i][1], w |-> q[i][2], s |-> q[i][3], d |-> q[i][4], mv |-> q[i][5], mh |-> q[i][6]]])
=============================================================================
