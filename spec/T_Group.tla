------------------------------ MODULE T_Group -------------------------------
(***************************************************************************)
(* Trace specification: recorded groupings of dots.                        *)
(*  "group"  lines as sequences of indices of the given dots               *)
(*  "rows"   the same for grids with known rows (polynomial grouping)      *)
(*  "twin"   lines along one axis and, with the axes exchanged, the other   *)
(*  "resid"  dots kept on each line after the parabola test                *)
(*  "reject" a refused call                                                *)
(***************************************************************************)
EXTENDS Grouping, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
\* the dots as seen along the lines
Seen(e) == IF e.dir = "ver" THEN Swap(e.P) ELSE e.P
Gg(e) == [s |-> e.s, d |-> e.d, w |-> e.w, m |-> e.m]
Valid(e) == \A a \in 1..Len(e.res) : \A b \in 1..Len(e.res[a]) : e.res[a][b] \in 1..Len(e.P)
GroupOK(e) ==
  LET want == Group(Seen(e), Gg(e), e.num, e.den) IN
  IF want = <<>> THEN (IF e.out = "ok" /\ Len(e.res) > 0 THEN "lines-invented" ELSE "ok")
  ELSE IF e.out # "ok" THEN "outcome"
  ELSE IF ~Valid(e) THEN "not-a-dot"
  ELSE IF Len(e.res) # Len(want) THEN "number-of-lines"
  ELSE IF e.res # want THEN "lines"
  ELSE "ok"
\* e.rows[i]: true row of dot i (0: no row); e.want: the rows to be returned.
\* Every returned line is one whole row, from one end to the other.
RowSeq(e, P, r) == SelectSeq(SortX(P, Len(P)), LAMBDA i : e.rows[i] = r)
RowsOK(e) ==
  LET P == Seen(e) IN
  IF e.out # "ok" THEN "outcome"
  ELSE IF ~Valid(e) THEN "not-a-dot"
  ELSE IF \E a \in 1..Len(e.res) : \E b \in 1..Len(e.res[a]) : \E c \in 1..Len(e.res[a]) : e.rows[e.res[a][b]] # e.rows[e.res[a][c]] THEN "rows-mixed"
  ELSE IF Len(e.res) # Len(e.want) THEN "number-of-lines"
  ELSE IF \E a \in 1..Len(e.res) : e.res[a] # RowSeq(e, P, e.want[a]) THEN "row-incomplete"
  ELSE "ok"
\* a line never holds dots of two rows, nor a dot twice
MixedOK(e) ==
  IF e.out # "ok" THEN "ok"
  ELSE IF ~Valid(e) THEN "not-a-dot"
  ELSE IF \E a \in 1..Len(e.res) : \E b \in 1..Len(e.res[a]) : \E c \in 1..Len(e.res[a]) :
          \/ e.rows[e.res[a][b]] # e.rows[e.res[a][c]]
          \/ b # c /\ e.res[a][b] = e.res[a][c] THEN "rows-mixed"
  ELSE "ok"
\* exchanging the axes changes nothing (e.near: the lines of slightly moved dots;
\* a case on the edge of a decision, where these differ, says nothing)
TwinOK(e) ==
  IF \E i \in 1..Len(e.near) : e.near[i] # [out |-> e.out, res |-> e.res] THEN "ok"
  ELSE IF e.out2 # e.out THEN "twin-outcome"
  ELSE IF e.res2 # e.res THEN "twin-lines"
  ELSE "ok"
\* lines with evenly spaced dots; e.lines[a]: heights, e.keep[a]: kept positions
\* (1/256 px), a dot within e.slack of the limit may go either way
LineKeep(e, a) ==
  LET r == Residuals(e.lines[a])  lim == FMul(e.lim, Root(e.s))
      must == {i \in 1..Len(r) : Abs(r[i]) < lim - e.slack}
      may  == {i \in 1..Len(r) : Abs(r[i]) <= lim + e.slack}
  IN <<must, may>>
ResidOK(e) ==
  LET n == Len(e.lines)
      K(a) == {e.keep[a][b] : b \in 1..Len(e.keep[a])}
  IN IF \A a \in 1..n : LineKeep(e, a)[2] = {} THEN (IF e.out = "raise:ValueError" THEN "ok" ELSE "all-removed")
     ELSE IF e.out = "raise:ValueError" /\ \A a \in 1..n : LineKeep(e, a)[1] = {} THEN "ok"
     ELSE IF e.out # "ok" THEN "outcome"
     ELSE IF Len(e.keep) # n THEN "structure"
     ELSE IF \E a \in 1..n : ~(LineKeep(e, a)[1] \subseteq K(a)) THEN "good-dot-removed"
     ELSE IF \E a \in 1..n : ~(K(a) \subseteq LineKeep(e, a)[2]) THEN "bad-dot-kept"
     ELSE IF \E a \in 1..n : \E b \in 1..Len(e.keep[a])-1 : e.keep[a][b] >= e.keep[a][b+1] THEN "order"
     ELSE "ok"
NSteps(e) == 1
Clause(e, z) ==
  CASE e.op = "group" -> GroupOK(e)
    [] e.op = "rows" -> RowsOK(e)
    [] e.op = "mixed" -> MixedOK(e)
    [] e.op = "twin" -> TwinOK(e)
    [] e.op = "resid" -> ResidOK(e)
    [] e.op = "reject" -> IF e.out = "raise:ValueError" THEN "ok" ELSE "not-rejected"
    [] OTHER -> "unknown-op"
INSTANCE TraceBase
=============================================================================
