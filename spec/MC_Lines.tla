------------------------------- MODULE MC_Lines -----------------------------
(***************************************************************************)
(* Design model of tilted profiles: for every small frame, tilt, direction *)
(* and allowed start, the positions are walked one by one.  TLC checks     *)
(* that no position leaves the frame by a pixel or more (so that clipping  *)
(* never moves one further than that), that the walk ends in the last or   *)
(* last but one column or row, that positions advance by less than one     *)
(* pixel along the axis, and that transposing the frame exchanges the two  *)
(* directions with the opposite tilt.                                      *)
(***************************************************************************)
EXTENDS Lines, TLC, Json, IOUtils, SequencesExt
CONSTANTS Sizes
Tilts == { <<0,1,1>>, <<5,12,13>>, <<7,24,25>>, <<3,4,5>>, <<13,84,85>>, <<15,8,17>> }
VARIABLES c, k, at
vars == <<c, k, at>>
Cases == { [dir |-> d, t |-> t, sg |-> sg, h |-> h, w |-> w, idx |-> i] :
             d \in {"hor", "ver"}, t \in Tilts, sg \in {-1, 1}, h \in Sizes, w \in Sizes, i \in {-1} \cup 0..MaxOf(Sizes) }
Good == { z \in Cases : Allowed(z.dir, z.t, z.sg, z.h, z.w, z.idx) }
N(z) == Len1(z.dir, z.h, z.w)
M(z) == Len2(z.dir, z.h, z.w)
L(z) == MaxOf(Spans(N(z), z.t))
Unit(z) == z.t[3] * (N(z) - 1)
Pos(z, j) == << Along(j, L(z), z.t), Across(j, L(z), z.t, z.dir, z.sg, z.idx, N(z)) >>
Init == c \in Good /\ k = 0 /\ at = Pos(c, 0)
Walk == k < N(c) - 1 /\ k' = k + 1 /\ at' = Pos(c, k') /\ UNCHANGED c
Spec == Init /\ [][Walk]_vars
Start == k = 0 => at = <<0, c.idx * Unit(c)>>
InFrame == /\ at[1] >= 0 /\ at[1] <= (N(c) - 1) * Unit(c)
           /\ at[2] > -Unit(c) /\ at[2] < M(c) * Unit(c)
EndReached == k = N(c) - 1 => at[1] > (N(c) - 2) * Unit(c)
Advance == k > 0 => LET b == Pos(c, k-1) IN at[1] > b[1] /\ at[1] - b[1] <= Unit(c)
Transposed == LET z == [c EXCEPT !.dir = IF c.dir = "hor" THEN "ver" ELSE "hor", !.sg = -c.sg, !.h = c.w, !.w = c.h]
              IN Pos(z, k) = at
ASSUME ndJsonSerialize(IOEnv.SCEN, LET q == SetToSeq(Cases) IN [n \in 1..(Len(q) \div 2) |-> q[2*n]])
=============================================================================
