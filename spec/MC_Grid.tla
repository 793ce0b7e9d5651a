------------------------------ MODULE MC_Grid -------------------------------
(***************************************************************************)
(* Design model of squaring a perspective view.  A grid (pitches, tilt) is *)
(* seen through a perspective map (Look), its corners are put in order     *)
(* (Corners) and replaced by an ideal rectangle with the requested sides   *)
(* (Square).  TLC checks that                                              *)
(*   an unseen (flat) grid is regular and a fixed point of the squaring,   *)
(*   corners of a view are ordered uniquely,                               *)
(*   the ideal rectangle meets every clause demanded of the code.          *)
(* Every grid and view is a scenario for the code.                         *)
(***************************************************************************)
EXTENDS Grid, TLC, Json, IOUtils, FiniteSets, SequencesExt
R == 1024
u == S \div R
Tilts == {0, 30, -51, 102}                   \* 1/1024 rad
Pitches == { <<60, 60>>, <<48, 71>>, <<80, 52>> }  \* rows apart, columns apart
Hors == { <<0, 0>>, <<100, 0>>, <<0, -120>>, <<-90, 80>> }
Sizes == { <<2, 2>>, <<3, 5>>, <<6, 4>>, <<7, 8>> }
Cfgs == { [t |-> t, p |-> p, h |-> h, z |-> z] : t \in Tilts, p \in Pitches, h \in Hors, z \in Sizes }
Cfg == SetToSeq(Cfgs)
f(v) == v * (S \div 1024)
GPt(c, i, j) == LET gx == 120 * u + j * c.p[2] * u  gy == 140 * u + i * c.p[1] * u
                IN << gy + FMul(f(c.t), gx), gx - FMul(f(c.t), gy) >>
PC(c) == << S, 0, 0, 0, S, 0, f(c.h[1]), f(c.h[2]) >>
Seen(c) == [i \in 1..c.z[1] |-> [j \in 1..c.z[2] |-> Proj(PC(c), GPt(c, i-1, j-1))]]
ASSUME ndJsonSerialize(IOEnv.SCEN, [n \in 1..Len(Cfg) |->
   [R |-> R, nh |-> Cfg[n].z[1], nv |-> Cfg[n].z[2], G |-> Seen(Cfg[n]), flat |-> IF Cfg[n].h = <<0,0>> THEN 1 ELSE 0]])

VARIABLES n, at, view, q, sc, eq, rect
vars == <<n, at, view, q, sc, eq, rect>>
Flat(c) == c.h = <<0, 0>>
Init == n \in 1..Len(Cfg) /\ at = "scene" /\ view = <<>> /\ q = <<>> /\ sc = "mean" /\ eq = 0 /\ rect = <<>>
Look == at = "scene" /\ at' = "seen" /\ view' = Seen(Cfg[n]) /\ UNCHANGED <<n, q, sc, eq, rect>>
Cnr(v, nh, nv) == << v[nh][1], v[1][nv], v[1][1], v[nh][nv] >>
Corners == /\ at = "seen" /\ at' = "corners"
           /\ q' = Sort4(Cnr(view, Cfg[n].z[1], Cfg[n].z[2]))
           /\ UNCHANGED <<n, view, sc, eq, rect>>
\* unit direction along the mean of the horizontal sides
Dirn(p) == LET d == Add(Sub(p[2],p[1]), Sub(p[4],p[3])) IN << FDiv(d[1], Norm(d)), FDiv(d[2], Norm(d)) >>
Ideal(p, s, e) ==
  LET d == Dirn(p)  nrm == << d[2], -d[1] >>
      h == WantH(p, s, S + S \div 4, e)  v == WantV(p, s, S + S \div 4, e)
      a == << FMul(h \div 2, d[1]), FMul(h \div 2, d[2]) >>
      b == << FMul(v \div 2, nrm[1]), FMul(v \div 2, nrm[2]) >>
      c == Centroid(p)
  IN << Sub(Sub(c,a),b), Sub(Add(c,a),b), Add(Sub(c,a),b), Add(Add(c,a),b) >>
Square == /\ at = "corners" /\ at' = "squared"
          /\ sc' \in {"mean", "min", "max", "factor"} /\ eq' \in {0, 1}
          /\ rect' = Ideal(q, sc', eq')
          /\ UNCHANGED <<n, view, q>>
Next == Look \/ Corners \/ Square
Spec == Init /\ [][Next]_vars
FlatRegular == (at = "seen" /\ Flat(Cfg[n])) => Regular(view, 24)
OrderOK == at = "corners" => /\ Ordered4(q)
                             /\ NearPt(q[1], view[1][1], 0) /\ NearPt(q[4], view[Cfg[n].z[1]][Cfg[n].z[2]], 0)
SquareOK == at = "squared" =>
   /\ Rect(rect, 64)
   /\ Near(Norm(Sub(rect[2],rect[1])), WantH(q, sc, S + S \div 4, eq), 64)
   /\ Near(Norm(Sub(rect[3],rect[1])), WantV(q, sc, S + S \div 4, eq), 64)
   /\ (Flat(Cfg[n]) /\ sc # "factor" /\ eq = 0) => \A a \in 1..4 : NearPt(rect[a], q[a], 64)
=============================================================================
