----------------------------- MODULE PointSets ------------------------------
(***************************************************************************)
(* Lists of points: the parabola mask, removal of points, rotation.        *)
(* Curviness is given in 1/64; margins <<top, bottom, left, right>>.       *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
\* signed excess (times 256*width or 256*height) of a pixel over each of the four curves
Top(y, x, h, w, vc, mg) == 256 * w * (y - mg[1]) - vc * (2*x - w) * (2*x - w)
Bot(y, x, h, w, vc, mg) == 256 * w * (h - mg[2] - y) - vc * (2*x - w) * (2*x - w)
Lef(y, x, h, w, hc, mg) == 256 * h * (x - mg[3]) - hc * (2*y - h) * (2*y - h)
Rig(y, x, h, w, hc, mg) == 256 * h * (w - mg[4] - x) - hc * (2*y - h) * (2*y - h)
Four(y, x, h, w, hc, vc, mg) == {Top(y, x, h, w, vc, mg), Bot(y, x, h, w, vc, mg), Lef(y, x, h, w, hc, mg), Rig(y, x, h, w, hc, mg)}
\* on a curve that is straight there no rounding occurs: the curve itself is outside
OnStraight(y, x, h, w, hc, vc, mg) ==
   \/ vc * (2*x - w) = 0 /\ (y = mg[1] \/ y = h - mg[2])
   \/ hc * (2*y - h) = 0 /\ (x = mg[3] \/ x = w - mg[4])
\* "in", "out" or "even" (exactly on a curve, where rounding decides)
Where(y, x, h, w, hc, vc, mg) == LET f == Four(y, x, h, w, hc, vc, mg) IN
   IF \E v \in f : v < 0 THEN "out" ELSE IF OnStraight(y, x, h, w, hc, vc, mg) THEN "out" ELSE IF \E v \in f : v = 0 THEN "even" ELSE "in"
BadMargins(h, w, mg) == mg[3] + mg[4] > w \/ mg[1] + mg[2] > h
InImage(y, x, h, w) == y >= 0 /\ y < h /\ x >= 0 /\ x < w
\* rotation by the angle of a Pythagorean triple, coordinates in 1/q, result times hyp
RotX(p, t) == p[2] * t[2] - p[1] * t[1]
RotY(p, t) == p[2] * t[1] + p[1] * t[2]
RECURSIVE Without(_,_)
Without(s, R) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in R THEN <<>> ELSE <<s[1]>>) \o Without(Tail(s), R)
=============================================================================
