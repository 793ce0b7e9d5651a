-------------------------------- MODULE Lines -------------------------------
(***************************************************************************)
(* Tilted profiles through an image and the line patterns they cross.      *)
(* A tilt is a Pythagorean triple <<opp, adj, hyp>> and a sign, so that    *)
(* sine, cosine and tangent are rational.  A profile along x ("hor")       *)
(* starts at row idx of column 0, one along y ("ver") at column idx of     *)
(* row 0.  A positive tilt turns the profile counter-clockwise on the      *)
(* screen: a "hor" profile rises (towards row 0), a "ver" profile moves to *)
(* larger columns.                                                         *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
CeilDiv(a, b) == -((-a) \div b)
\* n: length along the profile, m: length across
Len1(dir, h, w) == IF dir = "hor" THEN w ELSE h
Len2(dir, h, w) == IF dir = "hor" THEN h ELSE w
Rises(dir, sg) == IF dir = "hor" THEN sg > 0 ELSE sg < 0     \* the position across decreases
\* usable start positions; the drop over the whole length is n*opp/adj
Drop(dir, t, h, w) == Len1(dir, h, w) * t[1]
ExactDrop(dir, t, h, w) == Drop(dir, t, h, w) % t[2] = 0 /\ t[1] # 0
\* the code rounds the drop up for positive and down for negative tilts
RndDrop(dir, t, sg, h, w) == LET d == Drop(dir, t, h, w) IN IF sg > 0 THEN CeilDiv(d, t[2]) ELSE d \div t[2]
Lowest(dir, t, sg, h, w)  == IF Rises(dir, sg) THEN RndDrop(dir, t, sg, h, w) ELSE 0
Highest(dir, t, sg, h, w) == LET m == Len2(dir, h, w) IN IF Rises(dir, sg) THEN m - 1 ELSE m - 1 - RndDrop(dir, t, sg, h, w)
Possible(dir, t, sg, h, w) == LET m == Len2(dir, h, w) IN
   /\ Lowest(dir, t, sg, h, w) < m /\ Highest(dir, t, sg, h, w) >= 0
Allowed(dir, t, sg, h, w, idx) == Possible(dir, t, sg, h, w) /\ idx >= Lowest(dir, t, sg, h, w) /\ idx <= Highest(dir, t, sg, h, w)
\* same, with the rounded drop one larger or smaller (drop exactly an integer)
Doubtful(dir, t, sg, h, w, idx) == ExactDrop(dir, t, h, w) /\
   \/ \E z \in {-1, 1} : idx + z = Lowest(dir, t, sg, h, w) \/ idx + z = Highest(dir, t, sg, h, w)
   \/ idx = Lowest(dir, t, sg, h, w) \/ idx = Highest(dir, t, sg, h, w)
   \/ RndDrop(dir, t, sg, h, w) + 1 >= Len2(dir, h, w)
\* length of the profile in pixels: the largest whole number inside the frame
Spans(n, t) == LET q == (n - 1) * t[3] IN
   IF q % t[2] = 0 /\ t[1] # 0 THEN {q \div t[2], q \div t[2] - 1} ELSE {q \div t[2]}
\* position number k of n, in units of 1/(hyp*(n-1)); l: span
Along(k, l, t) == k * l * t[2]
Across(k, l, t, dir, sg, idx, n) == idx * t[3] * (n - 1) + (IF Rises(dir, sg) THEN -1 ELSE 1) * k * l * t[1]

(* ---- families of parallel lines, units 1/64 pixel, c and s in 1/2^15 --- *)
U15 == 32768
\* distance coordinates: v across the horizontal lines, u across the vertical ones
VOf(g, X, Y) == ((Y - g.oy) * g.c - (X - g.ox) * g.s) \div U15
UOf(g, X, Y) == ((X - g.ox) * g.c + (Y - g.oy) * g.s) \div U15
Off(d, p) == ((d + p \div 2) % p) - p \div 2
=============================================================================
