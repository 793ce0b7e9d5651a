------------------------------ MODULE MC_Warp ------------------------------
(***************************************************************************)
(* Design model of the backward unwarping.  A frame is corrected pixel by  *)
(* pixel (Full), one row at a time (Slice) or by a band of rows (Band); a  *)
(* band reads only the source rows of a window fixed from its first and    *)
(* last row.  TLC visits every pixel of every scenario and checks          *)
(*   InFrame    the source of every output pixel lies in the frame         *)
(*   CentreFix  the centre of distortion does not move                     *)
(*              (and the model [1] is the identity)                        *)
(*   Window     for a physical model the band's window holds every source  *)
(*   RadialMono a physical model keeps the order of points on a ray        *)
(* The scenario set is what the conformance driver replays on the code.    *)
(***************************************************************************)
EXTENDS Warp, TLC, Json, IOUtils, FiniteSets, SequencesExt, Functions

Frames == { <<1,1>>, <<1,6>>, <<6,1>>, <<2,3>>, <<5,4>>, <<4,7>>, <<8,8>> }
\* centres in eighths of a pixel relative to the frame's own size: y, x
Centres(h, w) == { <<4*(h-1), 4*(w-1)>>, <<0,0>>, <<8*(h-1), 3>>,
                   <<-11, 8*w+5>>, <<4*h+1, 2*w+3>> }
\* K in 1/64ths (unit length R = 8 px)
Models == { <<64>>, <<0>>, <<48>>, <<96>>, <<64, 0, 8>>, <<64, 4, -6>>,
            <<60, -3, 2, 1, 1>>, <<72, 6, -2, 0, -1>>, <<64, 0, 0, 0, 0, 2>> }
R == 8

Scen(f, c, k) == [h |-> f[1], w |-> f[2], yc8 |-> c[1], xc8 |-> c[2],
                  K64 |-> k, R |-> R]
ScenSet == UNION { { Scen(f, c, k) : c \in Centres(f[1], f[2]), k \in Models } : f \in Frames }
ScenSeq == SetToSeq(ScenSet)
ASSUME ndJsonSerialize(IOEnv.SCEN, ScenSeq)

ModelOf(s) == [R |-> s.R, xc |-> s.xc8 * (U(s) \div 8), yc |-> s.yc8 * (U(s) \div 8),
               K |-> [i \in 1..Len(s.K64) |-> s.K64[i] * (S \div 64)]]

VARIABLES n, i, j, a, b          \* scenario, pixel, band
vars == <<n, i, j, a, b>>
Sc == ScenSeq[n]
M == ModelOf(Sc)
Phys(m) == Len(m.K) > 0 /\ Monotone(m, 3*S, 12)

Init == n \in 1..Len(ScenSeq) /\ i = 0 /\ j = 0 /\ a = 0 /\ b = -1
Full  == /\ b = -1
         /\ \/ (j < Sc.w - 1 /\ j' = j + 1 /\ i' = i)
            \/ (j = Sc.w - 1 /\ i < Sc.h - 1 /\ j' = 0 /\ i' = i + 1)
         /\ UNCHANGED <<n, a, b>>
Band  == /\ i = 0 /\ j = 0 /\ b = -1 /\ a' \in 0..(Sc.h-1) /\ b' \in a'..(Sc.h-1)
         /\ UNCHANGED <<n, i, j>>
Next == Full \/ Band
Spec == Init /\ [][Next]_vars

InFrame == b = -1 => LET m == M  p == Src(m, i, j, Sc.h, Sc.w) IN
           /\ 0 <= p[1] /\ p[1] <= Px(m, Sc.h - 1)
           /\ 0 <= p[2] /\ p[2] <= Px(m, Sc.w - 1)
           /\ (Sc.K64 = <<64>> => p = <<Px(m,i), Px(m,j)>>)
CentreFix == (i + j = 0) => LET m == M IN Through(m, m.yc, m.xc) = <<m.yc, m.xc>>
Window == b >= 0 =>
  LET m == M  h == Sc.h  w == Sc.w
      rows == [r \in a..b |-> [c \in 0..(w-1) |-> Src(m, r, c, h, w)[1]]]
      lo == MinOf(Range(rows[a])) \div U(m)
      hi == (MaxOf(Range(rows[b])) + U(m) - 1) \div U(m)
  IN Phys(m) => \A r \in a..b : \A c \in 0..(w-1) :
                  lo * U(m) <= rows[r][c] /\ rows[r][c] <= hi * U(m)
RadialMono == (i + j = 0 /\ b = -1) => LET m == M IN
    Phys(m) => \A t \in 0..5 : Through(m, m.yc, m.xc + t * (S \div 4))[2]
                             < Through(m, m.yc, m.xc + (t+1) * (S \div 4))[2]
=============================================================================
