------------------------------- MODULE T_Warp -------------------------------
(***************************************************************************)
(* Trace specification: recorded calls of the image-unwarping functions.   *)
(*                                                                         *)
(* An event carries the model (R, xc, yc, K), the frame size h x w given   *)
(* to the call, the image (kind, c0: see Warp!ImgVal), the outcome, the    *)
(* shape oh x ow [x oc] and dtype of the result and sampled pixels         *)
(* pix[k] = <<row, column, channel, value*1024>>.                          *)
(*   pads <<t,b,l,r>> frame extension; padv = -1: the border is unknown    *)
(***************************************************************************)
EXTENDS Warp, TLC, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad

M(e) == [R |-> e.R, xc |-> e.xc, yc |-> e.yc, K |-> e.K]
IsInt(dt) == dt \in {"uint8", "uint16", "int16", "int32", "int64", "uint32"}
\* value tolerance in 1/1024 units; integer results are rounded
Tol(e) == 40 + (IF IsInt(e.dt) THEN 520 ELSE 0)
\* position tolerance: fixed-point and float32 rounding; OpenCV interpolates
\* on a grid of 1/32 pixel
PosTol(e) == IF e.lib = "cv2" THEN U(M(e)) \div 48 ELSE 8 + U(M(e)) \div 4096
\* v is a bilinear sample of V within the position tolerance of s
NearBilinear(e, m, V(_,_), s, H, Wd, v) ==
  BilinearWithin(m, V, s, H, Wd, PosTol(e), v, Tol(e))

\* continuation of an axis of n pixels beyond its ends, by the name of the mode
Ext(mode, i, n) ==
  CASE mode = "wrap" -> i % n
    [] mode = "reflect" -> IF n = 1 THEN 0 ELSE LET t == i % (2*n - 2) IN Min2(t, 2*n - 2 - t)
    [] mode = "symmetric" -> LET t == i % (2*n) IN Min2(t, 2*n - 1 - t)
    [] OTHER -> Clamp(i, 0, n-1)
\* the padded frame of a call: value at (i,j) of the padded frame, channel c
PadVal(e, p, c, i, j) ==
  LET y == i - p[1]  x == j - p[3]
      inside == 0 <= y /\ y < e.h /\ 0 <= x /\ x < e.w
  IN IF inside \/ e.padmode # "constant"
     THEN ImgVal(e.kind, e.c0 + c, Ext(e.padmode, y, e.h), Ext(e.padmode, x, e.w))
     ELSE 0
\* model of the padded frame
PM(e, p) == [M(e) EXCEPT !.xc = @ + Px(M(e), p[3]), !.yc = @ + Px(M(e), p[1])]

PixelOK(e, p, q) ==
  LET m == PM(e, p)  H == e.h + p[1] + p[2]  Wd == e.w + p[3] + p[4]
      V(i,j) == PadVal(e, p, q[3], i, j)
      s == Src(m, q[1], q[2], H, Wd)
  IN CASE e.order = 1 -> NearBilinear(e, m, V, s, H, Wd, q[4])
       [] e.order = 0 -> \E v \in NearestVals(m, V, s, H, Wd, PosTol(e) + U(m) \div 1024) :
                            Near(q[4], v * 1024, 8)
       [] OTHER ->   \* splines: exact on source pixels, and on smooth images
            LET fy == Frac14(m, s[1])  fx == Frac14(m, s[2])
                i0 == Cell(m, s[1])  j0 == Cell(m, s[2])
                onpix == (fy <= 4 \/ fy >= W14 - 4) /\ (fx <= 4 \/ fx >= W14 - 4)
                ni == IF fy <= 4 THEN i0 ELSE i0 + 1
                nj == IF fx <= 4 THEN j0 ELSE j0 + 1
                interior == 8 <= i0 /\ i0 < H - 9 /\ 8 <= j0 /\ j0 < Wd - 9
            IN IF onpix THEN Near(q[4], V(Min2(ni,H-1), Min2(nj,Wd-1)) * 1024, Tol(e) + 100)
               ELSE IF e.kind = 3 THEN Near(q[4], V(0,0) * 1024, Tol(e))
               ELSE IF e.kind \in {4, 5} /\ e.order \in {2,3,4,5}
                    THEN LET f == IF e.kind = 4 THEN fx ELSE fy
                             c0 == IF e.kind = 4 THEN j0 ELSE i0
                             n == IF e.kind = 4 THEN Wd ELSE H
                         IN IF Near(f, 8192, 4) /\ 14 <= c0 /\ c0 < n - 15
                            THEN Near(q[4], 102400 + (IF c0 % 4 \in {0, 3} THEN 1 ELSE -1) * WaveHalf(e.order), Tol(e) + 60)
                            ELSE TRUE
               ELSE IF e.kind = 2 /\ interior /\ e.order \in {2,3,4,5}
                    THEN \* i^2 + ij + 2 j^2 is reproduced exactly: bilinear
                         \* value minus the bilinear error f(1-f)(1 + 2)
                         LET ty == (fy * ((W14 - fy) \div 16)) \div 16384
                             tx == (fx * ((W14 - fx) \div 16)) \div 16384
                         IN Near(q[4], Bilinear(m, V, s, H, Wd) - ty - 2*tx, Tol(e) + 60)
               ELSE TRUE

----------------------------------------------------------------------------
(* remap: q = <<row, column, channel, value, y, x>>, the position asked for *)
(* in 1/32 pixel, anywhere on the plane                                     *)
RemapOK(e, q) ==
  LET V(i,j) == PadVal(e, <<0,0,0,0>>, q[3], i, j)
      i == q[5] \div 32  fy == q[5] % 32  j == q[6] \div 32  fx == q[6] % 32
      lin == (32-fy) * ((32-fx) * V(i,j) + fx * V(i,j+1)) + fy * ((32-fx) * V(i+1,j) + fx * V(i+1,j+1))
  IN IF e.order = 1 THEN Near(q[4], lin, Tol(e))
     ELSE Near(q[4], 1024 * V(IF fy < 16 THEN i ELSE i+1, IF fx < 16 THEN j ELSE j+1), 8)

----------------------------------------------------------------------------
(* unwarp_slice / unwarp_chunk: pix are <<row of the stack, column, frame>> *)
SlicePix(e, q) == PixelOK(e, <<0,0,0,0>>, q)

----------------------------------------------------------------------------
(* automatic padding: the pads are not logged, they are existential, near   *)
(* where the model sends the corners of the frame                           *)
Corner(e, i, j) == InvPoint(M(e), Px(M(e), i), Px(M(e), j))
\* overshoot of the corrected view beyond the frame, in whole pixels
CeilPx(e, q) == IF q <= 0 THEN 0 ELSE (q + U(M(e)) - 1) \div U(M(e))
Over(e) ==
  LET tl == Corner(e,0,0)  tr == Corner(e,0,e.w-1)
      bl == Corner(e,e.h-1,0)  br == Corner(e,e.h-1,e.w-1)
      m == M(e)
  IN << CeilPx(e, -Min2(tl[1], tr[1])),
        CeilPx(e, Max2(bl[1], br[1]) - Px(m, e.h-1)),
        CeilPx(e, -Min2(tl[2], bl[2])),
        CeilPx(e, Max2(tr[2], br[2]) - Px(m, e.w-1)) >>
AutoSlack(o) == 3 + o \div 10
AutoPads(e) ==
  LET o == Over(e) IN
  { <<t, e.oh - e.h - t, l, e.ow - e.w - l>> :
       t \in Max2(0, o[1] - AutoSlack(o[1]))..(o[1] + 1),
       l \in Max2(0, o[3] - AutoSlack(o[3]))..(o[3] + 1) }
AutoPadOK(e) ==
  LET o == Over(e) IN
  \E p \in AutoPads(e) :
     /\ p[2] >= Max2(0, o[2] - AutoSlack(o[2])) /\ p[2] <= o[2] + 1
     /\ p[4] >= Max2(0, o[4] - AutoSlack(o[4])) /\ p[4] <= o[4] + 1
     /\ \A n \in 1..Len(e.pix) : PixelOK(e, p, e.pix[n])

----------------------------------------------------------------------------
(* forward deposit: pixel value 1 + i*w + j names its source pixel          *)
RoundSet(m, q, n) == LET c == Clamp(q, 0, Px(m, n-1)) IN NearIdx(m, c, n, 12 + U(m) \div 4096)
Targets(e, i, j) == LET m == M(e)  p == Through(m, Px(m,i), Px(m,j)) IN
   { <<y, x>> : y \in RoundSet(m, p[1], e.h), x \in RoundSet(m, p[2], e.w) }
\* pixel <<i,j,0,v>> of the output
DepositOK(e, q) == \/ q[4] = 0
                   \/ /\ q[4] >= 1 /\ q[4] <= e.h * e.w
                      /\ LET s == q[4] - 1 IN <<q[1], q[2]>> \in Targets(e, s \div e.w, s % e.w)
\* source <<i, j, y0, x0, window of output values>>: some possible target is filled
ReachOK(e, z) ==
  LET T == Targets(e, z.i, z.j)
      In(t) == z.y0 <= t[1] /\ t[1] < z.y0 + Len(z.win) /\ z.x0 <= t[2] /\ t[2] < z.x0 + Len(z.win[1])
  IN \E t \in T : In(t) => z.win[t[1] - z.y0 + 1][t[2] - z.x0 + 1] # 0

----------------------------------------------------------------------------
NSteps(e) == IF e.out # "ok" THEN 1
             ELSE IF e.op = "autopad" THEN 2
             ELSE 1 + Len(e.pix) + (IF e.op = "fwd" THEN Len(e.src) ELSE 0)

Shape(e) ==
  IF e.op = "autopad" THEN e.oh >= e.h /\ e.ow >= e.w /\ e.oc = e.nc
  ELSE e.oh = e.eh /\ e.ow = e.ew /\ e.oc = e.nc

\* rejected calls: want = "reject" when the request is outside the stack
Head_(e) ==
  IF e.want = "reject" THEN (IF e.out = "raise:ValueError" THEN "ok" ELSE "out-of-range-not-rejected")
  ELSE IF e.out # "ok" THEN "outcome"
  ELSE IF ~Shape(e) THEN "shape"
  ELSE IF e.edt # "any" /\ e.odt # e.edt THEN "dtype"
  ELSE "ok"

Clause(e, n) ==
  IF n = 1 THEN Head_(e)
  ELSE CASE e.op = "autopad" -> IF AutoPadOK(e) THEN "ok" ELSE "auto-pad"
         [] e.op = "fwd" -> IF n <= 1 + Len(e.pix)
                            THEN (IF DepositOK(e, e.pix[n-1]) THEN "ok" ELSE "deposit")
                            ELSE (IF ReachOK(e, e.src[n - 1 - Len(e.pix)]) THEN "ok" ELSE "vacant-target")
         [] e.op = "remap" -> IF RemapOK(e, e.pix[n-1]) THEN "ok" ELSE "remap"
         [] OTHER -> IF PixelOK(e, e.pads, e.pix[n-1]) THEN "ok" ELSE "pixel"

INSTANCE TraceBase
=============================================================================
