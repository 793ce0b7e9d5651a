------------------------------- MODULE Segment ------------------------------
(***************************************************************************)
(* From a grey image to separated dots: denoising, threshold, contrast,    *)
(* removal of cut-off objects, of specks, and of holes.  An image is a     *)
(* function of pixels, or the set of its bright pixels.                    *)
(***************************************************************************)
EXTENDS Blobs
FrameOf(h, w) == (0..h-1) \X (0..w-1)
Mirror(a, n) == LET z == a % (2*n) IN IF z < n THEN z ELSE 2*n - 1 - z
Get(G, h, w, i, j) == G[Mirror(i, h) + 1][Mirror(j, w) + 1]
\* median of a size n1 x n2 window reaching n \div 2 back; rank n \div 2 of the sorted values
MedWin(G, h, w, i, j, n1, n2) ==
   LET a == i - n1 \div 2  b == j - n2 \div 2
       v == [z \in 1..(n1*n2) |-> Get(G, h, w, a + ((z-1) \div n2), b + ((z-1) % n2))]
   IN SortN(v)[(n1*n2) \div 2 + 1]
AbsImg(G, h, w) == [y \in 1..h |-> [x \in 1..w |-> Abs(G[y][x])]]
MedImg(G, h, w, n1, n2) == [y \in 1..h |-> [x \in 1..w |-> MedWin(G, h, w, y-1, x-1, n1, n2)]]
Bright(G, h, w, thr) == {p \in FrameOf(h, w) : G[p[1]+1][p[2]+1] > thr}
\* dots are the minority
Contrast(B, h, w) == IF 2 * Cardinality(B) > h * w THEN FrameOf(h, w) \ B ELSE B
OnBorder(p, h, w) == p[1] = 0 \/ p[2] = 0 \/ p[1] = h-1 \/ p[2] = w-1
CutOff(B, h, w) == LET s == {p \in B : OnBorder(p, h, w)} IN Flood8(B, s, s)
Plus(p) == N4(p) \cup {p}
Opened(B) == UNION {Plus(p) : p \in {q \in B : Plus(q) \subseteq B}}
Outside(B, h, w) == LET Z == ((-1..h) \X (-1..w)) \ B IN Flood4(Z, {<<-1,-1>>}, {<<-1,-1>>})
Filled(B, h, w) == FrameOf(h, w) \ Outside(B, h, w)
Dots(B, h, w) == LET c == Contrast(B, h, w) IN Filled(Opened(c \ CutOff(c, h, w)), h, w)
Binary(G, h, w, thr, den) ==
   LET D == IF den = 1 THEN MedImg(AbsImg(G, h, w), h, w, 2, 2) ELSE G
   IN Dots(Bright(D, h, w, thr), h, w)
\* central region for a ratio r64/64, as <<top, left>> margins
Margin(n, r64) == ((64 - r64) * n) \div 128
InRoi(p, h, w, r64) == Margin(h, r64) <= p[1] /\ p[1] < h - Margin(h, r64) /\ Margin(w, r64) <= p[2] /\ p[2] < w - Margin(w, r64)
=============================================================================
