------------------------------- MODULE MC_Back ------------------------------
(***************************************************************************)
(* Design model of the median background.  The background of every small   *)
(* image is taken pixel by pixel (Pick), the image is then divided by it.  *)
(* TLC checks that the background keeps to the grey levels of the window,  *)
(* that constant images are left alone, that mirroring commutes with it    *)
(* for odd windows, that isolated pixels vanish, and that no value is left *)
(* undefined: a zero background is replaced by the mean.                   *)
(***************************************************************************)
EXTENDS Segment, TLC, Json, IOUtils, SequencesExt
H == 3  W == 3
Levels == {0, 1, 4}
Imgs == { g \in [1..H -> [1..W -> Levels]] : g[1][1] # 0 \/ g[2][2] = 0 }
VARIABLES img, n, bck, at
vars == <<img, n, bck, at>>
Init == img \in Imgs /\ n \in {1, 3} /\ bck = <<>> /\ at = 0
Pick == /\ at < H * W /\ at' = at + 1
        /\ bck' = Append(bck, MedWin(img, H, W, at \div W, at % W, n, n))
        /\ UNCHANGED <<img, n>>
Next == Pick
Spec == Init /\ [][Next]_vars
AsImg == [y \in 1..H |-> [x \in 1..W |-> bck[(y-1)*W + x]]]
RECURSIVE SumS(_,_)
SumS(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumS(s, i-1)
Vals(G) == {G[y][x] : y \in 1..H, x \in 1..W}
InRange == \A i \in 1..Len(bck) : bck[i] \in Vals(img)
Full == at = H*W => /\ AsImg = MedImg(img, H, W, n, n)
                    /\ (Cardinality(Vals(img)) = 1 => AsImg = img)
                    /\ (n = 1 => AsImg = img)
                    /\ LET m == [y \in 1..H |-> [x \in 1..W |-> img[H+1-y][x]]]
                       IN MedImg(m, H, W, n, n) = [y \in 1..H |-> [x \in 1..W |-> AsImg[H+1-y][x]]]
\* the divisor after the replacement is zero only if the whole background is
Divisor(b) == IF b # 0 THEN b * H * W ELSE SumS(bck, Len(bck))
NoZero == at = H*W => (\A i \in 1..Len(bck) : Divisor(bck[i]) # 0) \/ \A i \in 1..Len(bck) : bck[i] = 0
Speck == (at = H*W /\ n = 3) => \A y, x \in 2..2 :
   ((\A p \in Vals([img EXCEPT ![y][x] = img[1][1]]) : p = img[1][1]) => AsImg[y][x] = img[1][1])
ASSUME ndJsonSerialize(IOEnv.SCEN, LET q == SetToSeq(Imgs) IN [i \in 1..(Len(q) \div 11) |-> [G |-> q[11*i], n |-> 1 + 2 * (i % 3)]])
=============================================================================
