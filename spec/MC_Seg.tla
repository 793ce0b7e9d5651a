------------------------------- MODULE MC_Seg -------------------------------
(***************************************************************************)
(* Design model of the segmentation, one stage per action, for every       *)
(* binary picture in the middle of a frame (ring of dark pixels or a ring  *)
(* with a bright gap).  TLC checks: no object touches the border, specks   *)
(* and lines disappear, no holes remain, the result is stable (a second    *)
(* pass changes nothing), it does not depend on the contrast of the        *)
(* picture, and the order of rows and columns does not matter.             *)
(***************************************************************************)
EXTENDS Segment, TLC, Json, IOUtils, SequencesExt
CONSTANTS IH, IW
H == IH + 2  W == IW + 2
Inner == (1..IH) \X (1..IW)
Rings == { {}, {<<0, 2>>}, {<<IH+1, IW+1>>} }
VARIABLES src, b, at
vars == <<src, b, at>>
Init == \E m \in SUBSET Inner, r \in Rings : src = m \cup r /\ b = m \cup r /\ at = "bright"
Step(f, t) == at = f /\ at' = t /\ UNCHANGED src
Contr == Step("bright", "contrast") /\ b' = Contrast(b, H, W)
Clear == Step("contrast", "clear") /\ b' = b \ CutOff(b, H, W)
Open_ == Step("clear", "open") /\ b' = Opened(b)
Fill_ == Step("open", "end") /\ b' = Filled(b, H, W)
Next == Contr \/ Clear \/ Open_ \/ Fill_
Spec == Init /\ [][Next]_vars
NoBorder == at \in {"clear", "open", "end"} => \A p \in b : ~OnBorder(p, H, W)
Shrinks == at \in {"clear", "open"} => b \subseteq Contrast(src, H, W)
Thick == at = "end" => \A o \in Objects(b) : \E p \in o : Plus(p) \subseteq o
Stable == at = "end" => (2 * Cardinality(b) <= H * W => Dots(b, H, W) = b)
NoContrast == (at = "end" /\ 2 * Cardinality(src) # H * W) => Dots(FrameOf(H, W) \ src, H, W) = b
Mir(A) == {<<H-1-p[1], p[2]>> : p \in A}
Tr(A) == {<<p[2], p[1]>> : p \in A}
Sym == at = "end" => Dots(Mir(src), H, W) = Mir(b) /\ Dots(Tr(src), W, H) = Tr(b)
ASSUME ndJsonSerialize(IOEnv.SCEN, LET q == SetToSeq({m \in SUBSET Inner : Cardinality(m) >= 7}) IN
   [n \in 1..(Len(q) \div 3) |-> [h |-> H, w |-> W, px |-> SetToSeq(q[3*n])]])
=============================================================================
