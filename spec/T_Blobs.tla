------------------------------- MODULE T_Blobs ------------------------------
(***************************************************************************)
(* Trace specification: selections of dots in binary images.  e.blobs: the *)
(* objects of the image (pixel lists), e.res: the pixels of the result.    *)
(*  "size"   e.size8, e.r8: nominal size and ratio (1/8)                   *)
(*  "ratio"  e.q: limit of the elongation (1/4096)                         *)
(*  "dist"   e.d64, e.r64: nominal distance, admitted difference (1/64 px) *)
(***************************************************************************)
EXTENDS Blobs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, k, bad
Px(l) == {l[i] : i \in 1..Len(l)}
Nb(e) == 1..Len(e.blobs)
\* objects that must be kept / may be kept
Must(e) == CASE e.op = "size" -> {i \in Nb(e) : Len(e.blobs[i]) * 64 >= e.size8 * (8 - e.r8) /\ Len(e.blobs[i]) * 64 <= e.size8 * (8 + e.r8)}
             [] e.op = "ratio" -> {i \in Nb(e) : Height(e.blobs[i]) > 1 /\ Width(e.blobs[i]) > 1 /\ Elong(e.blobs[i]) < e.q - 12}
May(e) == CASE e.op = "size" -> Must(e)
            [] e.op = "ratio" -> {i \in Nb(e) : Height(e.blobs[i]) > 1 /\ Width(e.blobs[i]) > 1 /\ Elong(e.blobs[i]) <= e.q + 12}
\* difference of a distance to the nearest multiple (at least one) of d
Miss(v, d) == LET n == Max2(1, (2*v + d) \div (2*d)) IN Abs(v - n*d)
DistSets(e) == LET cs == [i \in Nb(e) |-> Cent(e.blobs[i])]
                   M == [i \in Nb(e) |-> LET s == Dists(cs, i) IN {Miss(s[z], e.d64) : z \in 1..Min2(3, Len(s))}]
               IN << {i \in Nb(e) : \E m \in M[i] : m < e.r64 - 3}, {i \in Nb(e) : \E m \in M[i] : m <= e.r64 + 3} >>
Clause0(e) ==
  LET res == Px(e.res)
      ds == IF e.op = "dist" THEN DistSets(e) ELSE <<Must(e), May(e)>>
      In(i) == Px(e.blobs[i]) \subseteq res
      Out(i) == Px(e.blobs[i]) \cap res = {}
  IN IF e.binary # 1 THEN "not-binary"
     ELSE IF ~(res \subseteq UNION {Px(e.blobs[i]) : i \in Nb(e)}) THEN "pixel-invented"
     ELSE IF \E i \in Nb(e) : ~In(i) /\ ~Out(i) THEN "object-cut"
     ELSE IF \E i \in ds[1] : ~In(i) THEN "dot-removed"
     ELSE IF \E i \in Nb(e) \ ds[2] : ~Out(i) THEN "object-kept"
     ELSE "ok"
NSteps(e) == 1
Clause(e, z) == IF e.out # "ok" THEN "outcome" ELSE Clause0(e)
INSTANCE TraceBase
=============================================================================
