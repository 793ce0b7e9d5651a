-------------------------------- MODULE Video -------------------------------
(***************************************************************************)
(* The live correction of a camera: the frames are read one after another, *)
(* the first read only starts the camera; every good frame is corrected    *)
(* and shown, a failed read is skipped; ESC ends the loop, then the camera *)
(* is released and the windows are closed.                                 *)
(* A read is a number: 0 failed, otherwise the identity of the frame; keys *)
(* are the codes returned after each frame shown (27: ESC).                *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* observable actions of a session
RECURSIVE Session(_,_,_,_)
Session(reads, keys, i, j) ==      \* i: next read, j: next key
  IF i > Len(reads) THEN <<>>
  ELSE IF reads[i] = 0 THEN << <<"read", 0>> >> \o Session(reads, keys, i+1, j)
  ELSE << <<"read", reads[i]>>, <<"show", reads[i]>>, <<"key", keys[j]>> >> \o
       (IF keys[j] = 27 THEN << <<"release", 0>>, <<"close", 0>> >> ELSE Session(reads, keys, i+1, j+1))
Log(reads, keys) == << <<"read", reads[1]>> >> \o Session(reads, keys, 2, 1)
=============================================================================
