------------------------------ MODULE MC_Video ------------------------------
(***************************************************************************)
(* Design model of a camera session as a state machine; TLC checks that    *)
(* the closed form Log is exactly what the machine does, that nothing is   *)
(* shown twice or out of order, that the camera is released exactly once   *)
(* and at the end, and (with a fair camera that keeps delivering, and a    *)
(* user who presses ESC) that the session ends.                            *)
(***************************************************************************)
EXTENDS Video, TLC, Json, IOUtils, SequencesExt
CONSTANT MaxReads
VARIABLES pc, log, n, cur, reads, keys
vars == <<pc, log, n, cur, reads, keys>>
Init == pc = "start" /\ log = <<>> /\ n = 0 /\ cur = 0 /\ reads = <<>> /\ keys = <<>>
Read == /\ pc \in {"start", "loop"} /\ n < MaxReads
        /\ \E ok \in {0, 1} : LET id == IF ok = 1 THEN n + 1 ELSE 0 IN
             /\ cur' = id /\ log' = Append(log, <<"read", id>>) /\ reads' = Append(reads, id)
             /\ pc' = IF pc = "start" \/ id = 0 THEN "loop" ELSE "show"
        /\ n' = n + 1 /\ UNCHANGED keys
Show == pc = "show" /\ log' = Append(log, <<"show", cur>>) /\ pc' = "wait" /\ UNCHANGED <<n, cur, reads, keys>>
Wait == /\ pc = "wait"
        /\ \E k \in {-1, 27} : log' = Append(log, <<"key", k>>) /\ keys' = Append(keys, k) /\ pc' = IF k = 27 THEN "release" ELSE "loop"
        /\ UNCHANGED <<n, cur, reads>>
Release == pc = "release" /\ log' = Append(log, <<"release", 0>>) /\ pc' = "close" /\ UNCHANGED <<n, cur, reads, keys>>
Close == pc = "close" /\ log' = Append(log, <<"close", 0>>) /\ pc' = "end" /\ UNCHANGED <<n, cur, reads, keys>>
Next == Read \/ Show \/ Wait \/ Release \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ClosedForm == pc = "end" => log = Log(reads, keys)
InOrder == \A i, j \in 1..Len(log) : (i < j /\ log[i][1] = "show" /\ log[j][1] = "show") => log[i][2] < log[j][2]
OnceReleased == \A i \in 1..Len(log) : log[i][1] = "release" => (pc \in {"close", "end"} /\ i >= Len(log) - 1)
NoReadAfterEsc == \A i \in 1..Len(log)-1 : log[i] = <<"key", 27>> => log[i+1][1] = "release"
\* the session ends, or the camera has delivered all it can
Ends == <>(pc = "end" \/ n = MaxReads)
Hist(m) == [1..m -> {0, 1}]
ASSUME ndJsonSerialize(IOEnv.SCEN, LET q == SetToSeq({<<r, e>> : r \in UNION {Hist(m) : m \in 2..6}, e \in 1..3}) IN
  [i \in 1..Len(q) |-> [reads |-> q[i][1], esc |-> q[i][2]]])
=============================================================================
