------------------------------- MODULE MC_Pure ------------------------------
(***************************************************************************)
(* Design model: threads start and finish calls in any order; a pure call  *)
(* depends on its argument only.  TLC checks that histories of pure calls  *)
(* pass every clause, that results are those of the calls made alone, and  *)
(* (the ASSUMEs) that the clauses reject each kind of leak.                *)
(***************************************************************************)
EXTENDS Pure, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS Ids, Threads, MaxCalls
VARIABLES run, hist, n
vars == <<run, hist, n>>
F(id) == 10 * id + 1
Idle == 0
Init == run = [t \in Threads |-> Idle] /\ hist = <<>> /\ n = 0
Begin == \E t \in Threads, id \in Ids : run[t] = Idle /\ n < MaxCalls /\ run' = [run EXCEPT ![t] = id] /\ n' = n + 1 /\ UNCHANGED hist
End == \E t \in Threads : /\ run[t] # Idle
                          /\ hist' = Append(hist, [id |-> run[t], r |-> F(run[t]), r1 |-> F(run[t]), alone |-> F(run[t]), a0 |-> run[t], a1 |-> run[t], w0 |-> 0, w1 |-> 0])
                          /\ run' = [run EXCEPT ![t] = Idle] /\ UNCHANGED n
Next == Begin \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(End)
Quiet == \A i \in 1..Len(hist) : StepClause(hist, i) = "ok"
Alone == \A i \in 1..Len(hist) : hist[i].r = F(hist[i].id)
AllEnd == \A t \in Threads : (run[t] # Idle) ~> (run[t] = Idle)
Rec(id, r, a1, w1) == [id |-> id, r |-> r, r1 |-> 1, alone |-> 2*id - 1, a0 |-> 5, a1 |-> a1, w0 |-> 0, w1 |-> w1]
ASSUME StepClause(<<Rec(1, 1, 6, 0)>>, 1) = "argument-changed"
ASSUME StepClause(<<[Rec(1, 1, 5, 0) EXCEPT !.r1 = 3]>>, 1) = "result-changed-later"
ASSUME StepClause(<<Rec(1, 1, 5, 1)>>, 1) = "settings-changed"
ASSUME StepClause(<<Rec(1, 1, 5, 0), Rec(2, 1, 5, 0)>>, 2) = "result-not-that-of-the-call-alone"
ASSUME StepClause(<<Rec(1, 1, 5, 0), Rec(2, 7, 5, 0), Rec(1, 2, 5, 0)>>, 3) = "result-depends-on-history"
Words(m) == [1..m -> Ids]
ASSUME ndJsonSerialize(IOEnv.SCEN, LET q == SetToSeq({w \in Words(5) : \E i, j \in 1..5 : i < j /\ w[i] = w[j]}) IN [i \in 1..Len(q) |-> [word |-> q[i]]])
=============================================================================
