------------------------------- MODULE DMulti -------------------------------
(* Design model of ScopedLockMultiple (Threads.cpp): the three lock orders as *)
(* a table of steps, run by every thread on its own permutation of mutexes,   *)
(* entering with the mutexes in Own[t] locked.  Threads without a permutation *)
(* just lock and release one mutex.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Perm, Own, Keep
VARIABLES o, pc, st
vars == <<o, pc, st>>
Th == DOMAIN Perm
\* kind, index, next if it succeeded, next if it failed; step 100: done
Table == << <<"try", 1, 2, 4>>, <<"try", 2, 3, 4>>, <<"try", 3, 100, 4>>,
            <<"unl", 2, 5, 0>>, <<"unl", 3, 6, 0>>, <<"lock", 1, 7, 0>>, <<"try", 2, 8, 9>>, <<"try", 3, 100, 9>>,
            <<"unl", 3, 10, 0>>, <<IF Keep THEN "nop" ELSE "unl", 1, 11, 0>>, <<"lock", 2, 12, 0>>, <<"try", 1, 13, 14>>, <<"try", 3, 100, 14>>,
            <<"unl", 1, 15, 0>>, <<"unl", 2, 16, 0>>, <<"lock", 3, 17, 0>>, <<"try", 1, 18, 19>>, <<"try", 2, 100, 19>>,
            <<"unl", 1, 20, 0>>, <<"unl", 3, 4, 0>> >>
M == {1, 2, 3}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Init == o = [m \in M |-> 0] /\ pc = [t \in Th |-> -1] /\ st = [t \in Th |-> {}]
\* enter: take the mutexes owned on entry (at most one, so that this cannot deadlock by itself)
Enter(t) == /\ pc[t] = -1 /\ \A m \in Own[t] : o[m] = 0
            /\ o' = [m \in M |-> IF m \in Own[t] THEN t ELSE o[m]] /\ st' = [st EXCEPT ![t] = Own[t]] /\ pc' = [pc EXCEPT ![t] = 1]
Step(t) == /\ pc[t] \in 1..Len(Table) /\ LET i == Table[pc[t]]  m == Perm[t][i[2]]  goto(n) == pc' = [pc EXCEPT ![t] = n]
                  get == o' = [o EXCEPT ![m] = t] /\ st' = [st EXCEPT ![t] = @ \cup {m}] IN
             CASE i[1] = "nop" -> goto(i[3]) /\ UNCHANGED <<o, st>>
               [] i[1] = "try" -> IF m \in st[t] THEN goto(i[3]) /\ UNCHANGED <<o, st>> ELSE IF o[m] = 0 THEN get /\ goto(i[3]) ELSE goto(i[4]) /\ UNCHANGED <<o, st>>
               [] i[1] = "lock" -> IF m \in st[t] THEN goto(i[3]) /\ UNCHANGED <<o, st>> ELSE o[m] = 0 /\ get /\ goto(i[3])
               [] i[1] = "unl" -> goto(i[3]) /\ IF m \in st[t] THEN o' = [o EXCEPT ![m] = 0] /\ st' = [st EXCEPT ![t] = @ \ {m}] ELSE UNCHANGED <<o, st>>
\* leave: give back what was not owned on entry, then also that
Leave(t) == pc[t] = 100 /\ pc' = [pc EXCEPT ![t] = 101] /\ o' = [m \in M |-> IF o[m] = t /\ m \notin Own[t] THEN 0 ELSE o[m]] /\ st' = [st EXCEPT ![t] = @ \cap Own[t]]
End(t) == pc[t] = 101 /\ pc' = [pc EXCEPT ![t] = 102] /\ o' = [m \in M |-> IF o[m] = t THEN 0 ELSE o[m]] /\ st' = [st EXCEPT ![t] = {}]
Next == \E t \in Th : Enter(t) \/ Step(t) \/ Leave(t) \/ End(t)
Spec == Init /\ [][Next]_vars
\* strong fairness of the blocking lock, weak of the rest
Fair == Spec /\ \A t \in Th : WF_vars(Step(t) \/ Leave(t) \/ End(t)) /\ SF_vars(Enter(t)) /\ SF_vars(Step(t))
Holds == \A t \in Th : pc[t] = 100 => \A m \in M : o[m] = t
Restored == \A t \in Th : pc[t] = 101 => {m \in M : o[m] = t} = Own[t]
NoHoldAndWait == \A t \in Th : (pc[t] \in 1..Len(Table) /\ Table[pc[t]][1] = "lock" /\ Perm[t][Table[pc[t]][2]] \notin st[t]) => st[t] = {}
NoDeadlock == (\E t \in Th : pc[t] /= 102) => \E t \in Th : ENABLED (Enter(t) \/ Step(t) \/ Leave(t) \/ End(t))
\* two threads that both back off may do so in step for ever; but once one of them is through, all get through
AllDone == (\E t \in Th : pc[t] = 102) ~> (\A t \in Th : pc[t] = 102)
=============================================================================
