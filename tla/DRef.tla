-------------------------------- MODULE DRef --------------------------------
(* Design model of RefCntPointer: every increment and decrement is one atomic *)
(* step (Atomic) or a read and a write; the thread whose decrement returns 0  *)
(* deletes.  Threads start with one pointer each to the same object, may copy *)
(* it and drop their pointers in any order.                                   *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, MaxCopies, Atomic
VARIABLES cnt, ptr, pc, tmp, del, copies
vars == <<cnt, ptr, pc, tmp, del, copies>>
Th == 1..N
Init == cnt = N /\ ptr = [t \in Th |-> 1] /\ pc = [t \in Th |-> "run"] /\ tmp = [t \in Th |-> 0] /\ del = 0 /\ copies = [t \in Th |-> 0]
Inc(t) == /\ pc[t] = "run" /\ ptr[t] > 0 /\ copies[t] < MaxCopies /\ copies' = [copies EXCEPT ![t] = @ + 1]
          /\ IF Atomic THEN cnt' = cnt + 1 /\ ptr' = [ptr EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, tmp, del>>
             ELSE tmp' = [tmp EXCEPT ![t] = cnt] /\ pc' = [pc EXCEPT ![t] = "inc"] /\ UNCHANGED <<cnt, ptr, del>>
Inc2(t) == pc[t] = "inc" /\ cnt' = tmp[t] + 1 /\ ptr' = [ptr EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "run"] /\ UNCHANGED <<tmp, del, copies>>
Dec(t) == /\ pc[t] = "run" /\ ptr[t] > 0 /\ ptr' = [ptr EXCEPT ![t] = @ - 1]
          /\ IF Atomic THEN cnt' = cnt - 1 /\ tmp' = [tmp EXCEPT ![t] = cnt - 1] /\ pc' = [pc EXCEPT ![t] = "test"] /\ UNCHANGED <<del, copies>>
             ELSE tmp' = [tmp EXCEPT ![t] = cnt] /\ pc' = [pc EXCEPT ![t] = "dec"] /\ UNCHANGED <<cnt, del, copies>>
Dec2(t) == pc[t] = "dec" /\ cnt' = tmp[t] - 1 /\ tmp' = [tmp EXCEPT ![t] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "test"] /\ UNCHANGED <<ptr, del, copies>>
Test(t) == pc[t] = "test" /\ del' = (IF tmp[t] = 0 THEN del + 1 ELSE del) /\ pc' = [pc EXCEPT ![t] = "run"] /\ UNCHANGED <<cnt, ptr, tmp, copies>>
Next == \E t \in Th : Inc(t) \/ Inc2(t) \/ Dec(t) \/ Dec2(t) \/ Test(t)
Spec == Init /\ [][Next]_vars
Live == \E t \in Th : ptr[t] > 0
OnceAtMost == del <= 1
NotWhileUsed == Live => del = 0
InTheEnd == (\A t \in Th : pc[t] = "run" /\ ptr[t] = 0) => del = 1
=============================================================================
