------------------------------ MODULE HB ------------------------------
(* Data-race freedom of a recorded execution, by the happens-before order   *)
(* of its synchronization.  An event is [t, k, o]: thread t does            *)
(*   r w : reads / writes location o                                         *)
(*   L U : acquires / releases synchronization object o (mutex, guard, atomic)*)
(*   R W X : read-locks, write-locks, unlocks the rwlock o                   *)
(*   C B E J : creates thread o, begins, ends, joins thread o                *)
(* Vector clocks: vc[t][u] is the last step of u known to t.  A race is a    *)
(* pair of conflicting accesses of which neither is known to the other.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pos, vc, lk, wr, rd, race
vars == <<tr, pos, vc, lk, wr, rd, race>>
H == Traces[tr]
Th == 0..(H.nt - 1)
Zero == [u \in Th |-> 0]
Join(a, b) == [u \in Th |-> IF a[u] >= b[u] THEN a[u] ELSE b[u]]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Init == /\ tr \in 1..Len(Traces) /\ pos = 1
        /\ vc = [t \in Th |-> [u \in Th |-> IF u = t THEN 1 ELSE 0]]
        /\ lk = [x \in {} |-> 0] /\ wr = [x \in 1..H.no |-> <<0, 0>>] /\ rd = [x \in 1..H.no |-> Zero]
        /\ race = <<>>
E == H.ev[pos]
K == E.k
Tick(t, v) == [v EXCEPT ![t] = @ + 1]
Knows(t, u, c) == c = 0 \/ u = t \/ vc[t][u] >= c
Step ==
  LET t == E.t o == E.o IN
  CASE K = "r" -> /\ rd' = [rd EXCEPT ![o] = [@ EXCEPT ![t] = vc[t][t]]]
                  /\ race' = IF Knows(t, wr[o][1], wr[o][2]) THEN race ELSE <<pos>>
                  /\ UNCHANGED <<vc, lk, wr>>
    [] K = "w" -> /\ wr' = [wr EXCEPT ![o] = <<t, vc[t][t]>>]
                  /\ rd' = [rd EXCEPT ![o] = Zero]
                  /\ race' = IF Knows(t, wr[o][1], wr[o][2]) /\ \A u \in Th : Knows(t, u, rd[o][u]) THEN race ELSE <<pos>>
                  /\ UNCHANGED <<vc, lk>>
    [] K \in {"L", "R", "W"} -> /\ vc' = [vc EXCEPT ![t] = Join(@, Get(lk, o, Zero))] /\ UNCHANGED <<lk, wr, rd, race>>
    [] K \in {"U", "X"} -> /\ lk' = Put(lk, o, Join(vc[t], Get(lk, o, Zero))) /\ vc' = [vc EXCEPT ![t] = Tick(t, @)] /\ UNCHANGED <<wr, rd, race>>
    [] K = "C" -> /\ vc' = [vc EXCEPT ![t] = Tick(t, @), ![o] = Join(@, vc[t])] /\ UNCHANGED <<lk, wr, rd, race>>
    [] K = "J" -> /\ vc' = [vc EXCEPT ![t] = Join(@, vc[o])] /\ UNCHANGED <<lk, wr, rd, race>>
    [] K \in {"B", "E"} -> UNCHANGED <<vc, lk, wr, rd, race>>
Next == /\ pos <= Len(H.ev) /\ race = <<>>
        /\ Step /\ pos' = pos + 1 /\ UNCHANGED tr
        /\ IF race' /= <<>> THEN PrintT(<<"RACE", H.id, pos>>) ELSE IF pos = Len(H.ev) THEN PrintT(<<"ACC", H.id>>) ELSE TRUE
TSpec == Init /\ [][Next]_vars
=============================================================================
