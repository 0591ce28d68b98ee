-------------------------------- MODULE DSem --------------------------------
(* Design model of Semaphore: flag, mutex, signal sent under the lock.         *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Getters, Posters, MaxPosts, Loop, Trial
VARIABLES flag, pc, wk, posts, thru, lk
vars == <<flag, pc, wk, posts, thru, lk>>
Th == Getters \cup Posters
Init == flag = FALSE /\ pc = [t \in Th |-> "go"] /\ wk = {} /\ posts = 0 /\ thru = 0 /\ lk = 0
Waiting == {t \in Getters : pc[t] = "wait" /\ t \notin wk}
Lock(t) == pc[t] \in {"go", "re"} /\ lk = 0 /\ lk' = t /\ pc' = [pc EXCEPT ![t] = IF @ = "re" /\ ~Loop THEN "take" ELSE "in"] /\ UNCHANGED <<flag, wk, posts, thru>>
Post(t) == t \in Posters /\ pc[t] = "in" /\ flag' = TRUE /\ posts' = posts + 1 /\ lk' = 0 /\ thru' = thru
           /\ (IF Waiting = {} THEN wk' = wk ELSE \E w \in Waiting : wk' = wk \cup {w}) /\ pc' = [pc EXCEPT ![t] = IF posts + 1 < MaxPosts THEN "go" ELSE "end"]
Get(t) == t \in Getters /\ pc[t] = "in" /\ lk' = 0 /\ IF flag THEN flag' = FALSE /\ thru' = thru + 1 /\ pc' = [pc EXCEPT ![t] = "end"] /\ UNCHANGED <<wk, posts>>
          ELSE (pc' = [pc EXCEPT ![t] = IF t \in Trial THEN "end" ELSE "wait"]) /\ UNCHANGED <<flag, wk, posts, thru>>
Take(t) == pc[t] = "take" /\ lk' = 0 /\ flag' = FALSE /\ thru' = thru + 1 /\ pc' = [pc EXCEPT ![t] = "end"] /\ UNCHANGED <<wk, posts>>
Wake(t) == pc[t] = "wait" /\ t \in wk /\ wk' = wk \ {t} /\ pc' = [pc EXCEPT ![t] = "re"] /\ UNCHANGED <<flag, posts, thru, lk>>
Spur(t) == pc[t] = "wait" /\ t \notin wk /\ pc' = [pc EXCEPT ![t] = "re"] /\ UNCHANGED <<flag, wk, posts, thru, lk>>
Next == \E t \in Th : Lock(t) \/ Post(t) \/ Get(t) \/ Take(t) \/ Wake(t) \/ Spur(t)
Spec == Init /\ [][Next]_vars
AtMostPosts == thru + (IF flag THEN 1 ELSE 0) <= posts
NoSleeper == ((\A t \in Th : pc[t] = "end" \/ (pc[t] = "wait" /\ t \notin wk)) /\ flag) => \A t \in Getters : pc[t] /= "wait"
=============================================================================
