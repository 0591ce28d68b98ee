------------------------------- MODULE DReport ------------------------------
(* Design model of the reporting counters: increments go to a batch under the *)
(* batch lock, commit moves the batch to the database statement by statement, *)
(* a failed statement puts the counts back, clear waits for a running commit  *)
(* and drops what was counted before it.                                      *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Names, MaxInc, MaxRuns, TwoStep, PutBack, ClearExcl
VARIABLES batch, db, pend, todo, inc, cpc, xpc, drop, base, runs
vars == <<batch, db, pend, todo, inc, cpc, xpc, drop, base, runs>>
Z == [n \in Names |-> 0]
Init == batch = Z /\ db = Z /\ pend = Z /\ todo = {} /\ inc = Z /\ cpc = "idle" /\ xpc = "idle" /\ drop = Z /\ base = Z /\ runs = 0
Incr(n) == inc[n] < MaxInc /\ inc' = [inc EXCEPT ![n] = @ + 1] /\ batch' = [batch EXCEPT ![n] = @ + 1] /\ UNCHANGED <<db, pend, todo, cpc, xpc, drop, base, runs>>
Start == cpc = "idle" /\ runs < MaxRuns /\ (ClearExcl => xpc = "idle") /\ runs' = runs + 1 /\ pend' = batch /\ todo' = {n \in Names : batch[n] > 0}
         /\ batch' = (IF TwoStep THEN batch ELSE Z) /\ cpc' = (IF TwoStep THEN "zero" ELSE "write")
         /\ UNCHANGED <<db, inc, xpc, drop, base>>
Zero == cpc = "zero" /\ batch' = [n \in Names |-> IF n \in todo THEN 0 ELSE batch[n]] /\ cpc' = "write" /\ UNCHANGED <<db, pend, todo, inc, xpc, drop, base, runs>>
Write(n) == /\ cpc = "write" /\ n \in todo /\ todo' = todo \ {n} /\ pend' = [pend EXCEPT ![n] = 0]
            /\ \/ db' = [db EXCEPT ![n] = @ + pend[n]] /\ batch' = batch
               \/ db' = db /\ batch' = (IF PutBack THEN [batch EXCEPT ![n] = @ + pend[n]] ELSE batch)          \* the statement failed
            /\ UNCHANGED <<inc, cpc, xpc, drop, base, runs>>
EndCommit == cpc = "write" /\ todo = {} /\ cpc' = "idle" /\ UNCHANGED <<batch, db, pend, todo, inc, xpc, drop, base, runs>>
\* clear: note what is in the batch, set the row to zero, take the noted counts out of the batch
Clear1 == xpc = "idle" /\ runs < MaxRuns /\ (ClearExcl => cpc = "idle") /\ runs' = runs + 1 /\ xpc' = "row" /\ drop' = batch /\ UNCHANGED <<batch, db, pend, todo, inc, cpc, base>>
Clear2 == xpc = "row" /\ (\/ db' = Z /\ xpc' = "drop" /\ base' = [n \in Names |-> base[n] + db[n] + drop[n]]
                          \/ db' = db /\ xpc' = "idle" /\ base' = base) /\ UNCHANGED <<batch, pend, todo, inc, cpc, drop, runs>>
Clear3 == xpc = "drop" /\ batch' = [n \in Names |-> batch[n] - drop[n]] /\ xpc' = "idle" /\ UNCHANGED <<db, pend, todo, inc, cpc, drop, base, runs>>
Next == (\E n \in Names : Incr(n) \/ Write(n)) \/ Start \/ Zero \/ EndCommit \/ Clear1 \/ Clear2 \/ Clear3
Spec == Init /\ [][Next]_vars
\* every increment is in exactly one place: stored, in the batch, on its way, or cleared
Conserved == (cpc /= "zero" /\ xpc /= "drop") => \A n \in Names : db[n] + batch[n] + (IF n \in todo THEN pend[n] ELSE 0) + base[n] = inc[n]
NonNegative == \A n \in Names : batch[n] >= 0 /\ db[n] >= 0
=============================================================================
