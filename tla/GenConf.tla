------------------------------ MODULE GenConf ------------------------------
(* Histories for a configuration table: one for every transition between the  *)
(* combinations of stored value, cached answer and database lock.  Key 1 is   *)
(* unknown to the schema, key 2 has a default.                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Vals, Hows
VARIABLES db, cache, bz, path
K == 1..2
None == -1
Do(o) == path' = Append(path, o) /\ PrintT("PATH" \o ToJson(path'))
GInit == db = [k \in K |-> None] /\ cache = [k \in K |-> None] /\ bz = 0 /\ path = <<>>
Set(k, v) == Do(<<"set", k, v>>) /\ (IF bz = 0 THEN db' = [db EXCEPT ![k] = v] /\ cache' = [cache EXCEPT ![k] = 1] ELSE UNCHANGED <<db, cache>>) /\ UNCHANGED bz
Rem(k) == Do(<<"rem", k>>) /\ cache' = [cache EXCEPT ![k] = None] /\ db' = (IF bz = 0 THEN [db EXCEPT ![k] = None] ELSE db) /\ UNCHANGED bz
Get(k, h) == Do(<<"get", k, h>>) /\ cache' = [cache EXCEPT ![k] = IF @ = None /\ bz < 2 THEN (IF db[k] = None THEN 0 ELSE 1) ELSE @] /\ UNCHANGED <<db, bz>>
All == Do(<<"all">>) /\ UNCHANGED <<db, cache, bz>>
Purge == Do(<<"purge">>) /\ cache' = [k \in K |-> None] /\ UNCHANGED <<db, bz>>
Reopen == bz = 0 /\ Do(<<"reopen">>) /\ cache' = [k \in K |-> None] /\ UNCHANGED <<db, bz>>
Busy(m) == m /= bz /\ Do(<<"busy", m>>) /\ bz' = m /\ UNCHANGED <<db, cache>>
GNext == Len(path) < Depth /\ ((\E k \in K : (\E v \in Vals : Set(k, v)) \/ Rem(k) \/ \E h \in Hows : Get(k, h)) \/ All \/ Purge \/ Reopen \/ \E m \in 0..2 : Busy(m))
GSpec == GInit /\ [][GNext]_<<db, cache, bz, path>>
View == <<db, cache, bz>>
=============================================================================
