------------------------------- MODULE GenVis -------------------------------
(* Histories for the visibility of changes made by others: one for every      *)
(* transition between the combinations of stored value, what each table still *)
(* remembers (nothing, the present value, an old one) and how long ago each   *)
(* table dropped what it remembered (half seconds, up to Cap).                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Tabs, Keys, Cap, Steps
VARIABLES db, mem, age, path
Do(o) == path' = Append(path, o) /\ PrintT("PATH" \o ToJson(path'))
GInit == db = [k \in Keys |-> 0] /\ mem = [t \in Tabs |-> [k \in Keys |-> 0]] /\ age = [t \in Tabs |-> 0] /\ path = <<>>
Old(k) == [t \in Tabs |-> [mem[t] EXCEPT ![k] = IF @ = 0 THEN 0 ELSE 2]]
Adv(d) == Do(<<"adv", 500 * d>>) /\ age' = [t \in Tabs |-> IF age[t] + d > Cap THEN Cap ELSE age[t] + d] /\ UNCHANGED <<db, mem>>
RSet(k) == Do(<<"rset", k>>) /\ db' = [db EXCEPT ![k] = 1] /\ mem' = Old(k) /\ UNCHANGED age
RDel(k) == db[k] = 1 /\ Do(<<"rdel", k>>) /\ db' = [db EXCEPT ![k] = 0] /\ mem' = Old(k) /\ UNCHANGED age
TSet(t, k) == Do(<<"tset", k, t>>) /\ db' = [db EXCEPT ![k] = 1] /\ mem' = [Old(k) EXCEPT ![t][k] = 1] /\ UNCHANGED age
TRem(t, k) == Do(<<"trem", k, t>>) /\ db' = [db EXCEPT ![k] = 0] /\ mem' = [Old(k) EXCEPT ![t][k] = 0] /\ UNCHANGED age
TPurge(t) == Do(<<"tpurge", 1, t>>) /\ mem' = [mem EXCEPT ![t] = [k \in Keys |-> 0]] /\ UNCHANGED <<db, age>>
TGet(t, k) == Do(<<"tget", k, t>>) /\ LET m == IF age[t] >= 6 THEN [x \in Keys |-> 0] ELSE mem[t] IN
   mem' = [mem EXCEPT ![t] = [m EXCEPT ![k] = IF @ = 0 THEN 1 ELSE @]] /\ age' = [age EXCEPT ![t] = IF @ >= 6 THEN 0 ELSE @] /\ UNCHANGED db
GNext == Len(path) < Depth /\ ((\E d \in Steps : Adv(d)) \/ (\E k \in Keys : RSet(k) \/ RDel(k) \/ \E t \in Tabs : TSet(t, k) \/ TRem(t, k) \/ TGet(t, k)) \/ \E t \in Tabs : TPurge(t))
GSpec == GInit /\ [][GNext]_<<db, mem, age, path>>
View == <<db, mem, age>>
=============================================================================
