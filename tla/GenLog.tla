------------------------------- MODULE GenLog -------------------------------
(* Histories for the alarm list (Kind 0: list length and configured maximum)  *)
(* and for effective levels (Kind 1: default level, level of the file, and    *)
(* whether the level remembered for the file is out of date).                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Kind
VARIABLES x, y, z, path
Do(o) == path' = Append(path, o) /\ PrintT("PATH" \o ToJson(path'))
GInit == x = (IF Kind = 0 THEN 20 ELSE -1) /\ y = (IF Kind = 0 THEN 0 ELSE -1) /\ z = 0 /\ path = <<>>
Min2(a, b) == IF a < b THEN a ELSE b
\* x: maximum, y: alarms held
Alarm(lv) == Do(<<"log", lv>>) /\ y' = (IF lv <= 2 THEN Min2(Min2(y + 1, x), 5) ELSE y) /\ UNCHANGED <<x, z>>
Max(m) == Do(<<"max", m>>) /\ x' = (IF m < 0 THEN 20 ELSE m) /\ UNCHANGED <<y, z>>
\* x, y: default level and level of the file (-1 unset, 8 empty, 9 no level name), z: 0 nothing remembered, 1 up to date, 2 out of date
Def(l) == Do(<<"def", l>>) /\ x' = l /\ z' = (IF z = 0 THEN 0 ELSE 2) /\ UNCHANGED y
File(l) == Do(<<"file", l>>) /\ y' = l /\ z' = (IF z = 0 THEN 0 ELSE 2) /\ UNCHANGED x
Try(l) == Do(<<"try", l>>) /\ z' = (IF z = 0 THEN 1 ELSE z) /\ UNCHANGED <<x, y>>
Age == Do(<<"age">>) /\ z' = 1 /\ UNCHANGED <<x, y>>
GNext == Len(path) < Depth /\ IF Kind = 0 THEN (\E lv \in 0..3 : Alarm(lv)) \/ (\E m \in -1..3 : Max(m))
                              ELSE (\E l \in {-1, 2, 5, 7, 9} : Def(l)) \/ (\E l \in {-1, 1, 4, 7, 8, 9} : File(l)) \/ (\E l \in {1, 2, 4, 5, 7} : Try(l)) \/ Age
GSpec == GInit /\ [][GNext]_<<x, y, z, path>>
View == <<x, y, z>>
=============================================================================
