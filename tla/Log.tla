-------------------------------- MODULE Log --------------------------------
(* The logger used by one thread: the alarm list (C30), effective levels      *)
(* (C31), delivery to syslog, log file and console (C32).  Texts are          *)
(* sequences of bytes.  Level 0 is the most severe, 7 the most verbose.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
B(s) == s
LName == << <<69,77,69,82,71>>, <<65,76,69,82,84>>, <<67,82,73,84>>, <<69,82,82>>, <<87,65,82,78,73,78,71>>, <<78,79,84,73,67,69>>, <<73,78,70,79>>, <<68,69,66,85,71>> >>
Syn == << <<<<73,78,70,79,82,77,65,84,73,79,78>>, 6>>, <<<<87,65,82,78>>, 4>>, <<<<69,82,82,79,82>>, 3>>, <<<<67,82,73,84,73,67,65,76>>, 2>>, <<<<69,77,69,82,71,69,78,67,89>>, 0>> >>
Known(n) == (\E i \in 1..8 : LName[i] = n) \/ (\E i \in 1..5 : Syn[i][1] = n)
\* the level a name stands for; the schema default (NOTICE) when it is none
Level(n) == IF \E i \in 1..8 : LName[i] = n THEN (CHOOSE i \in 1..8 : LName[i] = n) - 1
            ELSE IF \E i \in 1..5 : Syn[i][1] = n THEN Syn[CHOOSE i \in 1..5 : Syn[i][1] = n][2] ELSE 5
KLevel == <<76,111,103,46,76,101,118,101,108>>                          \* Log.Level
KGroup == <<76,111,103,46,71,114,111,117,112,46>>                       \* Log.Group.
KWatch == <<76,111,103,46,87,97,116,99,104,46>>                         \* Log.Watch.
KMax   == <<76,111,103,46,65,108,97,114,109,115,46,77,97,120>>          \* Log.Alarms.Max
GName == << <<67,111,110,116,114,111,108>>, <<83,73,80>>, <<71,83,77>>, <<71,80,82,83>>, <<76,97,121,101,114,50>>, <<83,77,83>> >>
Undefined == <<117,110,100,101,102,105,110,101,100,32,108,111,103,103,105,110,103,32,108,101,118,101,108>>
Starting == <<83,116,97,114,116,105,110,103,32,97,116,32>>
Has(c, k) == k \in DOMAIN c
Put(c, k, v) == [x \in DOMAIN c \cup {k} |-> IF x = k THEN v ELSE c[x]]
Rem(c, k) == [x \in DOMAIN c \ {k} |-> c[x]]
Default(c) == IF Has(c, KLevel) THEN Level(c[KLevel]) ELSE 5
Eff(c, f) == LET k == KLevel \o <<46>> \o f IN IF Has(c, k) /\ c[k] /= <<>> THEN Level(c[k]) ELSE Default(c)
GLev(c, pre, g) == LET k == pre \o GName[g] IN IF Has(c, k) /\ c[k] /= <<>> THEN Level(c[k]) ELSE 0
RECURSIVE Dec(_, _, _)
Dec(s, i, v) == IF i > Len(s) THEN v ELSE Dec(s, i + 1, 10 * v + s[i] - 48)
AMax(c) == IF Has(c, KMax) THEN Dec(c[KMax], 1, 0) ELSE 20
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
SFrom(s, i) == IF i > Len(s) THEN <<>> ELSE SubSeq(s, i, Len(s))
EndsIn(s, x) == Len(x) <= Len(s) /\ SFrom(s, Len(s) - Len(x) + 1) = x
StartsW(s, x) == Len(x) <= Len(s) /\ SubSeq(s, 1, Len(x)) = x
Within(s, x) == \E i \in 0..(Len(s) - Len(x)) : SubSeq(s, i + 1, i + Len(x)) = x
Line(t) == IF t /= <<>> /\ t[Len(t)] = 10 THEN t ELSE t \o <<10>>
LgInit(h) == {[c |-> [x \in {} |-> 0], n |-> 0, old |-> {}, gl |-> <<0,0,0,0,0,0>>, gw |-> <<0,0,0,0,0,0>>, al |-> <<>>, seen |-> 0, con |-> 0, file |-> 0]}
\* records delivered: syslog got recs; the alarm list grows by the severe ones; log file and console get every one
RECURSIVE Alarm(_, _, _, _)
Alarm(al, recs, i, mx) == IF i > Len(recs) THEN al ELSE Alarm(IF recs[i][1] <= 2 THEN LastN(Append(al, recs[i][2]), mx) ELSE al, recs, i + 1, mx)
RECURSIVE FileOf(_, _)
FileOf(recs, i) == IF i > Len(recs) THEN <<>> ELSE Line(recs[i][2]) \o FileOf(recs, i + 1)
\* what may stand on the console: alarms are echoed whether or not the console is enabled
RECURSIVE OnCon(_, _, _, _)
OnCon(e, recs, i, con) == IF i > Len(recs) THEN e = <<>>
   ELSE LET t == recs[i][2]
            Parts == IF recs[i][1] <= 2
                     THEN LET E == {t \o <<10>>, Line(t)} IN IF con = 1 THEN {x \o Line(t) : x \in E} \cup {Line(t) \o x : x \in E} ELSE E
                     ELSE IF con = 1 THEN {Line(t)} ELSE {<<>>} IN
        \E x \in Parts : StartsW(e, x) /\ OnCon(SFrom(e, Len(x) + 1), recs, i + 1, con)
Delivered(s, recs, err, f1, f2) == /\ f1 = (IF s.file = 1 THEN FileOf(recs, 1) ELSE <<>>)
                                   /\ f2 = (IF s.file = 2 THEN FileOf(recs, 1) ELSE <<>>)
                                   /\ OnCon(err, recs, 1, s.con)
\* complaints about names that are no level
Complaint(s, r) == r[1] = 2 /\ Within(r[2], Undefined) /\ \E k \in DOMAIN s.c : ~Known(s.c[k])
Complaints(s, recs) == \A i \in 1..Len(recs) : Complaint(s, recs[i])
After(s, recs) == [s EXCEPT !.al = Alarm(@, recs, 1, AMax(s.c))]
\* a change of the configuration: the levels in force so far may be used for 1000 further checks
Files == {<<65,46,99,112,112>>, <<66,46,99,112,112>>, <<68,105,114,47,67,46,99,112,112>>, <<>>}
Change(s, c2) == [s EXCEPT !.c = c2, !.old = {x \in @ : x[3] > s.n} \cup {<<f, Eff(s.c, f), s.n + 1000>> : f \in Files}]
\* the levels a check number k may use
Levels(s, f, k) == {Eff(s.c, f)} \cup {x[2] : x \in {x \in s.old : x[1] = f /\ x[3] >= k}}
Rec(o, r) == r[1] = o.a[4] /\ StartsW(r[2], LName[o.a[4] + 1] \o <<32>>) /\ EndsIn(r[2], o.a[5]) /\ Within(r[2], <<32>> \o o.a[2] \o <<58>>)
LgStep(s, o) ==
  CASE o.op = "log" ->
         LET recs == o.r[1]  always == o.a[1] = 1  g == o.a[3] + 1  bygroup == g > 0 /\ s.gl[IF g > 0 THEN g ELSE 1] >= o.a[4]
             L == Levels(s, o.a[2], s.n + 1)
             may == always \/ bygroup \/ \E l \in L : l >= o.a[4]
             maynot == ~always /\ ~bygroup /\ \E l \in L : l < o.a[4]
             m == Len(recs)
             emitted == m > 0 /\ Rec(o, recs[m]) /\ ~Complaint(s, recs[m])
             pre == IF emitted THEN SubSeq(recs, 1, m - 1) ELSE recs IN
         IF /\ (IF emitted THEN may ELSE maynot)
            /\ Complaints(s, pre)
            /\ Delivered(s, recs, o.r[2], o.r[3], o.r[4])
         THEN {[After(s, recs) EXCEPT !.n = @ + IF always \/ bygroup THEN 0 ELSE 1]} ELSE {}
    [] o.op = "test" ->
         LET g == o.a[2] + 1  L == Levels(s, <<65,46,99,112,112>>, s.n + 1)
             Q == IF g > 0 /\ o.a[1] = 0 THEN {s.gw[g] >= o.a[3]} ELSE IF g > 0 /\ s.gl[g] >= o.a[3] THEN {TRUE} ELSE {l >= o.a[3] : l \in L} IN
         IF (o.r[1] = 1) \in Q /\ Complaints(s, o.r[2]) /\ Delivered(s, o.r[2], o.r[3], o.r[4], o.r[5]) THEN {[After(s, o.r[2]) EXCEPT !.n = @ + IF g > 0 THEN 0 ELSE 1]} ELSE {}
    [] o.op = "get" ->
         LET runs == o.r[1]
             RECURSIVE G(_, _)
             G(i, k) == IF i > Len(runs) THEN TRUE ELSE runs[i][1] \in Levels(s, o.a[1], k + runs[i][2]) /\ G(i + 1, k + runs[i][2]) IN
         IF G(1, s.n) /\ Complaints(s, o.r[2]) /\ Delivered(s, o.r[2], o.r[3], o.r[4], o.r[5]) THEN {[After(s, o.r[2]) EXCEPT !.n = @ + o.a[2]]} ELSE {}
    [] o.op = "set" -> IF o.r = <<1>> THEN {Change(s, Put(s.c, o.a[1], o.a[2]))} ELSE {}
    [] o.op = "rem" -> {Change(s, Rem(s.c, o.a[1]))}
    [] o.op = "setall" -> LET recs == o.r[1] IN IF Delivered(s, recs, o.r[2], o.r[3], o.r[4]) /\ (\A i \in 1..Len(recs) : recs[i][1] = 7 \/ Complaint(s, recs[i]))
         THEN {[After(s, recs) EXCEPT !.gl = [g \in 1..6 |-> GLev(s.c, KGroup, g)], !.gw = [g \in 1..6 |-> GLev(s.c, KWatch, g)]]} ELSE {}
    [] o.op = "alarms" -> IF o.r[1] = s.al \/ s.seen = 0 THEN {[s EXCEPT !.al = o.r[1], !.seen = 1]} ELSE {}
    [] o.op = "console" -> {[s EXCEPT !.con = o.a[1]]}
    [] o.op = "early" -> IF o.r[1] = <<<<o.a[1], o.a[2]>>>> /\ o.r[2] = <<>> /\ o.r[3] = <<>> /\ o.r[4] = <<>> THEN {s} ELSE {}
    \* initialisation: opens the log file if that is asked for and none is open yet
    [] o.op = "init" ->
         LET s1 == IF o.a[3] = 1 THEN Change(s, Put(s.c, KLevel, o.a[4])) ELSE s
             opens == s.file = 0 /\ o.a[1] = 1
             s2 == IF opens THEN [s1 EXCEPT !.file = o.a[2]] ELSE s1
             recs == o.r[2]
             fr == FileOf(recs, 1)
             F(i, d) == IF d = <<-1>> THEN FALSE ELSE
                        IF opens /\ o.a[2] = i THEN StartsW(d, Starting) /\ EndsIn(d, fr) /\ Cardinality({j \in 1..(Len(d) - Len(fr)) : d[j] = 10}) = 1 /\ d[Len(d) - Len(fr)] = 10
                        ELSE IF s.file = i THEN d = fr ELSE d = <<>> IN
         IF o.r[1] = 1 /\ Complaints(s2, recs) /\ F(1, o.r[4]) /\ F(2, o.r[5]) THEN {After(s2, recs)} ELSE {}
=============================================================================
