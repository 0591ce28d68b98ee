-------------------------------- MODULE Db --------------------------------
(* The database helpers (C25).  The state is what the database contains: the  *)
(* rows of a table (k: text, v: text or null, n: unsigned, u: unique number)  *)
(* and the attributes; tx and save describe an open transaction.              *)
(* Every call is told what the database will do to it: o.a[1] = 1 the         *)
(* database is available, or becomes available within the allowed attempts;   *)
(* 0 it stays busy or locked, or fails; 2 it may fail for lack of space.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
DbSub(s, a, b) == IF b < a THEN <<>> ELSE SubSeq(s, a, b)
Cut0(s) == LET Z == {i \in 1..Len(s) : s[i] = 0} IN IF Z = {} THEN s ELSE DbSub(s, 1, (CHOOSE i \in Z : \A j \in Z : i <= j) - 1)
DbInit(h) == {[rows |-> <<>>, attr |-> {}, tx |-> 0, srows |-> <<>>, sattr |-> {}]}
\* a change: it is reported as done exactly when it was done, and then done once
Change(s, o, ok, new) == IF o.r[1] = 1 THEN (IF ok /\ o.a[1] /= 0 THEN {new} ELSE {}) ELSE (IF o.r[1] = 0 /\ (~ok \/ o.a[1] /= 1) THEN {s} ELSE {})
Code(o, S) == IF (o.r[1] = 1) = (o.r[2] \in {0, 100, 101}) THEN S ELSE {}
Match(s, P(_)) == {i \in 1..Len(s.rows) : P(s.rows[i])}
\* looking up one value: found exactly when some row matches, and then the value of such a row
Find1(s, o, I, val(_)) == IF o.r[1] = 1 THEN (IF o.a[1] /= 0 /\ \E i \in I : val(s.rows[i]) = o.r[2] THEN {s} ELSE {})
                          ELSE IF o.r[1] = 0 /\ (I = {} \/ o.a[1] /= 1) THEN {s} ELSE {}
Text(v) == IF v = <<>> THEN <<>> ELSE v[1]                  \* null reads as the empty text
CText(v) == IF v = <<>> THEN <<0>> ELSE <<1>> \o Cut0(v[1])  \* as C string; null as null
Del(s, I) == [s EXCEPT !.rows = LET RECURSIVE D(_) D(i) == IF i > Len(s.rows) THEN <<>> ELSE (IF i \in I THEN <<>> ELSE <<s.rows[i]>>) \o D(i + 1) IN D(1)]
Fresh(s, rs) == LET all == s.rows \o rs IN \A i, j \in 1..Len(all) : i /= j => all[i][4] /= all[j][4]
Get(s, n) == {a[2] : a \in {a \in s.attr : a[1] = n}}
\* rows seen by a query: all matching ones, once each, or fewer of them when the database failed
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Same(q, w) == Len(q) = Len(w) /\ \A i \in 1..Len(q) : Count(q, q[i]) = Count(w, q[i])
Part(q, w) == \A i \in 1..Len(q) : Count(q, q[i]) <= Count(w, q[i])
Shown(r) == <<r[1], Text(r[2]), r[3]>>
DbStep(s, o) ==
  CASE o.op = "ins" -> Code(o, Change(s, o, Fresh(s, o.a[2]), [s EXCEPT !.rows = @ \o o.a[2]]))
    [] o.op = "upd" -> Code(o, Change(s, o, TRUE, [s EXCEPT !.rows = [i \in 1..Len(@) |-> IF @[i][1] = o.a[2] THEN [@[i] EXCEPT ![2] = o.a[3]] ELSE @[i]]]))
    [] o.op = "del" -> Code(o, Change(s, o, TRUE, Del(s, Match(s, LAMBDA r : r[1] = o.a[2]))))
    [] o.op = "bad" -> IF o.r[1] = 0 THEN Code(o, {s}) ELSE {}
    [] o.op = "begin" -> Code(o, Change(s, o, s.tx = 0, [s EXCEPT !.tx = 1, !.srows = s.rows, !.sattr = s.attr]))
    [] o.op = "commit" -> Code(o, Change(s, o, s.tx = 1, [s EXCEPT !.tx = 0]))
    [] o.op = "rollback" -> Code(o, Change(s, o, s.tx = 1, [s EXCEPT !.tx = 0, !.rows = s.srows, !.attr = s.sattr]))
    [] o.op = "seta" -> Change(s, o, TRUE, [s EXCEPT !.attr = {a \in @ : a[1] /= o.a[2]} \cup {<<o.a[2], o.a[3]>>}])
    [] o.op = "geta" -> LET G == Get(s, o.a[2])  want == IF G = {} THEN <<>> ELSE CHOOSE x \in G : TRUE IN
         IF o.r[1] = want /\ (want = <<>> \/ o.a[1] /= 0) THEN {s} ELSE IF o.r[1] = <<>> /\ o.a[1] /= 1 THEN {s} ELSE {}
    [] o.op = "exists" -> LET I == Match(s, LAMBDA r : r[1] = o.a[2]) IN
         IF o.r[1] = 1 THEN (IF I /= {} /\ o.a[1] /= 0 THEN {s} ELSE {}) ELSE IF o.r[1] = 0 /\ (I = {} \/ o.a[1] /= 1) THEN {s} ELSE {}
    [] o.op = "getn" -> Find1(s, o, Match(s, LAMBDA r : r[1] = o.a[2]), LAMBDA r : r[3])
    [] o.op = "gets" -> IF o.r[1] = 0 /\ o.r[2] /= <<0>> THEN {} ELSE Find1(s, o, Match(s, LAMBDA r : r[1] = o.a[2]), LAMBDA r : CText(r[2]))
    [] o.op = "getsn" -> IF o.r[1] = 0 /\ o.r[2] /= <<0>> THEN {} ELSE Find1(s, o, Match(s, LAMBDA r : r[3] = o.a[2]), LAMBDA r : CText(r[2]))
    [] o.op = "gett" -> Find1(s, o, Match(s, LAMBDA r : r[1] = o.a[2]), LAMBDA r : Text(r[2]))
    [] o.op = "gettn" -> Find1(s, o, Match(s, LAMBDA r : r[3] = o.a[2]), LAMBDA r : Text(r[2]))
    \* a query: kind 0 all rows in order, 1 by text key, 2 by number; columns k, v, n
    [] o.op = "query" -> LET sel == CASE o.a[2] = 0 -> s.rows [] o.a[2] = 1 -> SelectSeq(s.rows, LAMBDA r : r[1] = o.a[3]) [] OTHER -> SelectSeq(s.rows, LAMBDA r : r[3] = o.a[3])
                             want == [i \in 1..Len(sel) |-> Shown(sel[i])]  got == o.r[3] IN
         IF /\ o.r[1] = (IF Len(got) > 0 THEN 1 ELSE 0)           \* succeeded: there was a row
            /\ o.r[2] = (IF Len(got) > 0 THEN 3 ELSE 0)           \* number of columns
            /\ o.r[4] = 0 /\ o.r[5] = 0                           \* after the last row
            /\ o.a[1] = 1 => (IF o.a[2] = 0 THEN got = want ELSE Same(got, want))
            /\ o.a[1] = 0 => (IF o.a[4] = 0 THEN got = <<>> ELSE Len(got) <= o.a[4] /\ Part(got, want))
            /\ o.a[1] = 2 => Part(got, want)
         THEN {s} ELSE {}
    \* prepare and run directly: prepared, and result code of the run
    [] o.op = "raw" -> IF o.r[1] = 0 THEN (IF o.a[1] /= 1 THEN {s} ELSE {})
                       ELSE IF o.r[2] = 101 THEN (IF Fresh(s, o.a[2]) /\ o.a[1] /= 0 THEN {[s EXCEPT !.rows = @ \o o.a[2]]} ELSE {})
                       ELSE IF o.r[2] /= 0 /\ o.r[2] /= 100 /\ (~Fresh(s, o.a[2]) \/ o.a[1] /= 1) THEN {s} ELSE {}
    \* everything, seen directly: rows, attributes, open statements, transaction
    [] o.op = "dump" -> IF o.r = <<s.rows, o.r[2], 0, s.tx>> /\ {o.r[2][i] : i \in 1..Len(o.r[2])} = s.attr /\ Len(o.r[2]) = Cardinality(s.attr) THEN {s} ELSE {}
    \* a row added by another program
    [] o.op = "other" -> {[s EXCEPT !.rows = @ \o o.a[1]]}
=============================================================================
