------------------------------ MODULE LogLin ------------------------------
(* The logger used by several threads (C30, C32).  What syslog, the log file   *)
(* and the console received is known at the end of the history (operations     *)
(* sys, file, err): every record is delivered to each sink at some moment of   *)
(* its log statement, in the order found there.  The alarm list keeps the      *)
(* last max alarms; an alarm is added in one step.                             *)
EXTENDS Common
LastOf(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
Final(h, op) == LET I == {i \in 1..Len(h.ops) : h.ops[i].op = op} IN IF I = {} THEN <<>> ELSE h.ops[CHOOSE i \in I : TRUE].r
LLInit(h) == {[al |-> <<>>, max |-> h.init[3], fm |-> h.init[1], con |-> h.init[2], sys |-> Final(h, "sys"), file |-> Final(h, "file"), err |-> Final(h, "err"), all |-> Range(Final(h, "sys"))]}
Bit(p, b) == (p \div b) % 2 = 1
\* where the record has to go: 1 syslog, 2 alarm list, 4 log file, 8 echo of an alarm, 16 console
Todo(s, o) == {1} \cup (IF o.a[2] <= 2 THEN {2, 8} ELSE {}) \cup (IF s.fm = 1 THEN {4} ELSE {}) \cup (IF s.con = 1 THEN {16} ELSE {})
Next1(q, S) == q /= <<>> /\ Head(q) \in S
Deliver(s, o, b) == LET id == o.a[1] IN
  CASE b = 1 -> IF Next1(s.sys, {id}) THEN {[s EXCEPT !.sys = Tail(@)]} ELSE {}
    [] b = 2 -> {[s EXCEPT !.al = LastOf(Append(@, id), s.max)]}
    [] b = 4 -> IF Next1(s.file, {id}) THEN {[s EXCEPT !.file = Tail(@)]} ELSE {}
    [] b = 8 -> IF Next1(s.err, {id, id + 1000}) THEN {[s EXCEPT !.err = Tail(@)]} ELSE {}
    [] b = 16 -> IF Next1(s.err, {id}) THEN {[s EXCEPT !.err = Tail(@)]} ELSE {}
LLStep(s, o, p) ==
  CASE o.op = "log" -> IF p = 0 /\ o.a[3] = 1 /\ o.a[1] \notin s.all THEN OkR(o, <<>>, s)
         ELSE LET left == {b \in Todo(s, o) : ~Bit(p, b)} IN
              UNION {IF left = {b} THEN UNION {OkR(o, <<>>, x) : x \in Deliver(s, o, b)} ELSE UNION {Go(x, p + b) : x \in Deliver(s, o, b)} : b \in left}
    [] o.op = "max" -> OkR(o, <<>>, [s EXCEPT !.max = o.a[1]])
    [] o.op = "level" -> OkR(o, <<>>, s)
    [] o.op = "alarms" -> OkR(o, s.al, s)
    [] o.op = "sys" -> IF s.sys = <<>> THEN OkR(o, o.r, s) ELSE {}
    [] o.op = "file" -> IF s.file = <<>> THEN OkR(o, o.r, s) ELSE {}
    [] o.op = "err" -> IF s.err = <<>> THEN OkR(o, o.r, s) ELSE {}
LLOpt(s, o, p) == {}
=============================================================================
