------------------------------- MODULE Self -------------------------------
(* Program registration and signal handlers (C51).  fs is the directory: the  *)
(* files in it with what they hold (the number of a process, or 0: something  *)
(* else).  Every process has the file of its registration (<<>> or <<name>>), *)
(* the files registered for removal and its signal handlers in order.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Dead == [id |-> 0, pf |-> <<>>, rm |-> {}, hd |-> <<>>]
SeInit(h) == {[p |-> [i \in 1..4 |-> Dead], fs |-> {}, core |-> <<>>, wp |-> 0]}
Slashes(a) == {i \in 1..Len(a) : a[i] = 47}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Base(a) == IF Slashes(a) = {} THEN a ELSE SubSeq(a, MaxOf(Slashes(a)) + 1, Len(a))
PidFile(a) == Base(a) \o <<46, 112, 105, 100>>
Has(s, f) == \E x \in s.fs : x[1] = f
Put(s, f, v) == [s EXCEPT !.fs = {x \in @ : x[1] /= f} \cup {<<f, v>>}]
Rm(s, F) == [s EXCEPT !.fs = {x \in @ : x[1] \notin F}]
Bye(s, i) == [s EXCEPT !.p[i] = Dead]
\* what process i removes when it exits or is ended by a handled signal
Clean(s, i) == IF s.p[i].pf = <<>> THEN s ELSE Rm(s, s.p[i].rm \cup {s.p[i].pf[1]})
Calm == {17, 18, 20, 21, 22, 23, 28}        \* do not end a process
Handled(s, i, g) == s.p[i].pf /= <<>> /\ g \in 1..63 \ (Calm \cup {9, 19, 32, 33})
Mine(s, i, g) == SelectSeq(s.p[i].hd, LAMBDA x : x[1] = g)
\* each handler in order; one registered before the program still finds the pid file
Calls(s, i, g) == LET M == Mine(s, i, g) IN [k \in 1..Len(M) |-> 10 * g + M[k][2] + (IF s.p[i].pf /= <<>> /\ M[k][3] = 0 /\ Handled(s, i, g) THEN 5 ELSE 0)]
Cores == {3, 4, 5, 6, 7, 8, 11, 24, 25, 31}
CoreName(s, i) == IF s.p[i].pf = <<>> THEN <<99, 111, 114, 101>> ELSE IF s.wp = 1 THEN s.core \o <<46, 80>> ELSE s.core
Quiet(r) == r = <<0, 0, <<>>, <<>>>>
Ended(r, code) == r = <<2, code, <<>>, <<>>>>
\* ended by signal g: the handlers run once each in order; what was registered is removed
SigOut(s, i, g, r) ==
  LET any == Handled(s, i, g) \/ Mine(s, i, g) /= <<>>
      cores == IF any /\ g \in Cores THEN <<CoreName(s, i)>> ELSE <<>> IN
  IF r = <<1, g, Calls(s, i, g), cores>> THEN {Bye(IF Handled(s, i, g) THEN Clean(s, i) ELSE s, i)} ELSE {}
\* registration: refused when the file is there (1) or cannot be made (2)
Reg(s, i, a, r) ==
  LET f == PidFile(a) IN
  IF Has(s, f) THEN (IF Ended(r, 1) THEN {Bye(s, i)} ELSE {})
  ELSE IF Len(f) > 255 THEN (IF Ended(r, 2) THEN {Bye(s, i)} ELSE {})
  ELSE IF Quiet(r) THEN {[Put(s, f, s.p[i].id) EXCEPT !.p[i].pf = <<f>>]} ELSE {}
\* several at once: as if one after the other
RECURSIVE RegAll(_, _, _, _)
RegAll(S, todo, a, r) == IF todo = {} THEN S ELSE UNION {RegAll(UNION {Reg(s, a[k][1] + 1, a[k][2], r[k]) : s \in S}, todo \ {k}, a, r) : k \in todo}
SeStep(s, o) ==
  CASE o.op = "conf" -> {[s EXCEPT !.core = o.a[1], !.wp = o.a[2]]}
    [] o.op = "start" -> {[s EXCEPT !.p[o.a[1] + 1] = [Dead EXCEPT !.id = o.a[2]]]}
    [] o.op = "reg" -> Reg(s, o.a[1] + 1, o.a[2], o.r)
    [] o.op = "regs" -> RegAll({s}, 1..Len(o.a), o.a, o.r)
    [] o.op = "regro" -> IF Has(s, PidFile(o.a[2])) THEN Reg(s, o.a[1] + 1, o.a[2], o.r) ELSE IF Ended(o.r, 2) THEN {Bye(s, o.a[1] + 1)} ELSE {}
    \* no room for its contents: not registered
    [] o.op = "regfull" -> IF Has(s, PidFile(o.a[2])) THEN Reg(s, o.a[1] + 1, o.a[2], o.r) ELSE IF Ended(o.r, 2) THEN {Bye(s, o.a[1] + 1)} ELSE {}
    \* ended by a signal from the moment it is handled
    [] o.op = "regkill" -> LET i == o.a[1] + 1 IN IF o.r[1] = 1 THEN UNION {SigOut(t, i, o.r[2], o.r) : t \in Reg(s, i, o.a[2], <<0, 0, <<>>, <<>>>>)} ELSE Reg(s, i, o.a[2], o.r)
    [] o.op = "file" -> IF Quiet(o.r) THEN {[s EXCEPT !.p[o.a[1] + 1].rm = @ \cup {o.a[2]}]} ELSE {}
    [] o.op = "hand" -> IF Quiet(o.r) THEN {[s EXCEPT !.p[o.a[1] + 1].hd = IF o.a[2] \in 1..63 THEN Append(@, <<o.a[2], o.a[3], Len(s.p[o.a[1] + 1].pf)>>) ELSE @]} ELSE {}
    [] o.op = "mk" -> {Put(s, o.a[1], 0)}
    [] o.op = "rm" -> {Rm(s, {o.a[1]})}
    [] o.op = "sig" -> LET i == o.a[1] + 1  g == o.a[2] IN
         IF g \in Calm THEN (IF Quiet(o.r) THEN {[s EXCEPT !.p[i].rm = @ \cup {<<102, 48>>}]} ELSE {}) ELSE SigOut(s, i, g, o.r)
    [] o.op = "exit" -> IF Ended(o.r, o.a[2]) THEN {Bye(Clean(s, o.a[1] + 1), o.a[1] + 1)} ELSE {}
    \* a process it forked ends: nothing changes
    [] o.op = "child" -> IF Quiet(o.r) THEN {s} ELSE {}
    [] o.op = "ls" -> IF {o.r[k] : k \in 1..Len(o.r)} = s.fs /\ Len(o.r) = Cardinality(s.fs) THEN {s} ELSE {}
=============================================================================
