------------------------------ MODULE Report ------------------------------
(* Reporting counters (C26).  total: increments since the counter was created *)
(* or cleared; low: a bound on what is stored.  A commit stores at least what *)
(* was counted when it took the batch.  While a clear is in progress the      *)
(* stored value may be seen before or after it.  Names 5 and 6 hold maxima.   *)
(* Name 7 is not created at the start: what is counted before it exists may be *)
(* lost, what is counted after its creation (sure) is not.                     *)
EXTENDS Common
K == 1..7
Z == [k \in K |-> 0]
RPInit(h) == {[total |-> Z, sure |-> Z, made |-> 0, low |-> Z, clr |-> Z, snap |-> [t \in 0..8 |-> Z], fail |-> h.init[1]]}
Cnt(k) == k \notin {5, 6}
Failed(s, o) == IF s.fail = 1 /\ Res(o, <<0>>) THEN OkR(o, <<0>>, s) ELSE {}
Names(o) == IF o.op = "clear" THEN {o.a[1]} ELSE K
Drop(s, N) == LET z(f) == [k \in K |-> IF k \in N /\ Cnt(k) THEN 0 ELSE f[k]] IN
  [s EXCEPT !.total = z(@), !.sure = z(@), !.low = z(@), !.snap = [t \in 0..8 |-> z(s.snap[t])], !.clr = [k \in K |-> IF k \in N /\ Cnt(k) THEN @[k] + 1 ELSE @[k]]]
ClrDone(s, N) == [s EXCEPT !.clr = [k \in K |-> IF k \in N /\ Cnt(k) THEN @[k] - 1 ELSE @[k]], !.total = [k \in K |-> IF k \in N /\ ~Cnt(k) THEN 0 ELSE @[k]]]
RPStep(s, o, p) ==
  CASE o.op = "create" -> OkR(o, <<1>>, IF o.a[1] = 7 THEN [s EXCEPT !.made = 1] ELSE s)
    [] o.op = "incr" -> LET k == o.a[1]  n == IF k /= 7 \/ s.made = 1 THEN 1 ELSE 0 IN OkR(o, <<1>>, [s EXCEPT !.total[k] = @ + 1, !.sure[k] = @ + n])
    [] o.op = "incrn" -> OkR(o, <<1>>, [s EXCEPT !.total[o.a[1]] = @ + o.a[2], !.sure[o.a[1]] = @ + o.a[2]])
    [] o.op = "max" -> OkR(o, <<1>>, [s EXCEPT !.total[o.a[1]] = Max(@, o.a[2])]) \cup Failed(s, o)
    [] o.op \in {"clear", "clearall"} -> IF p = 0 THEN (IF Res(o, <<1>>) THEN Go(Drop(s, Names(o)), 1) ELSE {}) \cup Failed(s, o) ELSE OkR(o, <<1>>, ClrDone(s, Names(o)))
    [] o.op = "commit" -> IF p = 0 THEN (IF Res(o, <<1>>) THEN Go([s EXCEPT !.snap[o.t] = [k \in K |-> IF Cnt(k) THEN s.sure[k] ELSE s.total[k]]], 1) ELSE {}) \cup Failed(s, o)
                          ELSE OkR(o, <<1>>, [s EXCEPT !.low = [k \in K |-> Max(@[k], s.snap[o.t][k])]])
    [] o.op = "read" -> LET k == o.a[1] IN
         IF o.fin = 0 THEN {} ELSE
         IF k = 7 /\ s.made = 0 THEN OkR(o, <<-7>>, s) ELSE
         IF s.clr[k] > 0 THEN (IF Len(o.r) = 1 /\ o.r[1] >= 0 THEN OkR(o, o.r, s) ELSE {})
         ELSE IF ~Cnt(k) THEN OkR(o, <<s.total[k]>>, s)
         ELSE IF s.low[k] <= o.r[1] /\ o.r[1] <= s.total[k] THEN OkR(o, o.r, [s EXCEPT !.low[k] = o.r[1]]) ELSE {}
    [] o.op = "running" -> OkR(o, <<0>>, s)
RPOpt(s, o, p) == {}
=============================================================================
