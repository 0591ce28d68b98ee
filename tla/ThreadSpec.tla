------------------------------ MODULE ThreadSpec ------------------------------
(* Thread objects: idle -> started -> running -> finished -> (join) idle.   *)
EXTENDS Common
Idle == [st |-> "idle", v |-> 0, k |-> 0]
THInit(h) == {[i \in 0..2 |-> Idle]}
THStep(s, o, p) ==
  LET i == o.a[1] IN
  CASE o.op = "start" -> IF s[i].st = "idle" THEN OkR(o, <<>>, [s EXCEPT ![i] = [st |-> "started", v |-> o.a[2], k |-> o.a[3]]]) ELSE {}
    [] o.op = "task"  -> (CASE p = 0 -> IF s[i].st = "started" /\ s[i].v = o.a[2] /\ o.a[3] >= s[i].k - 20 /\ o.a[3] <= s[i].k + 20
                                       THEN Go([s EXCEPT ![i].st = "running"], 1) ELSE {}
                           [] p = 1 -> OkR(o, <<>>, [s EXCEPT ![i].st = "finished"]))
    [] o.op = "join"  -> IF s[i].st = "finished" THEN OkR(o, <<s[i].v * 2 + 1>>, [s EXCEPT ![i] = Idle]) ELSE {}
    [] o.op = "tdestroy" -> IF s[i].st = "idle" THEN OkR(o, <<>>, s) ELSE {}
THOpt(s, o, p) == {}
=============================================================================
