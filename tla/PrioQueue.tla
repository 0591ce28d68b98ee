------------------------------ MODULE PrioQueue ------------------------------
(* InterthreadPriorityQueue: a bag of elements with priorities; the next one *)
(* is any that no other precedes (init[1] = 1: reversed comparison).         *)
EXTENDS Common
PQInit(h) == {[q |-> {}, rev |-> h.init[1] = 1]}
Best(s) == {e \in s.q : \A f \in s.q : IF s.rev THEN f[2] <= e[2] ELSE f[2] >= e[2]}
Ids(s) == {e[1] : e \in s.q}
PTake(s, o) == UNION {OkR(o, <<e[1]>>, [s EXCEPT !.q = @ \ {e}]) : e \in Best(s)}
PQStep(s, o, p) ==
  CASE o.op = "write"  -> OkR(o, <<>>, [s EXCEPT !.q = @ \cup {<<o.a[1], o.a[2]>>}])
    [] o.op = "read"   -> PTake(s, o)
    [] o.op = "readnb" -> IF s.q = {} THEN OkR(o, <<0>>, s) ELSE PTake(s, o)
    [] o.op = "readt"  -> IF s.q /= {} THEN PTake(s, o) ELSE IF GaveUp(o, o.a[1]) THEN OkR(o, <<0>>, s) ELSE {}
    [] o.op = "front"  -> IF s.q = {} THEN OkR(o, <<0>>, s) ELSE UNION {OkR(o, <<e[1]>>, s) : e \in Best(s)}
    [] o.op = "size"   -> OkR(o, <<Cardinality(s.q)>>, s)
    [] o.op \in {"clear", "destroy"} -> Ok(o, <<>>, SortedSeq(Ids(s)), [s EXCEPT !.q = {}])
PQOpt(s, o, p) == {}
=============================================================================
