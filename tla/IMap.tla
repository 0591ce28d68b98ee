------------------------------ MODULE IMap ------------------------------
(* InterthreadMap / InterthreadMap1: an atomic map that owns its elements   *)
(* (init[1] = 1: plain values, nothing is ever deleted).                    *)
EXTENDS Common
Range2(f) == {f[x] : x \in DOMAIN f}
IMInit(h) == {[m |-> [k \in {} |-> 0], own |-> h.init[1] = 0]}
Has(s, k) == k \in DOMAIN s.m
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Dels(s, S) == IF s.own THEN SortedSeq(S) ELSE <<>>
RECURSIVE Flat(_, _)
Flat(f, ks) == IF ks = <<>> THEN <<>> ELSE <<Head(ks), f[Head(ks)]>> \o Flat(f, Tail(ks))
Taking(s, o) == OkR(o, <<1, s.m[o.a[1]]>>, [s EXCEPT !.m = Drop(@, o.a[1])])
Peeking(s, o) == OkR(o, <<1, s.m[o.a[1]]>>, s)
Reading(s, o) == OkR(o, <<s.m[o.a[1]]>>, s)
IMStep(s, o, p) ==
  LET k == o.a[1] IN
  CASE o.op = "write"  -> Ok(o, <<>>, IF Has(s, k) THEN Dels(s, {s.m[k]}) ELSE <<>>, [s EXCEPT !.m = Put(@, k, o.a[2])])
    [] o.op = "getnb"  -> IF Has(s, k) THEN Taking(s, o) ELSE OkR(o, <<0, 0>>, s)
    [] o.op = "peeknb" -> IF Has(s, k) THEN Peeking(s, o) ELSE OkR(o, <<0, 0>>, s)
    [] o.op = "get"    -> IF Has(s, k) THEN Taking(s, o) ELSE {}
    [] o.op = "peek"   -> IF Has(s, k) THEN Peeking(s, o) ELSE {}
    [] o.op = "gett"   -> IF Has(s, k) THEN Taking(s, o) ELSE IF GaveUp(o, o.a[2]) THEN OkR(o, <<0, 0>>, s) ELSE {}
    [] o.op = "peekt"  -> IF Has(s, k) THEN Peeking(s, o) ELSE IF GaveUp(o, o.a[2]) THEN OkR(o, <<0, 0>>, s) ELSE {}
    [] o.op = "remove" -> IF Has(s, k) THEN Ok(o, <<1>>, Dels(s, {s.m[k]}), [s EXCEPT !.m = Drop(@, k)]) ELSE OkR(o, <<0>>, s)
    [] o.op = "readnb" -> IF Has(s, k) THEN Reading(s, o) ELSE OkR(o, <<0>>, s)
    [] o.op = "read"   -> IF Has(s, k) THEN Reading(s, o) ELSE {}
    [] o.op = "readt"  -> IF Has(s, k) THEN Reading(s, o) ELSE IF GaveUp(o, o.a[2]) THEN OkR(o, <<0>>, s) ELSE {}
    [] o.op = "size"   -> OkR(o, <<Cardinality(DOMAIN s.m)>>, s)
    [] o.op = "iter"   -> OkR(o, Flat(s.m, SortedSeq(DOMAIN s.m)), s)
    [] o.op = "destroy" -> Ok(o, <<>>, Dels(s, Range2(s.m)), [s EXCEPT !.m = [x \in {} |-> 0]])
IMOpt(s, o, p) == {}
=============================================================================
