------------------------------ MODULE Queue ------------------------------
(* InterthreadQueue: an unbounded FIFO of owned elements.                  *)
EXTENDS Common
QInit(h) == {<<>>}
RECURSIVE SumOf(_)
SumOf(q) == IF q = <<>> THEN 0 ELSE 2^(Head(q) % 20) + SumOf(Tail(q))
Taken(q, o) == OkR(o, <<Head(q)>>, Tail(q))
QStep(q, o, p) ==
  CASE o.op = "write"  -> OkR(o, <<>>, Append(q, o.a[1]))
    [] o.op = "writef" -> OkR(o, <<>>, <<o.a[1]>> \o q)
    [] o.op = "read"   -> IF q /= <<>> THEN Taken(q, o) ELSE {}
    [] o.op = "readnb" -> IF q /= <<>> THEN Taken(q, o) ELSE OkR(o, <<0>>, q)
    [] o.op = "readt"  -> IF q /= <<>> THEN Taken(q, o)
                          ELSE IF GaveUp(o, o.a[1]) THEN OkR(o, <<0>>, q) ELSE {}
    [] o.op = "front"  -> OkR(o, <<IF q = <<>> THEN 0 ELSE Head(q)>>, q)
    [] o.op = "size"   -> OkR(o, <<Len(q)>>, q)
    [] o.op = "total"  -> OkR(o, <<SumOf(q)>>, q)
    [] o.op = "iter"   -> OkR(o, q, q)
    [] o.op = "flush"  -> OkR(o, <<>>, <<>>)
    [] o.op \in {"clear", "destroy"} -> Ok(o, <<>>, SortedSeq(Range(q)), <<>>)
QOpt(q, o, p) == {}
=============================================================================
