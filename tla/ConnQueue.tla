------------------------------ MODULE ConnQueue ------------------------------
(* Two or three InterthreadQueues connected with iqConnect.                   *)
EXTENDS Common
CQInit(h) == {[i \in 1..h.init[1] |-> <<>>]}
RECURSIVE CQAll(_, _)
CQAll(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o <<-i>> \o CQAll(s, i + 1)
CTake(s, o, i) == OkR(o, <<Head(s[i])>>, [s EXCEPT ![i] = Tail(@)])
CQStep(s, o, p) ==
  LET i == IF o.op = "iter2" THEN 1 ELSE o.a[1] + 1 IN
  CASE o.op = "write"  -> OkR(o, <<>>, [s EXCEPT ![i] = Append(@, o.a[2])])
    [] o.op = "writef" -> OkR(o, <<>>, [s EXCEPT ![i] = <<o.a[2]>> \o @])
    [] o.op = "read"   -> IF s[i] /= <<>> THEN CTake(s, o, i) ELSE {}
    [] o.op = "readnb" -> IF s[i] /= <<>> THEN CTake(s, o, i) ELSE OkR(o, <<0>>, s)
    [] o.op = "readt"  -> IF s[i] /= <<>> THEN CTake(s, o, i) ELSE IF GaveUp(o, o.a[2]) THEN OkR(o, <<0>>, s) ELSE {}
    [] o.op = "front"  -> OkR(o, <<IF s[i] = <<>> THEN 0 ELSE Head(s[i])>>, s)
    [] o.op = "size"   -> OkR(o, <<Len(s[i])>>, s)
    [] o.op = "either" -> IF s[i] /= <<>> \/ s[o.a[2] + 1] /= <<>> THEN OkR(o, <<>>, s)
                          ELSE IF o.a[3] > 0 /\ GaveUp(o, o.a[3]) THEN OkR(o, <<>>, s) ELSE {}
    [] o.op = "iter2"  -> OkR(o, CQAll(s, 1), s)
    [] o.op = "flush"  -> OkR(o, <<>>, [s EXCEPT ![i] = <<>>])
    [] o.op = "clear"  -> Ok(o, <<>>, SortedSeq(Range(s[i])), [s EXCEPT ![i] = <<>>])
CQOpt(s, o, p) == {}
=============================================================================
