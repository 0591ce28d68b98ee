------------------------------ MODULE RWLockSpec ------------------------------
EXTENDS Common
\* w: writer or -1; r: multiset of readers as a function thread -> count
RWInit(h) == {[w |-> -1, r |-> [t \in 0..8 |-> 0], x |-> 0]}
NoReader(s) == \A t \in DOMAIN s.r : s.r[t] = 0
RD(s, o) == [s EXCEPT !.r[o.t] = @ + 1]
WR(s, o) == [s EXCEPT !.w = o.t]
RWStep(s, o, p) ==
  CASE o.op = "rlock" -> IF s.w = -1 THEN OkR(o, <<>>, RD(s, o)) ELSE {}
    [] o.op = "wlock" -> IF s.w = -1 /\ NoReader(s) THEN OkR(o, <<>>, WR(s, o)) ELSE {}
    [] o.op = "tryr"  -> IF s.w = -1 THEN OkR(o, <<1>>, RD(s, o)) ELSE OkR(o, <<0>>, s)
    [] o.op = "tryw"  -> IF s.w = -1 /\ NoReader(s) THEN OkR(o, <<1>>, WR(s, o)) ELSE OkR(o, <<0>>, s)
    [] o.op = "unlock" -> IF s.w = o.t THEN OkR(o, <<>>, [s EXCEPT !.w = -1])
                          ELSE IF s.r[o.t] > 0 THEN OkR(o, <<>>, [s EXCEPT !.r[o.t] = @ - 1]) ELSE {}
    [] o.op = "inc"   -> IF s.w = o.t THEN OkR(o, <<s.x>>, [s EXCEPT !.x = @ + 1]) ELSE {}
    [] o.op = "get"   -> IF s.r[o.t] > 0 THEN OkR(o, <<s.x>>, s) ELSE {}
RWOpt(s, o, p) == {}
=============================================================================
