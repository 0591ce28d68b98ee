------------------------------ MODULE Shared ------------------------------
(* Shared helpers used by several threads: memory statistics (now, total and  *)
(* logged objects per kind), the console streams (lines in the order of the   *)
(* atomic prints), one compiled regular expression (a pure function).         *)
EXTENDS Common
SHInit(h) == {[now |-> <<0, 0>>, tot |-> <<0, 0>>, key |-> <<0, 0>>, out |-> <<<<>>, <<>>>>, tab |-> h.init]}
Inc(q, k, d) == [q EXCEPT ![k] = @ + d]
SHStep(s, o, p) ==
  CASE o.op = "mnew" -> IF p = 0 THEN Go([s EXCEPT !.now = Inc(@, o.a[1] + 1, 1), !.tot = Inc(@, o.a[1] + 1, 1)], 1)
                        ELSE OkR(o, <<>>, [s EXCEPT !.key = Inc(@, o.a[1] + 1, o.a[2])])
    [] o.op = "mdel" -> IF p = 0 THEN Go([s EXCEPT !.now = Inc(@, o.a[1] + 1, -1)], 1)
                        ELSE OkR(o, <<>>, [s EXCEPT !.key = Inc(@, o.a[1] + 1, 0 - o.a[2])])
    [] o.op = "mread" -> OkR(o, <<s.now[1], s.tot[1], s.now[2], s.tot[2]>>, s)
    [] o.op = "mkeys" -> OkR(o, s.key, s)
    [] o.op = "out"  -> OkR(o, <<>>, [s EXCEPT !.out[o.a[1] + 1] = Append(@, o.a[2])])
    [] o.op = "all"  -> OkR(o, s.out[o.a[1] + 1], s)
    [] o.op = "match" -> OkR(o, <<s.tab[10 * o.a[1] + o.a[2] + 1]>>, s)
SHOpt(s, o, p) == {}
=============================================================================
