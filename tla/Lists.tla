------------------------------ MODULE Lists ------------------------------
(* PointerFIFO, PtrList and SingleLinkList: a sequence of <<element, size>>. *)
EXTENDS Integers, Sequences, TLC
LInit(h) == {<<>>}
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q)[2] + Total(Tail(q))
If(c, q) == IF c THEN {q} ELSE {}
Id(q, i) == IF i \in 1..Len(q) THEN q[i][1] ELSE 0
LStep(q, o) ==
  CASE o.op = "pb"    -> {Append(q, <<o.a[1], 0>>)}
    [] o.op = "pf"    -> {<<<<o.a[1], 0>>>> \o q}
    [] o.op = "pbs"   -> {Append(q, o.a)}
    [] o.op = "pfs"   -> {<<o.a>> \o q}
    [] o.op = "popf"  -> If(o.r = <<Id(q, 1)>>, IF q = <<>> THEN q ELSE Tail(q))
    [] o.op = "popd"  -> If(o.r = <<Id(q, 1), 0>>, IF q = <<>> THEN q ELSE Tail(q))       \* and detached
    [] o.op = "popb"  -> If(o.r = <<Id(q, Len(q))>>, IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1))
    [] o.op = "front" -> If(o.r = <<Id(q, 1)>>, q)
    [] o.op = "back"  -> If(o.r = <<Id(q, Len(q))>>, q)
    [] o.op = "size"  -> If(o.r = <<Len(q)>>, q)
    [] o.op = "total" -> If(o.r = <<Total(q)>>, q)
    [] o.op = "all"   -> If(o.r = [i \in 1..Len(q) |-> q[i][1]], q)
    \* a.2 times put and get with four elements in turn: the storage may grow for one more element, but not with the number of calls
    [] o.op = "cycle" -> LET n == o.a[2]  all == q \o [i \in 1..n |-> <<o.a[1] + ((i - 1) % 4), 0>>] IN
         If(o.r[1] <= 8 /\ o.r[2] = [i \in 1..n |-> all[i][1]], SubSeq(all, n + 1, Len(all)))
    \* a.1 elements put, then everything taken: the count with them, what was there first, how many of them came in order, nothing left
    [] o.op = "grow"  -> If(o.r = <<Len(q) + o.a[1], [i \in 1..Len(q) |-> q[i][1]], o.a[1], 0, 0>>, <<>>)
    [] OTHER -> {}
=============================================================================
