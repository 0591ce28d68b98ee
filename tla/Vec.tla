------------------------------- MODULE Vec -------------------------------
(* Vector<T>, BitVector and SoftVector: which object owns which block, what every alias sees, what is allocated.
   c: class (1 Vector, 2 BitVector, 3 SoftVector); s: five slots, k = 0 (no object) or 1; an object shows elements
   off+1..off+len of block b (b = 0: no memory) and owns the block or not; m: blocks, block 1 is static memory. *)
EXTENDS Integers, Sequences, TLC
None == [k |-> 0, own |-> FALSE, b |-> 0, off |-> 0, len |-> 0]
VInit(h) == {[c |-> 0, s |-> [i \in 1..5 |-> None], m |-> <<[live |-> TRUE, v |-> [i \in 1..16 |-> i]]>>]}
Ramp(v, n) == [i \in 1..n |-> (v + i - 1) % 100]
Read(t, i) == LET o == t.s[i] IN IF o.len = 0 THEN <<>> ELSE SubSeq(t.m[o.b].v, o.off + 1, o.off + o.len)
Dangling(t, i) == LET o == t.s[i] IN o.len > 0 /\ ~t.m[o.b].live
Release(t, i) == IF t.s[i].own THEN [t EXCEPT !.m[t.s[i].b].live = FALSE] ELSE t
Put(t, i, vals) == LET r == Release(t, i) IN
   IF vals = <<>> THEN [r EXCEPT !.s[i] = [None EXCEPT !.k = 1]]
   ELSE [r EXCEPT !.m = Append(@, [live |-> TRUE, v |-> vals]), !.s[i] = [k |-> 1, own |-> TRUE, b |-> Len(r.m) + 1, off |-> 0, len |-> Len(vals)]]
Alias(t, i, j, off, len) == LET r == Release(t, i) IN [r EXCEPT !.s[i] = [k |-> 1, own |-> FALSE, b |-> t.s[j].b, off |-> t.s[j].off + off, len |-> len]]
Move(t, i, j) == IF i = j THEN t ELSE [Release(t, i) EXCEPT !.s[i] = t.s[j], !.s[j].own = FALSE]
CloneTo(t, i, j) == Put(t, i, Read(t, j))
\* BitVector copies: an owner's copy is a clone, an alias's copy another alias.
Adopt(t, i, j) == IF t.s[j].own THEN CloneTo(t, i, j) ELSE IF i = j THEN t ELSE Alias(t, i, j, 0, t.s[j].len)
Store(t, i, at, vals) == IF vals = <<>> THEN t ELSE LET o == t.s[i] IN
   [t EXCEPT !.m[o.b].v = [p \in 1..Len(@) |-> IF p > o.off + at /\ p <= o.off + at + Len(vals) THEN vals[p - o.off - at] ELSE @[p]]]
Rep(v, n) == [i \in 1..n |-> v]
Do(t, op, a) ==
  CASE op = "class" -> [t EXCEPT !.c = a[1]]
    [] op = "new"   -> Put(t, a[1], Ramp(a[3], a[2]))
    [] op = "ext"   -> [t EXCEPT !.s[a[1]] = [k |-> 1, own |-> FALSE, b |-> 1, off |-> a[2], len |-> a[3]]]
    [] op = "own3"  -> [Put(t, a[1], Ramp(a[5], a[2])) EXCEPT !.s[a[1]].off = a[3], !.s[a[1]].len = a[4]]
    [] op \in {"copyc", "asgc"} -> IF t.c = 2 THEN Adopt(t, a[1], a[2]) ELSE CloneTo(t, a[1], a[2])
    [] op \in {"copyn", "asgn"} -> IF t.c = 1 THEN Move(t, a[1], a[2]) ELSE IF t.c = 2 THEN Adopt(t, a[1], a[2]) ELSE CloneTo(t, a[1], a[2])
    [] op = "asgseg" -> IF t.c = 2 THEN Alias(t, a[1], a[2], a[3], a[4]) ELSE Put(t, a[1], SubSeq(Read(t, a[2]), a[3] + 1, a[3] + a[4]))
    [] op = "seg"   -> Alias(t, a[1], a[2], a[3], a[4])
    [] op = "clseg" -> Put(t, a[1], SubSeq(Read(t, a[2]), a[3] + 1, a[3] + a[4]))
    [] op \in {"cat", "vcat"} -> Put(t, a[1], Read(t, a[2]) \o Read(t, a[3]))
    [] op = "clone" -> CloneTo(t, a[1], a[2])
    [] op = "resize" -> Put(t, a[1], Ramp(a[3], a[2]))
    [] op = "clear" -> Put(t, a[1], <<>>)
    [] op = "fill"  -> Store(t, a[1], 0, Rep(a[2], t.s[a[1]].len))
    [] op = "fillr" -> Store(t, a[1], a[3], Rep(a[2], a[4]))
    [] op = "set"   -> Store(t, a[1], a[2], <<a[3]>>)
    [] op = "cts"   -> Store(t, a[2], a[3], SubSeq(Read(t, a[1]), 1, a[4]))                    \* copyToSegment
    [] op = "sct"   -> Store(t, a[2], 0, SubSeq(Read(t, a[1]), a[3] + 1, a[3] + a[4]))         \* segmentCopyTo
    [] op = "del"   -> [Release(t, a[1]) EXCEPT !.s[a[1]] = None]
B(x) == IF x THEN 1 ELSE 0
Show(t, i) == LET o == t.s[i] IN IF o.k = 0 THEN <<0>> ELSE IF Dangling(t, i) THEN <<1, B(o.own), o.len>> ELSE <<2, B(o.own)>> \o Read(t, i)
Live(t) == Len(SelectSeq(t.m, LAMBDA x : x.live)) - 1
VStep(t, o) == LET n == Do(t, o.op, o.a) IN
   \* every live block has exactly one owner (an invariant of the specification, checked along)
   IF /\ Assert(\A b \in 2..Len(n.m) : Len(SelectSeq(n.s, LAMBDA x : x.own /\ x.b = b)) = B(n.m[b].live), "ownership")
      /\ o.r = <<Show(n, 1), Show(n, 2), Show(n, 3), Show(n, 4), Show(n, 5), Live(n)>> THEN {n} ELSE {}
=============================================================================
