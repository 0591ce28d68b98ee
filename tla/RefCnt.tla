------------------------------ MODULE RefCnt ------------------------------
(* Reference counted pointers.  State: p[<<thread, slot>>] the object each    *)
(* pointer refers to (0: none); slot 0..2 private, 8 the copies of a dup;     *)
(* thread 0 slots 0..1 are the shared pointers.  An operation deletes exactly *)
(* the objects that had a pointer before it and have none after it.           *)
EXTENDS Common
Slots == (0..5) \X {0, 1, 2}
RCInit(h) == {[p |-> [x \in Slots |-> 0], one |-> h.init[1] = 1]}
Live(f) == {f[x] : x \in Slots} \ {0}
\* the operation moves to pointer assignment f: what lost its last pointer is deleted, nothing else
To(o, r, s, f) == Ok(o, r, SortedSeq(Live(s.p) \ Live(f)), [s EXCEPT !.p = f])
Set(s, x, v) == [s.p EXCEPT ![x] = v]
Count(s, v) == IF v = 0 THEN 0 ELSE Cardinality({x \in Slots : s.p[x] = v})
\* a reported count: exact when one thread runs; other threads' temporaries may add to it otherwise (3 per thread at most)
Counts(s, v, extra) == IF v = 0 THEN {0} ELSE IF s.one THEN {Count(s, v) + extra} ELSE Count(s, v) + extra .. Count(s, v) + extra + 9
RCStep(s, o, p) ==
  LET A == <<o.t, o.a[1]>>
      B == <<o.t, o.a[2]>>
      G(i) == <<0, i>> IN
  CASE o.op = "new"  -> To(o, <<o.a[2]>>, s, Set(s, A, o.a[2]))
    [] o.op = "copy" -> To(o, <<s.p[B]>>, s, Set(s, A, s.p[B]))
    [] o.op \in {"free", "null"} -> To(o, <<0>>, s, Set(s, A, 0))
    [] o.op = "dup"  -> UNION {OkR(o, <<s.p[A], 1, c>>, s) : c \in Counts(s, s.p[A], 3)}
    [] o.op = "enddup" -> OkR(o, <<>>, s)
    [] o.op = "use"  -> OkR(o, <<s.p[A], IF s.p[A] = 0 THEN 1 ELSE 0>>, s)
    [] o.op = "count" -> UNION {OkR(o, <<c>>, s) : c \in Counts(s, s.p[A], 0)}
    [] o.op = "pub"  -> To(o, <<>>, s, Set(s, G(o.a[1]), s.p[B]))
    [] o.op = "take" -> To(o, <<s.p[G(o.a[2])]>>, s, Set(s, A, s.p[G(o.a[2])]))
    [] o.op = "gnew" -> To(o, <<>>, s, Set(s, G(o.a[1]), o.a[2]))
    [] o.op = "gnull" -> To(o, <<>>, s, Set(s, G(o.a[1]), 0))
    \* a.2 more pointers at once (one thread only)
    [] o.op = "many" -> LET v == s.p[A]  n == Count(s, v) IN OkR(o, IF v = 0 THEN <<0, 0>> ELSE <<n + o.a[2], n>>, s)
    [] o.op = "exit" -> To(o, <<>>, s, [x \in Slots |-> IF x[1] = o.t THEN 0 ELSE s.p[x]])
    [] o.op = "exitg" -> To(o, <<>>, s, [x \in Slots |-> 0])
RCOpt(s, o, p) == {}
=============================================================================
