------------------------------ MODULE Mutex ------------------------------
(* Recursive mutexes, ScopedLockMultiple and Signal (condition variable).  *)
(* State: o[m] owner (-1: free), c[m] acquisitions and l[m] the lines they  *)
(* were made at (0: not told), x[m] data it protects,                       *)
(* w threads waiting for the signal, k those of them that have been woken. *)
EXTENDS Common
NM == 4
MInit(h) == {[o |-> [m \in 0..NM-1 |-> -1], c |-> [m \in 0..NM-1 |-> 0], l |-> [m \in 0..NM-1 |-> <<>>], x |-> [m \in 0..NM-1 |-> 0], w |-> {}, k |-> {}]}
Free(s, m) == s.o[m] = -1
Mine(s, o, m) == s.o[m] = o.t
AcqL(s, t, m, n) == [s EXCEPT !.o[m] = t, !.c[m] = @ + 1, !.l[m] = Append(@, n)]
Acq(s, t, m) == AcqL(s, t, m, 0)
Rel(s, m) == [s EXCEPT !.o[m] = IF s.c[m] = 1 THEN -1 ELSE @, !.c[m] = @ - 1, !.l[m] = SubSeq(@, 1, Len(@) - 1)]
\* threads with odd numbers tell ScopedLockMultiple no file and line, the others that of the form they use
MLine(o) == IF o.t % 2 = 1 THEN 0 ELSE Len(o.a)
\* what the holder sees: the count, twice, and where the (at least five) first acquisitions were made
Holds(s, m, r) == Len(r) >= 2 /\ r[1] = s.c[m] /\ r[2] = s.c[m]
                  /\ LET q == SubSeq(r, 3, Len(r)) IN Len(q) >= (IF s.c[m] < 5 THEN s.c[m] ELSE 5) /\ Len(q) <= s.c[m] /\ q = SubSeq(s.l[m], 1, Len(q))
RECURSIVE AcqAll(_, _, _, _)
AcqAll(s, t, M, n) == IF M = {} THEN s ELSE LET m == CHOOSE m \in M : TRUE IN
                   AcqAll(IF s.o[m] = t THEN s ELSE AcqL(s, t, m, n), t, M \ {m}, n)
\* times and timeouts are recorded clipped
TimeUp(o) == o.t0 >= 2000000000 \/ IF o.a[1] >= 1000000 THEN o.t1 >= 1000000000 ELSE o.t1 - o.t0 >= o.a[1] * 1000
MStep(s, o, p) ==
  CASE o.op = "lock"   -> IF Free(s, o.a[1]) \/ Mine(s, o, o.a[1]) THEN OkR(o, <<>>, AcqL(s, o.t, o.a[1], o.a[2])) ELSE {}
    [] o.op = "try"    -> IF Free(s, o.a[1]) \/ Mine(s, o, o.a[1]) THEN OkR(o, <<1>>, AcqL(s, o.t, o.a[1], o.a[2])) ELSE OkR(o, <<0>>, s)
    [] o.op = "timed"  -> IF Free(s, o.a[1]) \/ Mine(s, o, o.a[1]) THEN OkR(o, <<1>>, AcqL(s, o.t, o.a[1], o.a[3]))
                          ELSE IF GaveUp(o, o.a[2]) THEN OkR(o, <<0>>, s) ELSE {}
    [] o.op = "unlock" -> IF Mine(s, o, o.a[1]) THEN OkR(o, <<>>, Rel(s, o.a[1])) ELSE {}
    [] o.op = "inc"    -> IF Mine(s, o, o.a[1]) THEN OkR(o, <<s.x[o.a[1]]>>, [s EXCEPT !.x[o.a[1]] = @ + 1]) ELSE {}
    [] o.op = "cnt"    -> IF Mine(s, o, o.a[1]) THEN (IF o.fin = 0 \/ Holds(s, o.a[1], o.r) THEN OkR(o, o.r, s) ELSE {}) ELSE {}
    \* all named mutexes at once; until then it may take and must give back single ones
    [] o.op = "multi"  -> LET M == Range(o.a) IN
                          (IF \A m \in M : Free(s, m) \/ Mine(s, o, m) THEN OkR(o, <<>>, AcqAll(s, o.t, M, MLine(o))) ELSE {})
                          \cup UNION {Go(Rel(s, m), 0) : m \in {m \in M : Mine(s, o, m)}}
    [] o.op = "multiend" -> LET M == {m \in Range(o.a) : Mine(s, o, m)} IN
                          IF M = {} THEN OkR(o, <<>>, s) ELSE UNION {Go(Rel(s, m), 0) : m \in M}
    \* signal
    [] o.op \in {"wait", "waitt"} ->
        (CASE p = 0 /\ o.op = "waitt" /\ o.a[1] <= 0 -> IF Mine(s, o, 0) THEN OkR(o, <<>>, s) ELSE {}
           [] p = 0 -> IF Mine(s, o, 0) THEN Go([Rel(s, 0) EXCEPT !.w = @ \cup {o.t}], 1) ELSE {}
           [] p = 1 -> (IF o.t \in s.k THEN Go([s EXCEPT !.w = @ \ {o.t}, !.k = @ \ {o.t}], 2) ELSE {})
                       \cup (IF o.op = "waitt" /\ (o.fin = 0 \/ TimeUp(o)) THEN Go([s EXCEPT !.w = @ \ {o.t}, !.k = @ \ {o.t}], 2) ELSE {})
           [] p = 2 -> IF Free(s, 0) THEN (IF o.op = "waitt" /\ o.punct = 1 /\ o.fin = 1 /\ o.a[1] < 1000000 /\ o.t0 < 2000000000 /\ o.t1 - o.t0 > o.a[1] * 1000 + 2000 THEN {} ELSE OkR(o, <<>>, Acq(s, o.t, 0))) ELSE {})
    [] o.op = "signal" -> IF s.w \ s.k = {} THEN OkR(o, <<>>, s) ELSE UNION {OkR(o, <<>>, [s EXCEPT !.k = @ \cup S]) : S \in SUBSET (s.w \ s.k) \ {{}}}
    [] o.op = "bcast"  -> OkR(o, <<>>, [s EXCEPT !.k = s.w])
MOpt(s, o, p) ==
  CASE o.op = "multi" -> UNION {Go(AcqL(s, o.t, m, MLine(o)), 0) : m \in {m \in Range(o.a) : Free(s, m)}}
    [] o.op \in {"wait", "waitt"} /\ p = 1 /\ o.sp = 1 -> Go([s EXCEPT !.w = @ \ {o.t}, !.k = @ \ {o.t}], 2)
    [] OTHER -> {}
=============================================================================
