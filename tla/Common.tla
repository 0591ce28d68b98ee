------------------------------ MODULE Common ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* result and deletions of an operation record (an operation that never returned has no observed result)
Res(o, r) == o.fin = 0 \/ o.r = r
Del(o, d) == IF o.fin = 0 THEN TRUE ELSE o.dl = d
\* the operation completes with result r, deleting exactly d (sorted), in new state s
Ok(o, r, d, s) == IF Res(o, r) /\ Del(o, d) THEN {[s |-> s, p |-> -1]} ELSE {}
OkR(o, r, s) == Ok(o, r, <<>>, s)
Go(s, p) == {[s |-> s, p |-> p]}
\* a timed operation that gives up: not before its timeout (the library stops 2 ms short by design),
\* and, when the clock moves only while everybody waits, not later either
GaveUp(o, ms) == \/ o.fin = 0
                 \/ o.t0 >= 2000000000
                 \/ ms >= 1000000 /\ o.t1 >= 2000000000        \* recorded times and timeouts are clipped
                 \/ /\ ms < 1000000 /\ o.t1 - o.t0 >= ms * 1000 - 2000
                    /\ o.punct = 1 => o.t1 - o.t0 <= ms * 1000 + 2000
=============================================================================
