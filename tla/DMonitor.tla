------------------------------ MODULE DMonitor ------------------------------
(* Design model of the blocking containers of Interthread.h: one mutex, a    *)
(* write signal and a read signal, one action per critical section, condition *)
(* waits in two steps (release-and-enqueue, reacquire).  Elements carry a key *)
(* (a plain queue uses one key).  Constants choose the signalling discipline  *)
(* so that the same model also shows which disciplines lose wakeups.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Prog,        \* thread -> sequence of <<"w", key>>, <<"r", key>>, <<"t", key>> (timed read), <<"n", key>>, <<"low", mark>>, <<"clear", 0>>
          OnPut,       \* "signal", "broadcast", "ifempty"
          OnTake,      \* "broadcast", "signal", "none"
          Loop,        \* TRUE: the predicate is tested again after every wakeup
          Spurious,    \* spurious wakeups
          Recheck      \* TRUE: a timed reader tests the queue before it looks at the clock
VARIABLES lk, q, pc, ip, ws, rs, wk, seen, nw, out, ok
vars == <<lk, q, pc, ip, ws, rs, wk, seen, nw, out, ok>>
Th == DOMAIN Prog
Free == lk = 0
Op(t) == Prog[t][ip[t]]
Has(k) == \E i \in 1..Len(q) : q[i][1] = k
Pos(k) == CHOOSE i \in 1..Len(q) : q[i][1] = k /\ \A j \in 1..(i - 1) : q[j][1] /= k
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Init == /\ lk = 0 /\ q = <<>> /\ pc = [t \in Th |-> IF Prog[t] = <<>> THEN "end" ELSE "go"] /\ ip = [t \in Th |-> 1]
        /\ ws = {} /\ rs = {} /\ wk = {} /\ seen = [t \in Th |-> FALSE] /\ nw = 0 /\ out = <<>> /\ ok = TRUE
\* next operation
Fin(t) == [pc EXCEPT ![t] = IF ip[t] = Len(Prog[t]) THEN "end" ELSE "go"]
Adv(t) == [ip EXCEPT ![t] = IF @ = Len(Prog[t]) THEN @ ELSE @ + 1]
\* sets of threads that may be woken by one signal on waiters S
One(S) == IF S \ wk = {} THEN {{}} ELSE {{x} : x \in S \ wk}
Wake(kind, S) == IF kind = "broadcast" THEN {S \ wk} ELSE IF kind = "none" THEN {{}} ELSE One(S)
Lock(t) == pc[t] = "go" /\ Free /\ lk' = t /\ pc' = [pc EXCEPT ![t] = "in"] /\ seen' = [seen EXCEPT ![t] = FALSE] /\ UNCHANGED <<q, ip, ws, rs, wk, nw, out, ok>>
\* the signal of a write goes out after the lock has been released
Put(t) == /\ pc[t] = "in" /\ Op(t)[1] = "w" /\ lk' = 0 /\ nw' = nw + 1 /\ q' = Append(q, <<Op(t)[2], nw + 1>>)
          /\ IF OnPut = "ifempty" /\ q /= <<>> THEN pc' = Fin(t) /\ ip' = Adv(t) ELSE pc' = [pc EXCEPT ![t] = "sig"] /\ ip' = ip
          /\ UNCHANGED <<ws, rs, wk, seen, out, ok>>
Sig(t) == /\ pc[t] = "sig" /\ \E W \in Wake(IF OnPut = "ifempty" THEN "signal" ELSE OnPut, ws) : wk' = wk \cup W
          /\ pc' = Fin(t) /\ ip' = Adv(t) /\ UNCHANGED <<lk, q, ws, rs, seen, nw, out, ok>>
Take(t) == /\ pc[t] = "in" /\ Op(t)[1] \in {"r", "t", "n"}
           /\ IF Has(Op(t)[2])
              THEN /\ out' = Append(out, q[Pos(Op(t)[2])]) /\ q' = Del(q, Pos(Op(t)[2]))
                   /\ \E W \in Wake(OnTake, rs) : wk' = wk \cup W
                   /\ lk' = 0 /\ pc' = Fin(t) /\ ip' = Adv(t) /\ UNCHANGED <<ws, rs, seen, nw, ok>>
              ELSE IF Op(t)[1] = "n" \/ (~Loop /\ seen[t])
              THEN lk' = 0 /\ pc' = Fin(t) /\ ip' = Adv(t) /\ ok' = (ok /\ Op(t)[1] /= "r") /\ UNCHANGED <<q, ws, rs, wk, seen, nw, out>>
              ELSE \/ lk' = 0 /\ ws' = ws \cup {t} /\ pc' = [pc EXCEPT ![t] = "wait"] /\ seen' = [seen EXCEPT ![t] = TRUE] /\ UNCHANGED <<q, ip, rs, wk, nw, out, ok>>
                   \/ Op(t)[1] = "t" /\ lk' = 0 /\ pc' = Fin(t) /\ ip' = Adv(t) /\ UNCHANGED <<q, ws, rs, wk, seen, nw, out, ok>>   \* time is up
Low(t) == /\ pc[t] = "in" /\ Op(t)[1] = "low"
          /\ IF Len(q) <= Op(t)[2] \/ (~Loop /\ seen[t])
             THEN lk' = 0 /\ pc' = Fin(t) /\ ip' = Adv(t) /\ ok' = (ok /\ Len(q) <= Op(t)[2]) /\ UNCHANGED <<q, ws, rs, wk, seen, nw, out>>
             ELSE lk' = 0 /\ rs' = rs \cup {t} /\ pc' = [pc EXCEPT ![t] = "wait"] /\ seen' = [seen EXCEPT ![t] = TRUE] /\ UNCHANGED <<q, ip, ws, wk, nw, out, ok>>
Clear(t) == /\ pc[t] = "in" /\ Op(t)[1] = "clear" /\ out' = out \o q /\ q' = <<>> /\ \E W \in Wake(OnTake, rs) : wk' = wk \cup W
            /\ lk' = 0 /\ pc' = Fin(t) /\ ip' = Adv(t) /\ UNCHANGED <<ws, rs, seen, nw, ok>>
\* a waiter leaves the condition variable: woken, timed out, or spuriously; then it needs the mutex again
Leave(t) == /\ pc[t] = "wait" /\ (t \in wk \/ Op(t)[1] = "t" \/ Spurious)
            /\ ws' = ws \ {t} /\ rs' = rs \ {t} /\ wk' = wk \ {t}
            /\ pc' = [pc EXCEPT ![t] = IF Op(t)[1] = "t" /\ ~Recheck THEN "late" ELSE "re"] /\ UNCHANGED <<lk, q, ip, seen, nw, out, ok>>
Relock(t) == pc[t] = "re" /\ Free /\ lk' = t /\ pc' = [pc EXCEPT ![t] = "in"] /\ UNCHANGED <<q, ip, ws, rs, wk, seen, nw, out, ok>>
\* the wrong order: the clock is looked at first, the queue is not
Late(t) == /\ pc[t] = "late" /\ UNCHANGED <<lk, q, ws, rs, wk, seen, nw, out>>
           /\ \/ pc' = Fin(t) /\ ip' = Adv(t) /\ ok' = (ok /\ ~Has(Op(t)[2]))
              \/ pc' = [pc EXCEPT ![t] = "re"] /\ ip' = ip /\ ok' = ok
Next == \E t \in Th : Lock(t) \/ Put(t) \/ Sig(t) \/ Take(t) \/ Low(t) \/ Clear(t) \/ Leave(t) \/ Relock(t) \/ Late(t)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A t \in Th : SF_vars(Lock(t) \/ Relock(t)) /\ WF_vars(Put(t) \/ Sig(t) \/ Take(t) \/ Low(t) \/ Clear(t) \/ Late(t)) /\ WF_vars((t \in wk) /\ Leave(t))
\* ---- properties
Range(s) == {s[i] : i \in 1..Len(s)}
ExactlyOnce == Cardinality(Range(out) \cup Range(q)) = Len(out) + Len(q) /\ {x[2] : x \in Range(out) \cup Range(q)} = 1..nw
FifoPerKey == \A i, j \in 1..Len(out) : i < j /\ out[i][1] = out[j][1] => out[i][2] < out[j][2]
LowAndTimeAreTrue == ok       \* a return at the mark finds the queue that low, a return for time finds nothing to take, a blocking read returns something
\* nobody sleeps through its condition once everything has come to rest
AtRest == \A t \in Th : pc[t] = "end" \/ (pc[t] = "wait" /\ t \notin wk)
Vain(t) == pc[t] = "wait" /\ (IF Op(t)[1] = "low" THEN Len(q) > Op(t)[2] ELSE Op(t)[1] = "t" \/ ~Has(Op(t)[2]))
NoLostWakeup == AtRest => \A t \in Th : pc[t] = "wait" => Vain(t)
\* liveness: a thread that waits while its condition stays true gets on
Gets == \A t \in Th : []<>(pc[t] = "end" \/ Vain(t))
=============================================================================
