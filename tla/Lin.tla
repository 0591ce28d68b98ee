------------------------------ MODULE Lin ------------------------------
(* Trace validation of concurrent histories against an object             *)
(* specification: just-in-time linearization.  A history is a sequence of  *)
(* call / return events recorded from the real code (operations are        *)
(* described in ops); the object specification says which atomic steps an  *)
(* operation may take in which object state.                               *)
(*   InitState(h)     initial object states of history h                   *)
(*   Step(s, o, p)    set of [s, p]: what operation o, in phase p, may do   *)
(*                    in object state s; phase -1 means it has completed.  *)
(*                    An operation whose Step set is empty is blocked.     *)
(*   Opt(s, o, p)     steps it may take but need not (e.g. spurious wakeup)*)
(* A history that ends "done" must have no pending operation; one that     *)
(* ends "stuck" (no thread of the real program could continue) must leave  *)
(* every pending operation blocked.  Crashes, assertion failures, hangs    *)
(* and endless loops are behaviours of no specification.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Traces, InitState(_), Step(_,_,_), Opt(_,_,_)
VARIABLES tr, pos, st, ph

vars == <<tr, pos, st, ph>>
H == Traces[tr]
Done == -1
NoPh == [x \in {} |-> 0]

TInit == /\ tr \in 1..Len(Traces)
         /\ pos = 1
         /\ st \in InitState(Traces[tr])
         /\ ph = NoPh

Ev == H.ev[pos]
Without(f, i) == [x \in DOMAIN f \ {i} |-> f[x]]
With(f, i, v) == [x \in DOMAIN f \cup {i} |-> IF x = i THEN v ELSE f[x]]

TCall == /\ Ev.e = "c"
         /\ ph' = With(ph, Ev.i, 0)
         /\ pos' = pos + 1
         /\ UNCHANGED <<tr, st>>

TRet ==  /\ Ev.e = "r"
         /\ ph[Ev.i] = Done
         /\ ph' = Without(ph, Ev.i)
         /\ pos' = pos + 1
         /\ UNCHANGED <<tr, st>>

NeedLin == \/ Ev.e = "r" /\ ph[Ev.i] /= Done
           \/ Ev.e = "end" /\ Ev.k = "stuck"

TLin ==  /\ NeedLin
         /\ \E i \in DOMAIN ph :
              /\ ph[i] /= Done
              /\ \E x \in Step(st, H.ops[i], ph[i]) \cup Opt(st, H.ops[i], ph[i]) :
                    /\ st' = x.s
                    /\ ph' = [ph EXCEPT ![i] = x.p]
         /\ UNCHANGED <<tr, pos>>

Accepting == /\ Ev.e = "end"
             /\ \/ Ev.k = "done" /\ DOMAIN ph = {}
                \/ /\ Ev.k = "stuck"
                   /\ \A i \in DOMAIN ph : ph[i] /= Done /\ Step(st, H.ops[i], ph[i]) = {}

TAccept == /\ Accepting
           /\ pos' = Len(H.ev) + 1
           /\ ph' = NoPh /\ UNCHANGED <<tr, st>>
           /\ PrintT(<<"ACC", H.id>>)

TNext == /\ pos <= Len(H.ev)
         /\ (TCall \/ TRet \/ TLin \/ TAccept)

TSpec == TInit /\ [][TNext]_vars

\* set PROGRESS=1 to see how far a rejected history got
=============================================================================
