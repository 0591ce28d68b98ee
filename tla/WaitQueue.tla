------------------------------ MODULE WaitQueue ------------------------------
(* InterthreadQueueWithWait: FIFO plus a wait for a low-water mark.          *)
EXTENDS Queue
WQInit(h) == QInit(h)
WQStep(q, o, p) == IF o.op = "waitlow" THEN (IF Len(q) <= o.a[1] THEN OkR(o, <<>>, q) ELSE {}) ELSE QStep(q, o, p)
WQOpt(q, o, p) == {}
=============================================================================
