----------------------------- MODULE ConfLin -----------------------------
(* The configuration table shared by threads (C23): a map of four keys, the   *)
(* last two with schema defaults.  Every operation is atomic.                 *)
EXTENDS Common
CLInit(h) == {<<0, 0, 0, 0>>}            \* 0: not stored
CLDef == <<0, 0, 20, 30>>
CLStep(s, o, p) == LET k == o.a[1] IN
  CASE o.op = "set" -> OkR(o, <<1>>, [s EXCEPT ![k] = o.a[2]])
    [] o.op = "rem" -> OkR(o, <<IF s[k] = 0 THEN 0 ELSE 1>>, [s EXCEPT ![k] = 0])
    [] o.op = "get" -> OkR(o, <<IF s[k] = 0 THEN CLDef[k] ELSE s[k]>>, s)
    [] o.op = "def" -> OkR(o, <<IF s[k] = 0 /\ CLDef[k] = 0 THEN 0 ELSE 1>>, s)
    [] o.op = "purge" -> OkR(o, <<>>, s)
    [] o.op = "all" -> OkR(o, s, s)
CLOpt(s, o, p) == {}
=============================================================================
