------------------------------ MODULE Sem ------------------------------
EXTENDS Common
SInit(h) == {FALSE}
SStep(s, o, p) ==
  CASE o.op = "post"   -> OkR(o, <<>>, TRUE)
    [] o.op = "get"    -> IF s THEN OkR(o, <<>>, FALSE) ELSE {}
    [] o.op = "semtry" -> OkR(o, <<IF s THEN 1 ELSE 0>>, FALSE)
SOpt(s, o, p) == {}
=============================================================================
