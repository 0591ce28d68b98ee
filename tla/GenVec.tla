------------------------------ MODULE GenVec ------------------------------
(* Histories for the real vectors, generated from Vec: TLC walks the graph of *)
(* ownership and aliasing configurations (the values are left out of the      *)
(* view) and prints one operation sequence for every transition of it.        *)
EXTENDS Vec, FiniteSets, Json
CONSTANTS Class, Slots, Depth, Small
VARIABLES t, path
S == 1..Slots
Full(i) == t.s[i].k = 1
Ok(i) == Full(i) /\ ~Dangling(t, i)
Size(i) == t.s[i].len
Parts(n) == IF Small THEN {<<0, n>>, <<n \div 2, n - n \div 2>>} ELSE {<<0, n>>, <<0, n \div 2>>, <<n \div 2, n - n \div 2>>, <<n, 0>>}
Lens == IF Small THEN {2} ELSE {0, 2, 3}
Make(f) == [op : {"new"}, a : {<<f, n, 10 * f>> : n \in Lens}] \cup [op : {"ext"}, a : {<<f, 3, 2>>}] \cup [op : {"own3"}, a : {<<f, 4, 1, 2, 50>>}]
From1(f, j) == [op : {"copyc", "copyn"}, a : {<<f, j>>}] \cup [op : IF Class = 2 THEN {"seg", "clseg"} ELSE {"seg"}, a : {<<f, j>> \o p : p \in Parts(Size(j))}]
Cat(f, j, k) == IF Class = 3 THEN {} ELSE [op : {"cat"}, a : {<<f, j, k>>}]
Chg(i) == [op : {"resize"}, a : {<<i, n, 70>> : n \in Lens}] \cup [op : {"clear", "del"}, a : {<<i>>}] \cup
          (IF Ok(i) /\ Size(i) > 0 THEN [op : {"fill"}, a : {<<i, 99>>}] \cup [op : {"set"}, a : {<<i, 0, 98>>}] ELSE {})
Asg(i, j) == [op : {"asgc", "asgn", "clone"}, a : {<<i, j>>}] \cup [op : {"asgseg"}, a : {<<i, j>> \o p : p \in Parts(Size(j))}]
VCat(i, j, k) == [op : {"vcat"}, a : {<<i, j, k>>}]
Mem(i) == [b |-> t.s[i].b, lo |-> t.s[i].off, hi |-> t.s[i].off + Size(i)]
Apart(i, j) == LET x == Mem(i)  y == Mem(j) IN x.b /= y.b \/ x.hi <= y.lo \/ y.hi <= x.lo
Into(i, j) == IF Apart(i, j) /\ Size(i) > 0 /\ Size(i) <= Size(j) THEN [op : {"cts"}, a : {<<i, j, Size(j) - Size(i), Size(i)>>}] \cup [op : {"sct"}, a : {<<i, j, 0, Size(i)>>}] ELSE {}
Free == {f \in S : ~Full(f)}
First == CHOOSE f \in Free : \A g \in Free : f <= g
Ops == (IF Free = {} THEN {} ELSE Make(First) \cup UNION {From1(First, j) : j \in {j \in S : Ok(j)}} \cup UNION {Cat(First, x[1], x[2]) : x \in {x \in S \X S : Ok(x[1]) /\ Ok(x[2])}})
       \cup UNION {Chg(i) : i \in {i \in S : Full(i)}}
       \cup UNION {Asg(x[1], x[2]) : x \in {x \in S \X S : Full(x[1]) /\ Ok(x[2])}}
       \cup UNION {VCat(x[1], x[2], x[3]) : x \in {x \in S \X S \X S : Full(x[1]) /\ Ok(x[2]) /\ Ok(x[3]) /\ Size(x[2]) + Size(x[3]) <= 6}}
       \cup UNION {Into(x[1], x[2]) : x \in {x \in S \X S : Ok(x[1]) /\ Ok(x[2])}}
GInit == t = [(CHOOSE s \in VInit(0) : TRUE) EXCEPT !.c = Class] /\ path = <<>>
GNext == Len(path) < Depth /\ \E o \in Ops : t' = Do(t, o.op, o.a) /\ path' = Append(path, <<o.op>> \o o.a) /\ PrintT("PATH" \o ToJson(path'))
GSpec == GInit /\ [][GNext]_<<t, path>>
\* the block an object shows, named by the first slot that shows the same one
Name(i) == LET o == t.s[i] IN IF o.b <= 1 THEN o.b ELSE 1 + (CHOOSE j \in S : t.s[j].b = o.b /\ \A k \in S : t.s[k].b = o.b => j <= k)
View == [i \in S |-> LET o == t.s[i] IN <<o.k, o.own, o.len, IF o.b = 0 THEN 0 ELSE Name(i), IF o.len > 0 THEN o.off ELSE 0, Dangling(t, i)>>]
=============================================================================
