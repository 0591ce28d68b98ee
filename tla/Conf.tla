------------------------------- MODULE Conf -------------------------------
(* The configuration table: contents (C20), visibility of changes made by     *)
(* others (C21), validation (C22), generated SQL and TeX (C24); lists of      *)
(* key=value items (C27).  Strings are sequences of bytes.                    *)
EXTENDS Misc, FiniteSets
Max2(a, b) == IF a > b THEN a ELSE b
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Sub(s, a, b) == IF b < a THEN <<>> ELSE SubSeq(s, a, b)
From(s, a) == Sub(s, a, Len(s))
Cut(s) == LET Z == {i \in 1..Len(s) : s[i] = 0} IN IF Z = {} THEN s ELSE Sub(s, 1, (CHOOSE i \in Z : \A j \in Z : i <= j) - 1)
\* position of the first c at or after i, Len(s)+1 when there is none
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) \/ s[i] = c THEN (IF i > Len(s) THEN Len(s) + 1 ELSE i) ELSE Find(s, c, i + 1)
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
RECURSIVE Split(_, _)
Split(s, c) == LET i == Find(s, c, 1) IN IF i > Len(s) THEN <<s>> ELSE <<Sub(s, 1, i - 1)>> \o Split(From(s, i + 1), c)
Words(s) == SelectSeq(Split(s, 32), LAMBDA w : w /= <<>>)
IsDig(c) == c \in 48..57
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
\* ---- numbers as the C library reads them
IsSp(c) == c \in 9..13 \/ c = 32
RECURSIVE SkipSp(_, _)
SkipSp(s, i) == IF i <= Len(s) /\ IsSp(s[i]) THEN SkipSp(s, i + 1) ELSE i
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, base) == IF i <= Len(s) /\ Digit(s[i]) < base THEN RunEnd(s, i + 1, base) ELSE i
RECURSIVE ValOf(_, _, _, _, _)
ValOf(s, i, e, base, acc) == IF i >= e THEN acc ELSE ValOf(s, i + 1, e, base, acc * base + Digit(s[i]))
\* 64-bit numbers are four 16-bit words, most significant first; <<>>: too large
RECURSIVE WordsFrom(_, _, _, _, _)
WordsFrom(s, i, e, base, w) == IF i >= e \/ w = <<>> THEN w ELSE
   LET t4 == w[4] * base + Digit(s[i])  t3 == w[3] * base + t4 \div 65536  t2 == w[2] * base + t3 \div 65536  t1 == w[1] * base + t2 \div 65536 IN
   WordsFrom(s, i + 1, e, base, IF t1 > 32767 THEN <<>> ELSE <<t1, t2 % 65536, t3 % 65536, t4 % 65536>>)
NegW(w) == LET v(k) == 65535 - w[k]  c3 == v(4) = 65535  c2 == c3 /\ v(3) = 65535  c1 == c2 /\ v(2) = 65535
               inc(k, c) == (v(k) + (IF c THEN 1 ELSE 0)) % 65536 IN <<inc(1, c1), inc(2, c2), inc(3, c3), inc(4, TRUE)>>
Zero4 == <<0, 0, 0, 0>>
RECURSIVE TextPos(_)
TextPos(w) == IF w = Zero4 THEN <<>> ELSE
   LET d1 == w[1]  d2 == (d1 % 10) * 65536 + w[2]  d3 == (d2 % 10) * 65536 + w[3]  d4 == (d3 % 10) * 65536 + w[4] IN
   TextPos(<<d1 \div 10, d2 \div 10, d3 \div 10, d4 \div 10>>) \o <<48 + (d4 % 10)>>
TextW(w) == IF w = Zero4 THEN <<48>> ELSE IF w[1] > 32767 THEN <<45>> \o TextPos(NegW(w)) ELSE TextPos(w)
\* <<known, words>>: not known when too large (or with a prefix only newer libraries read)
NumB(s, any) == LET i0 == SkipSp(s, 1)
                    neg == i0 <= Len(s) /\ s[i0] = 45
                    i == IF i0 <= Len(s) /\ s[i0] \in {43, 45} THEN i0 + 1 ELSE i0
                    z == any /\ i <= Len(s) /\ s[i] = 48
                    hex == z /\ i + 2 <= Len(s) /\ s[i + 1] \in {88, 120} /\ Digit(s[i + 2]) < 16
                    base == IF hex THEN 16 ELSE IF z THEN 8 ELSE 10
                    b == IF hex THEN i + 2 ELSE i
                    e == RunEnd(s, b, base)
                    w == WordsFrom(s, b, e, base, Zero4) IN
   IF w = <<>> \/ (z /\ i < Len(s) /\ s[i + 1] \in {66, 98}) THEN <<FALSE, Zero4>>
   ELSE <<TRUE, IF neg THEN NegW(w) ELSE w>>
Num(s) == NumB(s, TRUE)
\* decimal text in thousandths: <<known, thousandths>>
Dec(s) == LET i0 == SkipSp(s, 1)
              neg == i0 <= Len(s) /\ s[i0] = 45
              b == IF i0 <= Len(s) /\ s[i0] \in {43, 45} THEN i0 + 1 ELSE i0
              e == RunEnd(s, b, 10)
              f == IF e <= Len(s) /\ s[e] = 46 THEN e + 1 ELSE e
              g == RunEnd(s, f, 10)
              d(k) == IF f > e /\ f + k < g THEN Digit(s[f + k]) ELSE 0
              m == ValOf(s, b, e, 10, 0) * 1000 + d(0) * 100 + d(1) * 10 + d(2) IN
   IF e - b > 4 \/ (\E i \in 1..Len(s) : s[i] \in {69, 101, 88, 120, 80, 112, 73, 105, 78, 110}) THEN <<FALSE, 0>>
   ELSE <<TRUE, IF neg THEN 0 - m ELSE m>>
\* ---- LIKE, ignoring the case of letters
\* the positions of t where the rest of the text may start once the first i-1 characters of the pattern are used up
RECURSIVE LikeFrom(_, _, _, _)
LikeFrom(p, i, t, J) == IF J = {} THEN FALSE ELSE IF i > Len(p) THEN Len(t) + 1 \in J
   ELSE IF p[i] = 37 THEN LET m == CHOOSE m \in J : \A j \in J : m <= j IN
          (IF i = Len(p) THEN TRUE ELSE LikeFrom(p, i + 1, t, m..(Len(t) + 1)))
   ELSE LikeFrom(p, i + 1, t, {j + 1 : j \in {j \in J : j <= Len(t) /\ (p[i] = 95 \/ Lower(p[i]) = Lower(t[j]))}})
Like(p, i, t, j) == LikeFrom(p, i, t, {j})
\* ---- table contents
CoInit(h) == {[sch |-> <<>>, db |-> <<>>, kv |-> <<>>, bz |-> 0]}
SchOf(s, k) == {i \in 1..Len(s.sch) : s.sch[i][1] = k}
InSch(s, k) == SchOf(s, k) /= {}
Ent(s, k) == s.sch[CHOOSE i \in SchOf(s, k) : TRUE]
Def(s, k) == k \in DOMAIN s.db \/ InSch(s, k)
Val(s, k) == IF k \in DOMAIN s.db THEN s.db[k] ELSE Ent(s, k)[2]
Put(s, k, v) == [s EXCEPT !.db = (k :> v) @@ @]
Rem(s, k) == [s EXCEPT !.db = [x \in DOMAIN @ \ {k} |-> @[x]]]
Disabled == <<40, 100, 105, 115, 97, 98, 108, 101, 100, 41>>
Line(s, k) == k \o <<32>> \o (IF s.db[k] = <<>> THEN Disabled ELSE s.db[k]) \o <<10>>
RECURSIVE IsLines(_, _)
IsLines(t, M) == IF M = <<>> THEN t = <<>> ELSE \E i \in 1..Len(M) : Prefix(M[i], t) /\ IsLines(From(t, Len(M[i]) + 1), Sub(M, 1, i - 1) \o From(M, i + 1))
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
Text(n) == LET D == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>
               RECURSIVE T(_)
               T(m) == IF m < 10 THEN <<D[m + 1]>> ELSE Append(T(m \div 10), D[(m % 10) + 1]) IN IF n < 0 THEN <<45>> \o T(0 - n) ELSE T(n)
\* ---- validation: "y", "n", or "?" where the property leaves it open
All(v, P(_)) == \A i \in 1..Len(v) : P(v[i])
Digits(v) == v /= <<>> /\ All(v, IsDig)
And(a, b) == IF a = "n" \/ b = "n" THEN "n" ELSE IF a = "?" \/ b = "?" THEN "?" ELSE "y"
Or(a, b) == IF a = "y" \/ b = "y" THEN "y" ELSE IF a = "?" \/ b = "?" THEN "?" ELSE "n"
YN(b) == IF b THEN "y" ELSE "n"
Between(v, lo, hi) == IF ~Digits(v) THEN "n" ELSE IF Len(v) > 1 /\ v[1] = 48 THEN "?" ELSE IF Len(v) > 6 THEN "n" ELSE LET n == ValOf(v, 1, Len(v) + 1, 10, 0) IN YN(lo <= n /\ n <= hi)
RECURSIVE AndAll(_)
AndAll(q) == IF q = <<>> THEN "y" ELSE And(Head(q), AndAll(Tail(q)))
IP(v) == LET p == Split(v, 46) IN IF Len(p) /= 4 THEN "n" ELSE AndAll([i \in 1..4 |-> Between(p[i], 0, 255)])
Port(v) == Between(v, 1, 65535)
At2(v, c, L(_), Rr(_)) == LET i == Find(v, c, 1) IN IF i > Len(v) THEN "n" ELSE And(L(Sub(v, 1, i - 1)), Rr(From(v, i + 1)))
AlNum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
HostCh(c) == AlNum(c) \/ c \in {95, 46, 45}
PathCh(c) == HostCh(c) \/ c = 47
Host(v) == Or(YN(v /= <<>> /\ All(v, HostCh)), IP(v))
IPPort(v) == At2(v, 58, IP, Port)
MIP(v) == IF Has(v, 32) /\ \E w \in RangeOf(Split(v, 32)) : w = <<>> THEN "?" ELSE LET p == Split(v, 32) IN AndAll([i \in 1..Len(p) |-> Or(IP(p[i]), IPPort(p[i]))])
Cidr(v) == At2(v, 47, IP, LAMBDA x : Between(x, 0, 32))
Choices(vv) == LET p == Split(vv, 44) IN {Sub(p[i], 1, Find(p[i], 124, 1) - 1) : i \in 1..Len(p)}
\* a plain decimal number in thousandths: <<kind, thousandths>>
PNum(v, fl) == LET neg == v /= <<>> /\ v[1] = 45
                   u == IF neg THEN Tail(v) ELSE v
                   p == Split(u, 46)
                   frac == IF Len(p) = 2 THEN p[2] ELSE <<>>
                   f3 == Sub(frac \o <<48, 48, 48>>, 1, 3)
                   m == ValOf(p[1], 1, Len(p[1]) + 1, 10, 0) * 1000 + ValOf(f3, 1, 4, 10, 0) IN
   IF u = <<>> \/ Len(p) > 2 \/ (Len(p) = 2 /\ ~fl) \/ ~All(p[1] \o frac, IsDig) THEN <<"n", 0>>
   ELSE IF p[1] = <<>> \/ (Len(p) = 2 /\ frac = <<>>) \/ Len(frac) > 3 \/ (Len(p[1]) > 1 /\ p[1][1] = 48) THEN <<"?", 0>>
   ELSE IF Len(p[1]) > 6 THEN <<"big", 0>>
   ELSE <<"y", IF neg THEN 0 - m ELSE m>>
RangeTxt(vv) == Sub(vv, 1, Find(vv, 40, 1) - 1)
RMin(vv) == LET t == RangeTxt(vv) IN Sub(t, 1, Find(t, 58, 1) - 1)
RMax(vv) == LET t == RangeTxt(vv) IN From(t, Find(t, 58, 1) + 1)
RStep(vv) == LET i == Find(vv, 40, 1) IN IF i > Len(vv) THEN <<49>> ELSE Sub(vv, i + 1, Find(vv, 41, i) - 1)
\* whole numbers of up to 64 bits as words: <<>> when too large
IntW(v) == LET neg == v[1] = 45  u == IF neg THEN Tail(v) ELSE v  w == WordsFrom(u, 1, Len(u) + 1, 10, Zero4) IN IF w = <<>> \/ ~neg THEN w ELSE NegW(w)
RECURSIVE LeU(_, _)
LeU(a, b) == a = <<>> \/ Head(a) < Head(b) \/ (Head(a) = Head(b) /\ LeU(Tail(a), Tail(b)))
LeW(a, b) == LET f(x) == <<(x[1] + 32768) % 65536>> \o Tail(x) IN LeU(f(a), f(b))
InRange(vv, v) == LET fl == Has(vv, 46)  n == PNum(v, fl) IN
   IF ~fl /\ n[1] \in {"y", "big"} THEN LET w == IntW(v) IN YN(w /= <<>> /\ LeW(IntW(RMin(vv)), w) /\ LeW(w, IntW(RMax(vv)))) ELSE
   IF n[1] = "big" THEN "n" ELSE IF n[1] /= "y" THEN n[1] ELSE YN(PNum(RMin(vv), TRUE)[2] <= n[2] /\ n[2] <= PNum(RMax(vv), TRUE)[2])
Valid(e, v, info) == LET t == e[4]  vv == e[5] IN
   IF Has(v, 0) THEN "n"
   ELSE IF v = <<>> /\ t \in {1, 3, 5, 7, 9, 12, 14, 16, 18} THEN "y"
   ELSE IF v = <<>> /\ t \notin {18, 19} THEN "n"
   ELSE CASE t = 0 -> YN(v \in {<<48>>, <<49>>})
          [] t \in {1, 2} -> YN(v \in Choices(vv))
          [] t \in {3, 4} -> Cidr(v)
          [] t \in {5, 6} -> YN(All(v, PathCh))
          [] t \in {7, 8} -> At2(v, 58, Host, Port)
          [] t \in {9, 10} -> IP(v)
          [] t = 11 -> IPPort(v)
          [] t \in {12, 13} -> MIP(v)
          [] t \in {14, 15} -> Port(v)
          [] t \in {16, 17} -> IF info = -1 THEN "?" ELSE YN(info = 1)
          [] t \in {18, 19} -> YN(Matches(<<e[6], e[7], e[8], 0, 0, 0, v>>))
          [] t = 20 -> InRange(vv, v)
\* ---- generated SQL: rows <<key, value, static, optional, comment>>
SqlOk(s, rows, r) == LET old == {rows[i][1] : i \in 1..Len(rows)}  new == {i \in 1..Len(s.sch) : s.sch[i][1] \notin old} IN
   /\ r[1] = 1 /\ r[2] = 1 /\ Len(r[3]) = Len(rows) + Cardinality(new)
   /\ \A i \in 1..Len(rows) : rows[i] \in RangeOf(r[3])
   /\ \A i \in new : LET e == s.sch[i] IN \E j \in 1..Len(r[3]) : LET q == r[3][j] IN q[1] = e[1] /\ q[2] = e[2] /\ q[3] = e[3] /\ Contains(q[5], e[5])
Section(vis) == CASE vis = 1 -> 0 [] vis \in {0, 2, 3} -> 1 [] OTHER -> 2
TexOk(s, r) == Len(r[1]) = Len(s.sch) /\ \A i \in 1..Len(s.sch) : <<Section(s.sch[i][4]), s.sch[i][1]>> \in RangeOf(r[1])
\* ---- key=value
Item(m, t) == LET i == Find(t, 61, 1) IN IF i > Len(t) THEN m ELSE (Sub(t, 1, i - 1) :> From(t, i + 1)) @@ m
RECURSIVE Items(_, _)
Items(m, q) == IF q = <<>> THEN m ELSE Items(Item(m, Head(q)), Tail(q))
KNum(v) == NumB(v, FALSE)
\* ----
CoStep(s, o) ==
  CASE o.op \in {"open", "sch"} -> {[s EXCEPT !.sch = o.a[1]]}
    \* another program holds the write lock (1) or keeps everybody out (2)
    [] o.op = "busy" -> {[s EXCEPT !.bz = o.a[1]]}
    [] s.bz > 0 /\ o.op \in {"set", "setn", "rem"} -> If(o.r = <<0>>, s)
    [] s.bz = 2 /\ o.op \in {"num", "bool", "flt", "vec", "vecs", "defs", "all", "find"} -> {s}
    [] s.bz = 2 /\ o.op = "str" -> If(o.r = <<0>> \/ o.r = <<1, Val(s, o.a[1])>> \/ (InSch(s, o.a[1]) /\ o.r = <<1, Ent(s, o.a[1])[2]>>), s)
    [] o.op = "set" -> If(o.r = <<1>>, Put(s, o.a[1], o.a[2]))
    [] o.op = "setn" -> If(o.r = <<1>>, Put(s, o.a[1], TextW(o.a[2])))
    [] o.op = "rem" -> If(o.r = <<B2(o.a[1] \in DOMAIN s.db)>>, Rem(s, o.a[1]))
    [] o.op = "purge" -> {s}
    [] o.op = "defs" -> If(o.r = <<B2(Def(s, o.a[1]))>>, s)
    [] o.op \in {"str", "num", "bool", "flt", "vec", "vecs"} /\ ~Def(s, o.a[1]) -> If(o.r = <<0>>, s)
    [] o.op = "str" -> If(o.r = <<1, Val(s, o.a[1])>>, s)
    [] o.op = "num" -> LET n == Num(Val(s, o.a[1])) IN If(IF n[1] THEN o.r = <<1, n[2]>> ELSE o.r[1] > 0, s)
    [] o.op = "bool" -> LET n == Num(Val(s, o.a[1])) IN If(IF n[1] THEN o.r = <<1, B2(n[2] /= Zero4)>> ELSE o.r[1] = 1, s)
    [] o.op = "flt" -> LET n == Dec(Val(s, o.a[1])) IN If(IF n[1] THEN o.r[1] = 1 /\ o.r[2] - n[2] \in -1..1 ELSE o.r[1] > 0, s)
    [] o.op = "vec" -> LET v == Val(s, o.a[1])  w == Words(v)  n == [i \in 1..Len(w) |-> Num(w[i])] IN
         If(IF (\E i \in 1..Len(v) : v[i] = 0 \/ v[i] \in 9..13) \/ \E i \in 1..Len(w) : ~n[i][1] THEN o.r[1] = 1 ELSE o.r = <<1, [i \in 1..Len(w) |-> SubSeq(n[i][2], 3, 4)], Len(w)>>, s)
    [] o.op = "vecs" -> LET v == Val(s, o.a[1]) IN If(IF Has(v, 0) THEN o.r[1] = 1 ELSE o.r = <<1, Words(v)>>, s)
    [] o.op = "all" -> If(Len(o.r[1]) = Cardinality(DOMAIN s.db) /\ RangeOf(o.r[1]) = {<<k, 1, s.db[k]>> : k \in DOMAIN s.db}, s)
    [] o.op = "find" -> LET p == <<37>> \o o.a[1] \o <<37>> IN If(IsLines(o.r[1], [i \in 1..Cardinality({k \in DOMAIN s.db : Like(p, 1, Cut(k), 1)}) |-> Line(s, SeqOfSet({k \in DOMAIN s.db : Like(p, 1, Cut(k), 1)})[i])]), s)
    [] o.op = "insch" -> If(o.r = <<B2(InSch(s, o.a[1]))>>, s)
    [] o.op = "static" -> If(o.r = <<IF InSch(s, o.a[1]) THEN Ent(s, o.a[1])[3] ELSE 0>>, s)
    [] o.op = "similar" -> LET S == {i \in 1..Len(s.sch) : Contains(s.sch[i][1], o.a[1])} IN If(Len(o.r[1]) = Cardinality(S) /\ RangeOf(o.r[1]) = {<<s.sch[i][1], s.sch[i][2]>> : i \in S}, s)
    [] o.op = "cross" -> If(o.r = <<IF o.a[2] = 1 THEN <<o.a[1], <<120>>>> ELSE <<>>>>, s)
    [] o.op = "valid" -> LET u == IF InSch(s, o.a[1]) THEN Valid(Ent(s, o.a[1]), o.a[2], o.a[3]) ELSE "n" IN If(o.r \in {<<0>>, <<1>>} /\ (u = "?" \/ o.r = <<B2(u = "y")>>), s)
    [] o.op = "minmax" -> LET vv == Ent(s, o.a[1])[5] IN If(o.r = <<RMin(vv), RMax(vv), RStep(vv)>>, s)
    [] o.op = "sql" -> If(SqlOk(s, o.a[1], o.r), s)
    [] o.op = "tex" -> If(TexOk(s, o.r), s)
    [] o.op = "items" -> {[s EXCEPT !.kv = Items(@, Split(o.a[1], 32))]}
    [] o.op = "item" -> {[s EXCEPT !.kv = Item(@, o.a[1])]}
    [] o.op \in {"get", "strb"} -> If(o.r = (IF o.a[1] \in DOMAIN s.kv THEN <<1, s.kv[o.a[1]]>> ELSE <<0>>), s)
    [] o.op = "numb" -> If(IF o.a[1] \notin DOMAIN s.kv THEN o.r = <<0>> ELSE LET n == KNum(s.kv[o.a[1]]) IN IF n[1] THEN o.r = <<1, n[2]>> ELSE o.r[1] > 0, s)
    [] o.op = "numv" -> If(IF o.a[1] \notin DOMAIN s.kv THEN o.r = <<0, Zero4, 1>> ELSE LET n == KNum(s.kv[o.a[1]]) IN IF n[1] THEN o.r = <<1, n[2], 1>> ELSE o.r[1] = 1, s)
\* ---- C21: for every key the values it had, with the time each began; what each table has written and purged
CvDef(k) == CASE k = 3 -> 100 [] k = 4 -> 200 [] OTHER -> 0
\* a history is a sequence of <<time, event number, value>>, value -1 when the key is not stored
CvInit(h) == {[n |-> 0, hist |-> [k \in 1..4 |-> <<<<-1000000, 0, -1>>>>], own |-> [t \in 1..3 |-> [k \in 1..4 |-> 0]], lk |-> 0]}
Last(q) == q[Len(q)]
Change(s, t, k, v) == [s EXCEPT !.n = @ + 1, !.hist[k] = Append(@, <<t, s.n + 1, v>>)]
\* values current at a moment after both t - 3000 and the table's last own write or purge, up to t
Vals(s, i, k, t) == LET h == s.hist[k]  n == Len(h) IN {h[j][3] : j \in {j \in 1..n : j = n \/ (h[j + 1][1] > t - 3000 /\ h[j + 1][2] > s.own[i][k])}}
Read(v, k) == IF v = -1 THEN CvDef(k) ELSE v
CvStep(s, o) == LET t == o.a[1]  i == o.a[2]  k == o.a[3] IN
  CASE o.op = "rset" -> {Change(s, t, k, o.a[4])}
    \* another program keeps everybody out of the database: a read then may answer anything, but must not be remembered
    [] o.op = "lock" -> {[s EXCEPT !.lk = i]}
    [] o.op = "tget" /\ s.lk = 1 -> {s}
    [] o.op = "rdel" -> {Change(s, t, k, -1)}
    [] o.op = "tset" -> If(o.r = <<1>>, [Change(s, t, k, o.a[4]) EXCEPT !.own[i][k] = s.n + 1])
    [] o.op = "trem" -> If(o.r = <<B2(Last(s.hist[k])[3] /= -1)>>, [Change(s, t, k, -1) EXCEPT !.own[i][k] = s.n + 1])
    [] o.op = "tpurge" -> {[s EXCEPT !.n = @ + 1, !.own[i] = [x \in 1..4 |-> s.n + 1]]}
    [] o.op = "tget" -> LET V == {Read(v, k) : v \in Vals(s, i, k, t)} IN If(o.r[1] \in V \/ (o.r[1] = -1 /\ \E v \in V : v /= 0), s)
=============================================================================
