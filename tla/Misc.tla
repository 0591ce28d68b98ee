------------------------------- MODULE Misc -------------------------------
(* Fixed point numbers (C49); statistics, bit sets, initialised scalars, memory statistics (C52); regular expressions (C53). *)
EXTENDS Integers, Sequences, TLC
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
\* ---- natural numbers as 12-bit limbs, least significant first
Big(n) == <<n % 4096, (n \div 4096) % 4096, n \div 16777216>>
At(x, i) == IF i \in 1..Len(x) THEN x[i] ELSE 0
RECURSIVE SumOf(_, _)
SumOf(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumOf(f, n - 1)
RECURSIVE Carry(_, _, _)
Carry(x, i, c) == IF i > Len(x) THEN (IF c = 0 THEN <<>> ELSE <<c % 4096>> \o Carry(x, i, c \div 4096)) ELSE <<(x[i] + c) % 4096>> \o Carry(x, i + 1, (x[i] + c) \div 4096)
Mul(x, y) == Carry([k \in 1..(Len(x) + Len(y)) |-> SumOf(LAMBDA i : At(x, i) * At(y, k + 1 - i), Len(x))], 1, 0)
RECURSIVE Cmp(_, _, _)
Cmp(x, y, i) == IF i = 0 THEN 0 ELSE IF At(x, i) /= At(y, i) THEN At(x, i) - At(y, i) ELSE Cmp(x, y, i - 1)
Lt(x, y) == Cmp(x, y, Mx(Len(x), Len(y))) < 0
Le(x, y) == Cmp(x, y, Mx(Len(x), Len(y))) <= 0
Sc == <<0, 16>>              \* 65536
Shift(n) == Mul(Big(n), Sc)
Neg(a, b) == (a < 0) /= (b < 0)
\* the product a*b/65536 rounded towards minus infinity
IsProd(a, b, r) == LET M == Mul(Big(Abs(a)), Big(Abs(b))) IN
   IF a = 0 \/ b = 0 THEN r = 0
   ELSE IF ~Neg(a, b) THEN r >= 0 /\ Le(Shift(r), M) /\ Lt(M, Shift(r + 1))
   ELSE r < 0 /\ Lt(Shift(0 - r - 1), M) /\ Le(M, Shift(0 - r))
\* the quotient a*65536/b rounded towards zero
IsQuot(a, b, r) == LET N == Shift(Abs(a))  q == Abs(r)  B == Big(Abs(b)) IN
   /\ r = 0 \/ ((r < 0) <=> Neg(a, b))
   /\ Le(Mul(Big(q), B), N) /\ Lt(N, Mul(Big(q + 1), B))
\* a real number scaled by 65536: <<negative, integer part, 30 bits of fraction, more>>; the raw values nearest to it
Half == 536870912
Nearest(x) == LET up == x[3] > Half \/ (x[3] = Half /\ x[4] = 1)  tie == x[3] = Half /\ x[4] = 0
                  m == IF tie THEN {x[2], x[2] + 1} ELSE IF up THEN {x[2] + 1} ELSE {x[2]} IN
   IF x[1] = 1 THEN {0 - k : k \in m} ELSE m
\* -1, 0, 1: an integer compared with such a number
CmpS(n, x) == LET frac == x[3] > 0 \/ x[4] = 1 IN
   IF x[1] = 0 THEN (IF n > x[2] THEN 1 ELSE IF n < x[2] THEN -1 ELSE IF frac THEN -1 ELSE 0)
   ELSE (IF 0 - n > x[2] THEN -1 ELSE IF 0 - n < x[2] THEN 1 ELSE IF frac THEN 1 ELSE 0)
B2(b) == IF b THEN 1 ELSE 0
Tri(c) == <<B2(c > 0), B2(c < 0), B2(c = 0)>>
QuotZ(a, b) == LET q == Abs(a) \div Abs(b) IN IF Neg(a, b) THEN 0 - q ELSE q
\* ---- 64-bit words, as four 16-bit words, most significant first
WAdd(x, y, c0) == LET s4 == x[4] + y[4] + c0  s3 == x[3] + y[3] + s4 \div 65536  s2 == x[2] + y[2] + s3 \div 65536  s1 == x[1] + y[1] + s2 \div 65536 IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
WNot(x) == [i \in 1..4 |-> 65535 - x[i]]
WSub(x, y) == WAdd(x, WNot(y), 1)
\* x as a number of b bits, sign extended when signed
Fit(x, b, sg) == LET m == IF b = 8 THEN x[4] % 256 ELSE x[4]
                     neg == sg = 1 /\ (CASE b = 8 -> m >= 128 [] b = 16 -> m >= 32768 [] b = 32 -> x[3] >= 32768 [] OTHER -> FALSE)
                     e == IF neg THEN 65535 ELSE 0 IN
   CASE b = 8 -> <<e, e, e, IF neg THEN m + 65280 ELSE m>> [] b = 16 -> <<e, e, e, m>> [] b = 32 -> <<e, e, x[3], x[4]>> [] b = 64 -> x
One == <<0, 0, 0, 1>>
Pow(n) == 2 ^ n
\* ---- regular expressions: the end positions of matches of node n in s beginning at i
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
RECURSIVE Ends(_, _, _, _)
RECURSIVE CatEnds(_, _, _, _, _)
RECURSIVE RepEnds(_, _, _, _, _, _)
Ends(n, s, i, ic) ==
  CASE n[1] = 0 -> IF i <= Len(s) /\ (s[i] = n[2] \/ (ic = 1 /\ Lower(s[i]) = Lower(n[2]))) THEN {i + 1} ELSE {}
    [] n[1] = 1 -> IF i <= Len(s) THEN {i + 1} ELSE {}
    [] n[1] = 2 -> IF i > Len(s) THEN {} ELSE LET In(c) == \E k \in 1..Len(n[3]) : c \in n[3][k][1]..n[3][k][2]
                     hit == In(s[i]) \/ (ic = 1 /\ (In(Lower(s[i])) \/ In(Upper(s[i])))) IN IF hit = (n[2] = 0) THEN {i + 1} ELSE {}
    [] n[1] = 3 -> RepEnds(n[2], s, {i}, n[3], n[4], ic)
    [] n[1] = 4 -> CatEnds(n[2], s, {i}, 1, ic)
    [] n[1] = 5 -> UNION {Ends(n[2][k], s, i, ic) : k \in 1..Len(n[2])}
CatEnds(ps, s, S, k, ic) == IF k > Len(ps) THEN S ELSE CatEnds(ps, s, UNION {Ends(ps[k], s, i, ic) : i \in S}, k + 1, ic)
RepEnds(x, s, S, m, n, ic) == LET T == UNION {Ends(x, s, i, ic) : i \in S} IN
   IF m > 0 THEN RepEnds(x, s, T, m - 1, IF n = 99 THEN 99 ELSE n - 1, ic)
   ELSE IF n = 0 \/ T \subseteq S THEN S ELSE RepEnds(x, s, S \cup T, 0, IF n = 99 THEN 99 ELSE n - 1, ic)
Matches(a) == LET s == a[7] IN \E i \in 1..(Len(s) + 1) : (a[2] = 0 \/ (i = 1 /\ a[5] = 0)) /\ \E e \in Ends(a[1], s, i, a[4]) : a[3] = 0 \/ (e = Len(s) + 1 /\ a[6] = 0)
\* ---- operations.  State: statistics as sequence of points; bit set; scalar; memory counts
MiInit(h) == {[pts |-> <<>>, bits |-> {}, w |-> <<0, 0, 0, 0>>, b |-> 32, sg |-> 0, now |-> <<0, 0, 0>>, tot |-> <<0, 0, 0>>, key |-> <<0, 0, 0>>]}
If(c, s) == IF c THEN {s} ELSE {}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
\* average within a thousandth: millionths below, given as whole part and millionths of the magnitude
AvgOk(pts, I, F) == LET n == Len(pts)  S == Sum(pts) IN
   IF n = 0 THEN I = 0 /\ F = 0
   ELSE LET A == Abs(S)  q == A \div n  r == A % n  f == (r * 1000000) \div n IN
        /\ \/ Abs(I) = q /\ Abs(F - f) <= 20
           \/ Abs(I) = q + 1 /\ F <= 20 /\ f >= 999980
           \/ Abs(I) + 1 = q /\ f <= 20 /\ F >= 999980
        /\ I = 0 \/ ((I < 0) <=> (S < 0))
MinP(p) == CHOOSE x \in {p[i] : i \in 1..Len(p)} : \A i \in 1..Len(p) : x <= p[i]
MaxP(p) == CHOOSE x \in {p[i] : i \in 1..Len(p)} : \A i \in 1..Len(p) : x >= p[i]
StatOk(p, r) == LET n == Len(p)  t == r[7] IN
   /\ r[4] = n /\ AvgOk(p, r[5], r[6])
   /\ r[1] = (IF n = 0 THEN 0 ELSE p[n])
   /\ n > 0 => r[2] = MinP(p) /\ r[3] = MaxP(p)
   /\ n > 0 /\ MinP(p) /= MaxP(p) /\ MaxP(p) < 100000 /\ MinP(p) > -100000 => t[2] = 3 /\ t[3] = p[n] /\ t[4] = MinP(p) /\ t[5] = MaxP(p) /\ t[6] = n
BitsOf(hi, lo) == {k \in 0..31 : IF k >= 16 THEN (hi \div Pow(k - 16)) % 2 = 1 ELSE (lo \div Pow(k)) % 2 = 1}
Upd(s, w) == [s EXCEPT !.w = Fit(w, s.b, s.sg)]
ScOp(s, w, ret, r) == LET t == Upd(s, w) IN If(r = <<IF ret = "new" THEN t.w ELSE s.w, t.w>>, t)
Inc(q, k, d) == [q EXCEPT ![k] = @ + d]
MiStep(s, o) == LET a == o.a  r == o.r IN
  CASE o.op = "add"  -> If(r = <<a[1] + a[2], a[1] + a[2], a[1] + a[2], a[1], a[2]>>, s)
    [] o.op = "sub"  -> If(r = <<a[1] - a[2], a[1] - a[2], a[1] - a[2], a[1], a[2]>>, s)
    [] o.op = "mul"  -> If(r[1] = r[2] /\ r[1] = r[3] /\ r[4] = a[1] /\ r[5] = a[2] /\ IsProd(a[1], a[2], r[1]), s)
    [] o.op = "div"  -> If(r[1] = r[2] /\ r[1] = r[3] /\ r[4] = a[1] /\ r[5] = a[2] /\ IsQuot(a[1], a[2], r[1]), s)
    [] o.op = "int"  -> If(\A k \in 1..3 : r[k] = 65536 * a[1], s)
    [] o.op = "conv" -> If(\A k \in 1..3 : r[k] \in Nearest(a) /\ r[k] = r[1], s)
    [] o.op = "cmp"  -> If(r = Tri(IF a[1] > a[2] THEN 1 ELSE IF a[1] < a[2] THEN -1 ELSE 0), s)
    [] o.op = "fcmp" -> If(r = Tri(CmpS(a[1], a[2])), s)
    [] o.op = "toF"  -> If(IF Abs(a[1]) < 16777216 THEN r[1] = a[1] ELSE (r[1] < 0) = (a[1] < 0) /\ Abs(r[1] - a[1]) <= 64, s)
    [] o.op = "mulf" -> If(r[1] = r[2] /\ r[1] = QuotZ(a[1] * a[2], 16), s)
    [] o.op = "same" -> If(r[1] = r[2] /\ r[1] = r[3], s)
    [] o.op = "stat" -> If(StatOk(s.pts, r), s)
    [] o.op = "point" -> {[s EXCEPT !.pts = Append(@, a[1])]}
    [] o.op = "set"  -> {[s EXCEPT !.bits = @ \cup {a[1]}]}
    [] o.op = "clr"  -> {[s EXCEPT !.bits = @ \ {a[1]}]}
    [] o.op = "isset" -> If(r[1] = B2(a[1] \in s.bits) /\ r[2] = r[1], s)
    [] o.op = "bits" -> If(BitsOf(r[1], r[2]) = s.bits /\ r[3] = r[1] /\ r[4] = r[2], s)
    [] o.op = "scalar" -> LET t == [s EXCEPT !.b = a[1], !.sg = a[2], !.w = a[3]] IN If(r = <<a[3]>>, t)
    [] o.op \in {"asg", "make"} -> ScOp(s, a[1], "new", r)
    [] o.op = "inc"  -> ScOp(s, WAdd(s.w, One, 0), "new", r)
    [] o.op = "pinc" -> ScOp(s, WAdd(s.w, One, 0), "old", r)
    [] o.op = "dec"  -> ScOp(s, WSub(s.w, One), "new", r)
    [] o.op = "pdec" -> ScOp(s, WSub(s.w, One), "old", r)
    [] o.op = "plus" -> ScOp(s, WAdd(s.w, a[1], 0), "new", r)
    [] o.op = "minus" -> ScOp(s, WSub(s.w, a[1]), "new", r)
    [] o.op = "get"  -> ScOp(s, s.w, "new", r)
    [] o.op = "width" -> If(r = a, s)
    [] o.op = "fval" -> If(r = <<a[1], a[2], 1>>, s)
    [] o.op = "lit"  -> If(r = a, s)
    [] o.op = "mnew" -> {[s EXCEPT !.now = Inc(@, a[1] + 1, 1), !.tot = Inc(@, a[1] + 1, 1), !.key = Inc(@, a[1] + 1, a[2])]}
    [] o.op = "mdel" -> {[s EXCEPT !.now = Inc(@, a[1] + 1, -1), !.key = Inc(@, a[1] + 1, 0 - a[2])]}
    [] o.op = "mread" -> If(r = <<s.now[1], s.tot[1], s.now[2], s.tot[2], s.now[3], s.tot[3], s.key[1], s.key[2], s.key[3]>>, s)
    [] o.op = "rx"   -> If(r[1] = B2(Matches(a)), s)
    [] OTHER -> {}
=============================================================================
