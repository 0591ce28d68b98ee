------------------------------- MODULE Bits -------------------------------
(* BitVector, Generator/Parity and SoftVector as operations on bit sequences (C42, C43, C44).  A row is one call with its results;
   64-bit values are four 16-bit words, most significant first. *)
EXTENDS Integers, Sequences, TLC
Bit(x, k) == (x \div (2 ^ k)) % 2
Bits16(x) == [i \in 1..16 |-> Bit(x, 16 - i)]
Bits8(x) == [i \in 1..8 |-> Bit(x, 8 - i)]
Word(w) == Bits16(w[1]) \o Bits16(w[2]) \o Bits16(w[3]) \o Bits16(w[4])      \* 64 bits, most significant first
Zeros(n) == [i \in 1..n |-> 0]
Ext64(s) == Zeros(64 - Len(s)) \o s
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Low(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
Sub(s, at, n) == SubSeq(s, at + 1, at + n)
Over(s, at, v) == [i \in 1..Len(s) |-> IF i > at /\ i <= at + Len(v) THEN v[i - at] ELSE s[i]]
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE 2 * Val(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]      \* short sequences only
RECURSIVE SumR(_, _, _)
SumR(s, lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN s[lo] ELSE LET m == (lo + hi) \div 2 IN SumR(s, lo, m) + SumR(s, m + 1, hi)
SumS(s) == SumR(s, 1, Len(s))
RECURSIVE Dec(_)
Dec(v) == IF v < 10 THEN <<48 + v>> ELSE Dec(v \div 10) \o <<48 + (v % 10)>>
NB(n) == (n + 7) \div 8
Pack(s) == [i \in 1..NB(Len(s)) |-> Val([k \in 1..8 |-> IF 8 * (i - 1) + k <= Len(s) THEN s[8 * (i - 1) + k] ELSE 0])]
Unpack(b, n) == [i \in 1..n |-> Bit(b[(i - 1) \div 8 + 1], 7 - ((i - 1) % 8))]
HexChar(v) == IF v < 10 THEN 48 + v ELSE 87 + v
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
NH(n) == (n + 3) \div 4
DigitBits(n, i) == IF i <= n \div 4 THEN 4 ELSE n % 4                 \* the last digit of an odd length holds the rest, right adjusted
Hex(s) == [i \in 1..NH(Len(s)) |-> HexChar(Val(Sub(s, 4 * (i - 1), DigitBits(Len(s), i))))]
HexOk(c, n) == Len(c) >= NH(n) /\ \A i \in 1..NH(n) : HexVal(c[i]) >= 0
Unhex(c, n) == [i \in 1..n |-> LET d == (i - 1) \div 4 + 1 IN Bit(HexVal(c[d]), DigitBits(n, d) - 1 - ((i - 1) % 4))]
Inv(s) == [i \in 1..Len(s) |-> 1 - s[i]]
Rev8(s) == [i \in 1..Len(s) |-> IF i <= 8 THEN s[9 - i] ELSE s[i]]
Rev8s(s) == [i \in 1..Len(s) |-> IF i <= 8 * (Len(s) \div 8) THEN s[8 * ((i - 1) \div 8) + 8 - ((i - 1) % 8)] ELSE s[i]]
Xor(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % 2]
\* ---- polynomials over GF(2), highest power first: remainder by long division, g = x^n + coefficients c
RECURSIVE DivFrom(_, _, _, _)
DivFrom(p, c, n, i) == IF i > Len(p) - n THEN Low(p, n)
   ELSE DivFrom(IF p[i] = 1 THEN [k \in 1..Len(p) |-> IF k < i \/ k > i + n THEN p[k] ELSE (p[k] + (IF k = i THEN 1 ELSE c[k - i])) % 2] ELSE p, c, n, i + 1)
Rem(p, c, n) == DivFrom(IF Len(p) < n THEN Zeros(n - Len(p)) \o p ELSE p, c, n, 1)
ParityOf(m, c, n) == Rem(m \o Zeros(n), c, n)
\* ---- interleaving, puncturing, soft values (in units of 2^-24)
Half == 8388608
Map(s, t, d) == [i \in 1..Len(d) |-> IF i <= Len(t) THEN s[t[i] + 1] ELSE d[i]]
Unmap(s, t, d) == [p \in 1..Len(d) |-> IF \E i \in 1..Len(t) : t[i] = p - 1 THEN s[CHOOSE i \in 1..Len(t) : t[i] = p - 1] ELSE d[p]]
In(x, t) == \E i \in 1..Len(t) : t[i] = x
KeepIdx(n, t) == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~In(i - 1, t))
Punct(s, t) == LET k == KeepIdx(Len(s), t) IN [i \in 1..Len(k) |-> s[k[i]]]
Unpunct(s, t) == LET n == Len(s) + Len(t) IN [p \in 1..n |-> IF In(p - 1, t) THEN Half ELSE s[p - SumS([i \in 1..Len(t) |-> IF t[i] < p - 1 THEN 1 ELSE 0])]]
Slice(v) == IF v > Half THEN 1 ELSE 0
Soft(s) == [i \in 1..Len(s) |-> s[i] * 2 * Half]
SoftChar(v) == IF 2 * v < Half THEN 48 ELSE IF v - Half > Half \div 2 THEN 49 ELSE 45
BInit(h) == {0}
Good(o) == LET a == o.a  r == o.r IN
  CASE o.op = "fill"   -> r = <<Over(a[1], a[2], Low(Word(a[3]), a[4]))>>
    [] o.op = "fillr"  -> r = <<Over(a[1], a[2], Rev(Low(Word(a[3]), a[4])))>>
    [] o.op = "write"  -> r = <<Over(a[1], a[2], Low(Word(a[3]), a[4])), a[2] + a[4]>>
    [] o.op = "writer" -> r = <<Over(a[1], a[2], Rev(Low(Word(a[3]), a[4]))), a[2] + a[4]>>
    [] o.op = "peek"   -> Word(r[1]) = Ext64(Sub(a[1], a[2], a[3])) /\ r[2] = a[1]
    [] o.op = "peekr"  -> Word(r[1]) = Ext64(Rev(Sub(a[1], a[2], a[3]))) /\ r[2] = a[1]
    [] o.op = "read"   -> Word(r[1]) = Ext64(Sub(a[1], a[2], a[3])) /\ r[2] = a[2] + a[3] /\ r[3] = a[1]
    [] o.op = "readr"  -> Word(r[1]) = Ext64(Rev(Sub(a[1], a[2], a[3]))) /\ r[2] = a[2] + a[3] /\ r[3] = a[1]
    [] o.op = "pack"   -> r = <<Pack(a[1])>>
    [] o.op = "unpack" -> r = <<Unpack(a[1], a[2])>>
    [] o.op = "hex"    -> r = <<Hex(a[1])>>
    [] o.op = "after"  -> r = <<Dec(a[1])>>                                        \* a number written to the stream after a hex dump is decimal
    [] o.op = "unhex"  -> IF HexOk(a[1], a[2]) THEN r = <<1, Unhex(a[1], a[2])>> ELSE r[1] = 0
    [] o.op = "invert" -> r = <<Inv(a[1])>>
    [] o.op = "rev8"   -> r = <<Rev8(a[1])>>
    [] o.op = "lsb8"   -> r = <<Rev8s(a[1])>>
    [] o.op = "sum"    -> r = <<SumS(a[1])>>
    [] o.op = "eq"     -> r = <<IF a[1] = a[2] THEN 1 ELSE 0>>
    [] o.op = "text"   -> r = <<[i \in 1..Len(a[1]) |-> IF a[1][i] = 49 THEN 1 ELSE 0]>>
    [] o.op = "show"   -> r = <<[i \in 1..Len(a[1]) |-> 48 + a[1][i]]>>
    [] o.op = "bit"    -> r = <<a[1][a[2] + 1]>>
    [] o.op = "zero"   -> r = <<Zeros(Len(a[1]))>>
    \* a generator (coefficients, length) that may have been used before
    [] o.op = "parity" -> Word(r[1]) = Ext64(ParityOf(a[3], Low(Word(a[1]), a[2]), a[2]))
    [] o.op = "synd"   -> Word(r[1]) = Ext64(Rem(a[3], Low(Word(a[1]), a[2]), a[2]))
    [] o.op = "wpar"   -> LET p == ParityOf(a[3], Low(Word(a[1]), a[2]), a[2]) IN r = <<Over(a[4], 0, IF a[5] = 1 THEN Inv(p) ELSE p)>>
    [] o.op = "code"   -> Word(r[1]) = Zeros(64)                                   \* message with its parity word
    [] o.op = "map"    -> r = <<Map(a[1], a[2], a[3])>>
    [] o.op = "unmap"  -> r = <<Unmap(a[1], a[2], a[3])>>
    [] o.op = "perm"   -> r = <<a[1]>>                                             \* map then unmap by the same permutation, and the other way round
    [] o.op = "punct"  -> r = <<Punct(a[1], a[2])>>
    [] o.op = "unpunct" -> r = <<Unpunct(a[1], a[2])>>
    [] o.op = "soft"   -> r = <<Soft(a[1]), a[1]>>                                 \* and sliced again
    [] o.op = "slice"  -> r = <<[i \in 1..Len(a[1]) |-> Slice(a[1][i])], [i \in 1..Len(a[1]) |-> Slice(a[1][i])]>>
    \* soft values in 16ths: mean and least distance from one half (of 8), and signal to noise ratio in thousandths
    [] o.op = "energy" -> LET v == a[1]  d == [i \in 1..Len(v) |-> IF v[i] < 8 THEN 8 - v[i] ELSE v[i] - 8] IN
         r = <<SumS(d), IF v = <<>> THEN 8 ELSE CHOOSE m \in 0..8 : (\E i \in 1..Len(d) : d[i] = m) /\ \A i \in 1..Len(d) : d[i] >= m>>
    [] o.op = "snr" -> LET v == a[1]  n == Len(v)  z == SumS([i \in 1..n |-> IF v[i] < 8 THEN v[i] * v[i] ELSE (16 - v[i]) * (16 - v[i])])
                           near == r[1] <= 1000000 /\ r[1] * z <= 64000 * n + z + n /\ r[1] * z >= 64000 * n - z - n IN
         IF n = 0 THEN r = <<0>> ELSE IF z * 1000 < 64 * n THEN r = <<999000>> ELSE IF z * 1000 = 64 * n THEN near \/ r = <<999000>> ELSE near
    [] o.op = "unknown" -> r = <<[i \in 1..Len(a[1]) |-> Half]>>
    [] o.op = "sshow"  -> r = <<[i \in 1..Len(a[1]) |-> SoftChar(a[1][i])]>>
    [] o.op = "sset"   -> r = <<[a[1] EXCEPT ![a[2] + 1] = a[3]], a[3]>>
    [] OTHER -> FALSE
BStep(st, o) == IF Good(o) THEN {st} ELSE {}
=============================================================================
