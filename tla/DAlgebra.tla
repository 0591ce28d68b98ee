------------------------------ MODULE DAlgebra ------------------------------
(* The definitions the oracles use have the properties they stand for:        *)
(* checked by evaluation over small domains.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
B == INSTANCE Bits
X == INSTANCE Text
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Bin(n) == [1..n -> {0, 1}]
\* the shift register of the classic implementation is the remainder
RECURSIVE Lfsr(_, _, _, _)
Lfsr(m, c, n, s) == IF m = <<>> THEN s
  ELSE LET fb == (Head(m) + s[1]) % 2  t == SubSeq(s, 2, n) \o <<0>> IN Lfsr(Tail(m), c, n, [i \in 1..n |-> (t[i] + fb * c[i]) % 2])
ParityIsLfsr == \A n \in 1..4 : \A c \in Bin(n) : \A k \in 0..6 : \A m \in Bin(k) : B!ParityOf(m, c, n) = Lfsr(m, c, n, [i \in 1..n |-> 0])
CodewordsDivide == \A n \in 1..4 : \A c \in Bin(n) : \A m \in Bin(5) : B!Rem(m \o B!ParityOf(m, c, n), c, n) = [i \in 1..n |-> 0]
\* with a generator that has a constant term every single bit error shows
OneErrorShows == \A n \in 1..4 : \A c \in {x \in Bin(n) : x[n] = 1} : \A m \in Bin(4) : \A e \in 1..(4 + n) :
   LET w == m \o B!ParityOf(m, c, n) IN B!Rem([i \in 1..Len(w) |-> IF i = e THEN 1 - w[i] ELSE w[i]], c, n) /= [i \in 1..n |-> 0]
Linear == \A n \in 1..3 : \A c \in Bin(n) : \A a, b \in Bin(5) : B!ParityOf(B!Xor(a, b), c, n) = B!Xor(B!ParityOf(a, c, n), B!ParityOf(b, c, n))
PackTrip == \A k \in 0..10 : \A s \in Bin(k) : B!Unpack(B!Pack(s), k) = s
HexTrip == \A k \in 0..9 : \A s \in Bin(k) : B!HexOk(B!Hex(s), k) /\ B!Unhex(B!Hex(s), k) = s
RevTwice == \A k \in 0..9 : \A s \in Bin(k) : B!Rev(B!Rev(s)) = s /\ B!Inv(B!Inv(s)) = s /\ B!Rev8s(B!Rev8s(s)) = s
PunctTrip == \A k \in 0..5 : \A s \in Bin(k) : \A T \in SUBSET (0..(k - 1)) : LET t == SelectSeq([i \in 1..k |-> i - 1], LAMBDA x : x \in T) IN
   LET u == B!Unpunct(B!Punct(s, t), t) IN Len(u) = k /\ \A i \in 1..k : u[i] = (IF i - 1 \in T THEN B!Half ELSE s[i])
Perms(n) == {p \in [1..n -> 0..(n - 1)] : Cardinality({p[i] : i \in 1..n}) = n}
MapTrip == \A n \in 1..4 : \A p \in Perms(n) : \A s \in Bin(n) : B!Unmap(B!Map(s, p, s), p, s) = s /\ B!Map(B!Unmap(s, p, s), p, s) = s
Some == {0, 1, 3, 62, 63, 64, 127, 128, 170, 255}
B64Trip == \A s \in Seqs(Some, 4) : X!DecB64Ok(X!EncB64(s)) /\ X!DecB64(X!EncB64(s)) = s
HexCodeTrip == \A s \in Seqs(0..255, 1) \cup Seqs(Some, 3) : X!DecHexOk(X!EncHex(s)) /\ X!DecHex(X!EncHex(s)) = s
RECURSIVE UrlDec(_)
UrlDec(s) == IF s = <<>> THEN <<>> ELSE IF Head(s) = 37 THEN <<16 * X!HexVal(s[2]) + X!HexVal(s[3])>> \o UrlDec(SubSeq(s, 4, Len(s))) ELSE <<Head(s)>> \o UrlDec(Tail(s))
UrlTrip == \A s \in Seqs(0..255, 1) \cup Seqs(Some \cup {37, 43, 47, 65}, 3) : UrlDec(X!Url(s, X!HexUp)) = s
\* the civil calendar: consecutive days, 400 year period, known days
CivilKnown == X!Civil(0) = [y |-> 1970, m |-> 1, d |-> 1] /\ X!Civil(11016) = [y |-> 2000, m |-> 2, d |-> 29] /\ X!Civil(20088) = [y |-> 2024, m |-> 12, d |-> 31]
Leap(y) == (y % 4 = 0 /\ y % 100 /= 0) \/ y % 400 = 0
Days(y, m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE 31
CivilNext == \A z \in 0..40000 : LET a == X!Civil(z)  b == X!Civil(z + 1) IN
   IF a.d < Days(a.y, a.m) THEN b = [a EXCEPT !.d = @ + 1] ELSE IF a.m < 12 THEN b = [y |-> a.y, m |-> a.m + 1, d |-> 1] ELSE b = [y |-> a.y + 1, m |-> 1, d |-> 1]
SplitRejoins == \A s \in Seqs({32, 65, 66}, 6) : X!Flat(X!Words(s, {32}, 100)) = SelectSeq(s, LAMBDA x : x /= 32)
GcdDivides == \A x, y \in 1..40 : LET g == X!Gcd(x, y) IN x % g = 0 /\ y % g = 0 /\ \A d \in (g + 1)..40 : ~(x % d = 0 /\ y % d = 0)
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
