------------------------------- MODULE Text -------------------------------
(* Encodings, URL encoding, string utilities and time arithmetic on byte sequences (C45, C46, C47, C48). *)
EXTENDS Integers, Sequences, TLC
Space(c) == c \in {9, 10, 11, 12, 13, 32}
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerS(s) == [i \in 1..Len(s) |-> Lower(s[i])]
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* ------------------------------------------------------------------ C45
HexUp(v) == IF v < 10 THEN 48 + v ELSE 55 + v
HexLo(v) == IF v < 10 THEN 48 + v ELSE 87 + v
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
EncHex(b) == [i \in 1..(2 * Len(b)) |-> LET x == b[(i + 1) \div 2] IN HexUp(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]
B64(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
UnB64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
\* sextet k (1-based) of a byte sequence padded with zeros
Sextet(b, k) == LET i == 3 * ((k - 1) \div 4) + 1  q == (k - 1) % 4 IN
   CASE q = 0 -> At(b, i) \div 4
     [] q = 1 -> (At(b, i) % 4) * 16 + At(b, i + 1) \div 16
     [] q = 2 -> (At(b, i + 1) % 16) * 4 + At(b, i + 2) \div 64
     [] q = 3 -> At(b, i + 2) % 64
EncB64(b) == [k \in 1..(4 * ((Len(b) + 2) \div 3)) |-> IF k <= (8 * Len(b) + 5) \div 6 THEN B64(Sextet(b, k)) ELSE 61]
NoSpace(s) == SelectSeq(s, LAMBDA c : ~Space(c))
FirstEq(s) == IF \E i \in 1..Len(s) : s[i] = 61 THEN CHOOSE i \in 1..Len(s) : s[i] = 61 /\ \A j \in 1..(i - 1) : s[j] /= 61 ELSE Len(s) + 1
DecB64Ok(s) == LET p == SubSeq(s, 1, FirstEq(s) - 1) IN (\A i \in 1..Len(p) : UnB64(p[i]) >= 0) /\ (\A i \in FirstEq(s)..Len(s) : s[i] = 61)
DecB64(s) == LET p == SubSeq(s, 1, FirstEq(s) - 1)  x(k) == IF k <= Len(p) THEN UnB64(p[k]) ELSE 0 IN
   [i \in 1..((6 * Len(p)) \div 8) |-> LET k == 4 * ((i - 1) \div 3) + 1  q == (i - 1) % 3 IN
       CASE q = 0 -> x(k) * 4 + x(k + 1) \div 16
         [] q = 1 -> (x(k + 1) % 16) * 16 + x(k + 2) \div 4
         [] q = 2 -> (x(k + 2) % 4) * 64 + x(k + 3)]
DecHexOk(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : HexVal(s[i]) >= 0
DecHex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])]
Kind(n) == LET x == LowerS(n) IN IF x = <<98, 105, 110, 97, 114, 121>> THEN "bin" ELSE IF x = <<104, 101, 120>> \/ x = <<98, 97, 115, 101, 49, 54>> THEN "hex"
   ELSE IF x = <<98, 97, 115, 101, 54, 52>> THEN "b64" ELSE "?"
GoodEnc(a, r) == LET k == Kind(a[1]) IN
   IF k = "?" THEN r[1] = 1 ELSE r = <<0, IF k = "bin" THEN a[2] ELSE IF k = "hex" THEN EncHex(a[2]) ELSE EncB64(a[2])>>
GoodDec(a, r) == LET k == Kind(a[1])  s == NoSpace(a[2]) IN
   CASE k = "?" -> r[1] = 1
     [] k = "bin" -> r = <<0, a[2]>>
     [] k = "hex" -> IF DecHexOk(s) THEN r = <<0, DecHex(s)>> ELSE r[1] = 1
     [] k = "b64" -> IF ~DecB64Ok(s) THEN r[1] = 1 ELSE IF (FirstEq(s) - 1) % 4 = 1 THEN TRUE ELSE r = <<0, DecB64(s)>>
\* ------------------------------------------------------------------ C46
UrlSafe(c) == c \in 48..57 \cup 65..90 \cup 97..122 \cup {45, 95, 46, 33, 126, 39, 40, 41}
Url(b, hex(_)) == Flat([i \in 1..Len(b) |-> IF UrlSafe(b[i]) THEN <<b[i]>> ELSE <<37, hex(b[i] \div 16), hex(b[i] % 16)>>])
\* ------------------------------------------------------------------ C47
RECURSIVE DecStr(_)
DecStr(n) == IF n < 0 THEN <<45>> \o DecStr(0 - n) ELSE IF n < 10 THEN <<48 + n>> ELSE DecStr(n \div 10) \o <<48 + (n % 10)>>
Gen(n, seed) == [i \in 1..n |-> 33 + ((i * 7 + seed) % 90)]
Clip(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
\* a template: a sequence of items <<0, c>> literal, <<1, n, seed>> string, <<2, i>> integer
Item(x) == CASE x[1] = 0 -> <<x[2]>> [] x[1] = 1 -> Gen(x[2], x[3]) [] x[1] = 2 -> DecStr(x[2])
Tmpl(t) == Flat([i \in 1..Len(t) |-> Item(t[i])])
FirstNot(s, C) == IF \E i \in 1..Len(s) : s[i] \notin C THEN CHOOSE i \in 1..Len(s) : s[i] \notin C /\ \A j \in 1..(i - 1) : s[j] \in C ELSE 0
FirstIn(s, C) == IF \E i \in 1..Len(s) : s[i] \in C THEN CHOOSE i \in 1..Len(s) : s[i] \in C /\ \A j \in 1..(i - 1) : s[j] \notin C ELSE Len(s) + 1
RECURSIVE Words(_, _, _)
Words(s, C, max) == LET i == FirstNot(s, C) IN IF max = 0 \/ i = 0 THEN <<>> ELSE LET t == SubSeq(s, i, Len(s))  j == FirstIn(t, C) IN
   IF max = 1 THEN <<t>> ELSE <<SubSeq(t, 1, j - 1)>> \o Words(SubSeq(t, j + 1, Len(t)), C, max - 1)
WS == {9, 10, 11, 12, 13, 32}
RECURSIVE Repl(_, _, _)
Repl(s, f, t) == IF f = <<>> \/ Len(s) < Len(f) THEN s ELSE IF SubSeq(s, 1, Len(f)) = f THEN t \o Repl(SubSeq(s, Len(f) + 1, Len(s)), f, t) ELSE <<Head(s)>> \o Repl(Tail(s), f, t)
RECURSIVE Lines(_, _)
Lines(s, n) == IF n = 0 THEN <<>> ELSE LET i == FirstIn(s, {10}) IN IF i > Len(s) THEN s ELSE SubSeq(s, 1, i) \o Lines(SubSeq(s, i + 1, Len(s)), n - 1)
HexW(w) == <<HexLo(w \div 4096), HexLo((w \div 256) % 16), HexLo((w \div 16) % 16), HexLo(w % 16)>>
HexWs(ws) == Flat([i \in 1..Len(ws) |-> HexW(ws[i])])
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
IsGcd(g, x, y) == g = Gcd(Abs(x), Abs(y))
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxS(_)
MaxS(s) == IF s = <<>> THEN 0 ELSE Max(Head(s), MaxS(Tail(s)))
Width(rows, c) == MaxS([i \in 1..Len(rows) |-> IF c <= Len(rows[i]) THEN (IF Len(rows[i][c]) > 100 THEN 100 ELSE Len(rows[i][c])) ELSE 0])
Shown(x) == IF x = <<95>> THEN <<>> ELSE x
Pad(x, w) == x \o [i \in 1..(IF w > Len(x) THEN w - Len(x) ELSE 0) |-> 32]
RowText(rows, i, tab) == Flat([c \in 1..Len(rows[i]) |-> IF tab THEN (IF c > 1 THEN <<9>> ELSE <<>>) \o Shown(rows[i][c]) ELSE Pad(Shown(rows[i][c]), Width(rows, c)) \o <<32>>]) \o <<10>>
Table(rows, tab) == Flat([i \in 1..Len(rows) |-> RowText(rows, i, tab)]) \o <<10>>
\* ---- dates: days since 1970-01-01 to year, month, day
Civil(z0) == LET z == z0 + 719468  era == z \div 146097  doe == z - era * 146097
                 yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
                 doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)  mp == (5 * doy + 2) \div 153
                 m == IF mp < 10 THEN mp + 3 ELSE mp - 9
             IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1]
RECURSIVE Digits(_, _)
Digits(n, w) == IF w = 0 THEN (IF n = 0 THEN <<>> ELSE DecStr(n)) ELSE Digits(n \div 10, w - 1) \o <<48 + (n % 10)>>
DateS(day) == LET c == Civil(day) IN Digits(c.y, 4) \o <<45>> \o Digits(c.m, 2) \o <<45>> \o Digits(c.d, 2)
TimeS(sod) == Digits(sod \div 3600, 2) \o <<58>> \o Digits((sod \div 60) % 60, 2) \o <<58>> \o Digits(sod % 60, 2)
\* a time <<day, second of day>> shifted by off seconds
Norm(d, s) == <<d + (s \div 86400), s % 86400>>
Iso(d, s) == DateS(d) \o <<84>> \o TimeS(s)
Stamp(d, s, us, w, date) == LET full == <<32>> \o (IF date THEN Iso(d, s) ELSE TimeS(s)) \o <<46, 48 + us \div 100000>> IN SubSeq(full, IF w >= Len(full) THEN 1 ELSE Len(full) - w + 1, Len(full))
\* sscanf of blank separated words into n strings, each "?" before
Scan(s, n) == LET w == Words(s, WS, 1000)  m == IF Len(w) < n THEN Len(w) ELSE n IN <<IF m = 0 THEN -1 ELSE m, [i \in 1..n |-> IF i <= m THEN w[i] ELSE <<63>>]>>
\* ------------------------------------------------------------------ C48: times are <<day, second, microsecond>>
\* b - a in milliseconds is within one of x, given as <<days, milliseconds of day>>
Near(x, a, b) == LET k == x[1] - (b[1] - a[1]) IN k \in -2..2 /\ LET y == k * 86400000 + x[2] - (b[2] - a[2]) * 1000 IN y \in -2000..2000 /\ Abs(y * 1000 - (b[3] - a[3])) <= 1000
NegMs(x) == IF x[2] = 0 THEN <<0 - x[1], 0>> ELSE <<0 - x[1] - 1, 86400000 - x[2]>>
Later(n, off) == LET us == n[3] + off[2] * 1000  c == IF us >= 1000000 THEN 1 ELSE 0  s == n[2] + (off[1] % 86400) + c IN <<n[1] + off[1] \div 86400 + s \div 86400, s % 86400, us - c * 1000000>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
TInit(h) == {0}
Good(o) == LET a == o.a  r == o.r IN
  CASE o.op = "enc"   -> GoodEnc(a, r)
    [] o.op = "dec"   -> GoodDec(a, r)
    [] o.op = "trip"  -> r = <<0, a[1]>>                        \* encoded, blanks strewn in, decoded
    [] o.op = "url"   -> r = <<Url(a[1], HexUp)>> \/ r = <<Url(a[1], HexLo)>>
    [] o.op = "fmt"   -> r = <<Clip(Tmpl(a[1]), 5000)>>
    [] o.op = "osp"   -> r = <<Tmpl(a[1])>>
    [] o.op = "split" -> r = Words(a[1], IF a[3] = <<>> THEN {9, 10, 13, 32} ELSE Range(a[3]), a[2])
    [] o.op = "ssplit" -> r = Words(a[1], {9, 10, 13, 32}, 100000)
    [] o.op = "getarg" -> LET w == Words(a[1], WS, 100000) IN r = IF a[2] \in 1..Len(w) THEN <<1, w[a[2]]>> ELSE <<0>>
    [] o.op = "repl"  -> r = <<Repl(a[1], a[2], a[3])>>
    [] o.op = "first" -> r = <<Lines(a[1], a[2])>>
    [] o.op = "cat"   -> r = <<Flat(a)>>
    [] o.op = "u2s"   -> r = <<HexWs(a[1])>>
    [] o.op = "s2u"   -> r[1] \o r[2] = [i \in 1..8 |-> LET s == a[1] IN 4096 * HexVal(s[4 * i - 3]) + 256 * HexVal(s[4 * i - 2]) + 16 * HexVal(s[4 * i - 1]) + HexVal(s[4 * i])]
    [] o.op = "gcd"   -> IsGcd(r[1], a[1], a[2])
    [] o.op = "table" -> r = <<Table(a[2], a[1] = 1)>>
    [] o.op = "stamp" -> LET t == Norm(a[1], a[2] + a[6]) IN r = <<Stamp(t[1], t[2], a[3], a[4], a[5] = 1)>>
    [] o.op = "scan"  -> r = Scan(a[1], a[2])
    [] o.op = "str"   -> r = <<a[1], a[1], <<40, 110, 117, 108, 108, 41>>>>
    [] o.op = "msleep" -> r = <<a[1], 0>>
    [] o.op = "future" -> r = <<Later(a[1], a[2])>>
    [] o.op = "tspec" -> r = <<<<a[1][1], a[1][2], a[1][3]>>, 0>>
    [] o.op = "delta" -> Near(r[1], a[1], a[2])
    [] o.op = "elapsed" -> Near(r[1], a[2], a[1])               \* a = <<now, the time>>
    [] o.op = "remaining" -> Near(r[1], a[1], a[2])
    [] o.op = "passed" -> r = <<IF Before(a[2], a[1]) THEN 1 ELSE 0>>
    [] o.op = "addmin" -> r = <<Later(a[1], <<60 * a[2], 0>>)>>
    [] o.op = "iso"   -> LET t == Norm(a[1], a[2] + a[3]) IN r = <<Iso(t[1], t[2]) \o (IF a[4] = 1 THEN <<>> ELSE <<90>>)>>
    [] OTHER -> FALSE
TStep(st, o) == IF Good(o) THEN {st} ELSE {}
=============================================================================
