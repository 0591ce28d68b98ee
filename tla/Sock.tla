------------------------------- MODULE Sock -------------------------------
(* Datagram sockets (C50): every socket has a name (UDP: its port, Unix: its  *)
(* path, or none), a destination, the sender of the last packet read, and the *)
(* packets that arrived and were not read.  own says which socket holds a     *)
(* path.  A name is a sequence: <<port>> or the bytes of the path; <<>> none. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Slots == 1..5
Free == [up |-> 0, kind |-> 0, nm |-> <<>>, dst |-> <<>>, src |-> <<>>, q |-> <<>>]
SkInit(h) == {[k |-> [i \in Slots |-> Free], own |-> {}]}
Owner(s, nm) == {i \in Slots : s.k[i].up = 1 /\ <<nm, i>> \in s.own}
\* packets over 1500 bytes are outside the property: they arrive cut
Cut(b) == IF Len(b) > 1500 THEN SubSeq(b, 1, 1500) ELSE b
Body(b, cstr) == IF cstr = 1 THEN Append(b, 0) ELSE b
\* sending b from slot i to the name to: <<result, state>>
Send(s, i, to, b, unixy) ==
  LET T == Owner(s, to)  ok == IF unixy THEN to /= <<>> /\ T /= {} ELSE to /= <<>> IN
  IF ~ok THEN <<-1, s>>
  ELSE IF T = {} THEN <<Len(b), s>>
  ELSE LET t == CHOOSE t \in T : TRUE IN <<Len(b), [s EXCEPT !.k[t].q = Append(@, [fr |-> s.k[i].nm, b |-> Cut(b)])]>>
Sent(x, o) == IF o.r = <<x[1]>> THEN {x[2]} ELSE {}
\* the socket kind is known from the name or from the kind recorded at creation: up = 1 UDP and Unix are not mixed in one history
IsU(s, i) == s.k[i].kind = 2
\* a packet read: its bytes, and the address of its sender
From(s, i, x) == IF s.k[i].kind = 1 THEN Len(x) = 2 /\ x[1][1] = 127 /\ <<x[2]>> = Head(s.k[i].q).fr ELSE x = <<Head(s.k[i].q).fr>>
Took(s, i, r) ==
  IF s.k[i].q = <<>> THEN {}
  ELSE LET p == Head(s.k[i].q) IN IF r = <<Len(p.b), p.b, r[3]>> /\ From(s, i, r[3]) THEN {[s EXCEPT !.k[i].q = Tail(@), !.k[i].src = p.fr]} ELSE {}
Names == {<<<<108,111,99,97,108,104,111,115,116>>, <<127,0,0,1>>>>, <<<<97,108,112,104,97>>, <<10,1,2,3>>>>,
          <<<<98,45,104,111,115,116,46,101,120,97,109,112,108,101,46,111,114,103>>, <<192,168,0,7>>>>, <<<<108,97,115,116>>, <<255,255,255,254>>>>}
Digit(c) == c \in 48..57
RECURSIVE SplitAt(_, _)
SplitAt(b, c) == IF \E i \in 1..Len(b) : b[i] = c THEN LET i == CHOOSE i \in 1..Len(b) : b[i] = c /\ \A j \in 1..(i - 1) : b[j] /= c IN <<SubSeq(b, 1, i - 1)>> \o SplitAt(SubSeq(b, i + 1, Len(b)), c) ELSE <<b>>
RECURSIVE Num(_)
Num(b) == IF b = <<>> THEN 0 ELSE LET v == Num(SubSeq(b, 1, Len(b) - 1)) IN IF v > 100000 THEN v ELSE 10 * v + b[Len(b)] - 48
Plain(b) == Len(b) > 0 /\ (\A i \in 1..Len(b) : Digit(b[i])) /\ (b[1] /= 48 \/ Len(b) = 1)
\* what a host names: its address; <<>> nothing; <<-1>> left open (other spellings of numeric addresses)
Host(h) == LET P == SplitAt(h, 46) IN
  IF \E n \in Names : n[1] = h THEN (CHOOSE n \in Names : n[1] = h)[2]
  ELSE IF Len(P) = 4 /\ \A i \in 1..4 : Plain(P[i]) THEN (IF \A i \in 1..4 : Num(P[i]) < 256 THEN [i \in 1..4 |-> Num(P[i])] ELSE <<>>)
  ELSE IF h = <<>> \/ \E i \in 1..Len(h) : ~Digit(h[i]) /\ h[i] /= 46 /\ h[i] /= 120 /\ ~(h[i] \in 97..102) THEN <<>>
  ELSE <<-1>>
\* what a port text names: <<port>>; <<>> nothing; <<-1>> left open (a blank before it, a sign, leading zeros)
PortOf(b) == IF Plain(b) THEN (IF Num(b) < 65536 THEN <<Num(b)>> ELSE <<>>)
             ELSE IF Len(b) > 1 /\ \A i \in 1..Len(b) : Digit(b[i]) THEN (IF Num(b) < 65536 THEN <<-1>> ELSE <<>>)
             ELSE IF Len(b) > 1 /\ b[1] \in {9, 10, 32, 43, 45} /\ \A i \in 2..Len(b) : Digit(b[i]) THEN (IF Num(Tail(b)) < 65536 /\ (b[1] /= 45 \/ Num(Tail(b)) = 0) THEN <<-1>> ELSE <<>>)
             ELSE <<>>
Named(o, a, p) == IF a = <<>> \/ p = <<>> THEN o.r = <<0>> ELSE IF (Len(a) = 1) \/ p = <<-1>> THEN TRUE ELSE o.r = <<1, 1, a, p[1]>>
SkStep(s, o) ==
  CASE o.op = "res2" -> IF Named(o, Host(o.a[1]), <<o.a[2]>>) THEN {s} ELSE {}
    [] o.op = "res1" -> LET P == SplitAt(o.a[1], 58)  port == SubSeq(o.a[1], Len(P[1]) + 2, Len(o.a[1])) IN
         IF Named(o, Host(P[1]), IF Len(P) = 1 THEN <<>> ELSE PortOf(port)) THEN {s} ELSE {}
    \* a fresh port, or the one asked for; <<>> or the port to send to
    [] o.op = "udp" -> LET i == o.a[1] + 1  p == o.r[1] IN
         IF p > 0 /\ (o.a[2] = 0 \/ p = o.a[2]) /\ Owner(s, <<p>>) = {} THEN {[s EXCEPT !.k[i] = [up |-> 1, kind |-> 1, nm |-> <<p>>, dst |-> o.a[3], src |-> <<>>, q |-> <<>>], !.own = {x \in @ : x[1] /= <<p>>} \cup {<<<<p>>, i>>}]} ELSE {}
    [] o.op = "udd" -> LET i == o.a[1] + 1  l == o.a[2] IN
         IF Len(l) > 107 THEN (IF o.r = <<"err">> THEN {s} ELSE {})
         ELSE IF o.r = <<"ok">> THEN {[s EXCEPT !.k[i] = [up |-> 1, kind |-> 2, nm |-> l, dst |-> o.a[3], src |-> <<>>, q |-> <<>>], !.own = {x \in @ : x[1] /= l} \cup (IF l = <<>> THEN {} ELSE {<<l, i>>})]} ELSE {}
    [] o.op = "dest" -> {[s EXCEPT !.k[o.a[1] + 1].dst = <<o.a[2]>>]}
    [] o.op = "destu" -> {[s EXCEPT !.k[o.a[1] + 1].dst = IF Len(o.a[2]) > 107 THEN <<>> ELSE o.a[2]]}
    [] o.op = "write" -> LET i == o.a[1] + 1 IN Sent(Send(s, i, s.k[i].dst, Body(o.a[2], o.a[3]), IsU(s, i)), o)
    [] o.op = "back" -> LET i == o.a[1] + 1 IN Sent(Send(s, i, s.k[i].src, Body(o.a[2], o.a[3]), IsU(s, i)), o)
    [] o.op = "send" -> LET i == o.a[1] + 1 IN Sent(Send(s, i, <<o.a[4]>>, Body(o.a[2], o.a[3]), FALSE), o)
    [] o.op = "sendu" -> LET i == o.a[1] + 1 IN Sent(Send(s, i, o.a[4], Body(o.a[2], o.a[3]), TRUE), o)
    \* not blocking (or something is there): the first packet, or -1 at once
    [] o.op = "read" -> LET i == o.a[1] + 1 IN IF o.r[1] = -1 THEN (IF s.k[i].q = <<>> THEN {s} ELSE {}) ELSE Took(s, i, o.r)
    \* timed: -1 only when the time has passed; a packet may be sent to the socket meanwhile
    [] o.op = "readt" -> LET i == o.a[1] + 1
                             L == o.a[3]  f == L[1] + 1
                             after == IF L = <<>> THEN s ELSE Send(s, f, IF L[2] = 1 THEN s.k[f].src ELSE s.k[f].dst, L[3], IsU(s, f))[2] IN
         IF o.r = <<"err">> THEN (IF o.a[4] = 1 THEN {s} ELSE {})    \* a signal was caught: an error, not the end of the wait
         ELSE IF o.r[1] = -1 THEN (IF s.k[i].q = <<>> /\ o.r[2] = 1 THEN {after} ELSE {}) ELSE Took(after, i, o.r)
    \* blocking: the first packet there, or the first to come
    [] o.op = "readw" -> LET i == o.a[1] + 1  f == o.a[2][1] + 1 IN Took(Send(s, f, s.k[f].dst, o.a[2][3], FALSE)[2], i, o.r)
    \* opened again: a new name, nothing received yet
    [] o.op = "open" -> LET i == o.a[1] + 1  p == o.r[1] IN
         IF p > 0 /\ Owner(s, <<p>>) \subseteq {i} THEN {[s EXCEPT !.k[i].nm = <<p>>, !.k[i].q = <<>>, !.own = {x \in @ : x[2] /= i} \cup {<<<<p>>, i>>}]} ELSE {}
    [] o.op = "openu" -> LET i == o.a[1] + 1  l == o.a[2] IN
         IF Len(l) > 107 THEN (IF o.r = <<"err">> THEN {[s EXCEPT !.k[i] = Free, !.own = {x \in @ : x[2] /= i}]} ELSE {})
         ELSE IF o.r = <<"ok">> THEN {[s EXCEPT !.k[i].nm = l, !.k[i].q = <<>>, !.own = {x \in @ : x[2] /= i /\ x[1] /= l} \cup {<<l, i>>}]} ELSE {}
    [] o.op = "nb" -> {s}
    [] o.op \in {"close", "del"} -> {[s EXCEPT !.k[o.a[1] + 1] = Free, !.own = {x \in @ : x[2] /= o.a[1] + 1}]}
    [] o.op = "many" -> IF o.r = o.a THEN {s} ELSE {}
=============================================================================
