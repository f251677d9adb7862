------------------------------- MODULE Strings -------------------------------
(***************************************************************************)
(* What the string, number and base64 functions of c-raii compute.  Texts   *)
(* are sequences of byte values, 64-bit values sequences of four 16-bit     *)
(* limbs, lowest first.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* -------------------------------------------------------------- searching
\* (written so that TLC takes linear time for long texts; StringsMC compares them
\* with the plain definitions)
In(t, c) == \E i \in 1..Len(t) : t[i] = c
First(t, c) == IF In(t, c)
               THEN (CHOOSE i \in 1..Len(t) : t[i] = c /\ \A j \in 1..(i - 1) : t[j] # c) - 1
               ELSE -1
Last_(t, c) == IF In(t, c)
               THEN (CHOOSE i \in 1..Len(t) : t[i] = c /\ \A j \in (i + 1)..Len(t) : t[j] # c) - 1
               ELSE -1
\* p is in t at position i (counted from 1)
At(t, p, i) == /\ i + Len(p) - 1 <= Len(t)
               /\ \A k \in 1..Len(p) : t[i + k - 1] = p[k]
Find(t, p, from) ==
  LET range == from..(Len(t) - Len(p) + 1) IN
  IF \E i \in range : At(t, p, i)
  THEN CHOOSE i \in range : At(t, p, i) /\ \A j \in from..(i - 1) : ~At(t, p, j)
  ELSE 0
Pos(t, p) == Find(t, p, 1) - 1
FirstDiff(s, t) == CHOOSE i \in 1..Len(s) : s[i] # t[i] /\ \A j \in 1..(i - 1) : s[j] = t[j]

\* -------------------------------------------------- splitting and replacing
RECURSIVE Split(_, _)
Split(t, d) == LET i == Find(t, d, 1) IN
               IF i = 0 THEN <<t>>
               ELSE <<SubSeq(t, 1, i - 1)>> \o Split(SubSeq(t, i + Len(d), Len(t)), d)
RECURSIVE Join(_, _)
Join(q, d) == IF Len(q) = 0 THEN <<>> ELSE IF Len(q) = 1 THEN q[1]
              ELSE q[1] \o d \o Join(Tail(q), d)
Concat(q) == Join(q, <<>>)
Replace(t, p, w) == Join(Split(t, p), w)

\* ------------------------------------------------------------ 64-bit values
Zero == <<0, 0, 0, 0>>
\* v * k + d modulo 2^64, k and d small
MulAdd(v, k, d) ==
  LET a == v[1] * k + d
      b == v[2] * k + a \div 65536
      c == v[3] * k + b \div 65536
      e == v[4] * k + c \div 65536
  IN <<a % 65536, b % 65536, c % 65536, e % 65536>>
Flip(v) == [i \in 1..4 |-> 65535 - v[i]]
Minus(v) == MulAdd(Flip(v), 1, 1)
IsNeg(v) == v[4] >= 32768
\* v divided by 10, and the rest
Div10(v) ==
  LET q4 == v[4] \div 10   r4 == v[4] % 10
      x3 == r4 * 65536 + v[3]  q3 == x3 \div 10
      x2 == (x3 % 10) * 65536 + v[2]  q2 == x2 \div 10
      x1 == (x2 % 10) * 65536 + v[1]
  IN [q |-> <<x1 \div 10, q2, q3, q4>>, r |-> x1 % 10]
RECURSIVE Dec(_)
Dec(v) == LET d == Div10(v) IN IF d.q = Zero THEN <<48 + d.r>> ELSE Append(Dec(d.q), 48 + d.r)
Fmt(v) == IF IsNeg(v) THEN <<45>> \o Dec(Minus(v)) ELSE Dec(v)
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
RECURSIVE Value(_, _)
Value(s, b) == IF s = <<>> THEN Zero ELSE MulAdd(Value(SubSeq(s, 1, Len(s) - 1), b), b, Digit(s[Len(s)]))
SValue(s) == IF s # <<>> /\ s[1] = 45 THEN Minus(Value(Tail(s), 10))
             ELSE IF s # <<>> /\ s[1] = 43 THEN Value(Tail(s), 10) ELSE Value(s, 10)
\* the last n digits of v
RECURSIVE Padded(_, _)
Padded(v, n) == IF n = 0 THEN <<>> ELSE LET d == Div10(v) IN Append(Padded(d.q, n - 1), 48 + d.r)
\* a decimal number as printed with as many decimals as it was written with
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 /\ s[2] # 46 THEN NoZeros(Tail(s)) ELSE s
Signed(s) == s # <<>> /\ s[1] \in {43, 45}
Unsigned(s) == IF Signed(s) THEN Tail(s) ELSE s
Plain(s) == LET u == Unsigned(s)
                w == IF u = <<>> \/ u[1] = 46 THEN <<48>> \o u ELSE u
                z == NoZeros(w)
            IN IF z[Len(z)] = 46 THEN SubSeq(z, 1, Len(z) - 1) ELSE z
SameSign(r, s) == (\A i \in 1..Len(Plain(s)) : Plain(s)[i] \in {46, 48}) \/ (r[1] = 45) = (s[1] = 45)
\* more digits than a double holds: the first fifteen that matter are those of
\* the number, a few units of the last one more or less
Digits_(s) == SelectSeq(s, LAMBDA c : c # 46)
LeftPad(s, n) == [i \in 1..n |-> IF i <= n - Len(s) THEN 48 ELSE s[i - (n - Len(s))]]
RECURSIVE Small(_)
Small(s) == IF s = <<>> THEN 0 ELSE 10 * Small(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)] - 48
Near(r, s) ==
  LET a == Digits_(Plain(r))   b == Digits_(Plain(s))
      n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      x == LeftPad(a, n)   y == LeftPad(b, n)
      at == {i \in 1..n : x[i] # 48 \/ y[i] # 48}
      p == CHOOSE i \in at : \A j \in at : i <= j
      dig(z, f, k) == Small([i \in 1..k |-> IF p + f + i - 1 <= n THEN z[p + f + i - 1] ELSE 48])
      dh == dig(x, 0, 8) - dig(y, 0, 8)
      dl == dig(x, 8, 7) - dig(y, 8, 7)
      d == 10000000 * dh + dl
  IN at = {} \/ (dh \in -1..1 /\ d \in -5..5)
SameNumber(r, s) == /\ SameSign(r, s)
                    /\ IF Len(Digits_(Plain(s))) <= 14 THEN Unsigned(r) = Plain(s) ELSE Near(r, s)
\* bytes, lowest first
Pad8(s) == [i \in 1..8 |-> IF i <= Len(s) THEN s[i] ELSE 0]
OfBytes(b) == [i \in 1..4 |-> b[2 * i - 1] + 256 * b[2 * i]]
Bytes(v) == [i \in 1..8 |-> IF i % 2 = 1 THEN v[(i + 1) \div 2] % 256 ELSE v[i \div 2] \div 256]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bit(v, i) == (v[i \div 16 + 1] \div Pow2(i % 16)) % 2       \* i from 0
LowBit(v) == CHOOSE i \in 0..63 : Bit(v, i) = 1 /\ \A j \in 0..(i - 1) : Bit(v, j) = 0
HighBit(v) == CHOOSE i \in 0..63 : Bit(v, i) = 1 /\ \A j \in (i + 1)..63 : Bit(v, j) = 0

\* ------------------------------------------------------------------- base64
Letter(x) == IF x < 26 THEN 65 + x ELSE IF x < 52 THEN 71 + x ELSE IF x < 62 THEN x - 4
             ELSE IF x = 62 THEN 43 ELSE 47
Sextet(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71
             ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 0
In64(c) == c \in 65..90 \/ c \in 97..122 \/ c \in 48..57 \/ c \in {43, 47, 61}
Octet(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Enc(b) ==
  LET n == Len(b)
      four(k) == Octet(b, 3 * k + 1) * 65536 + Octet(b, 3 * k + 2) * 256 + Octet(b, 3 * k + 3)
      at(i) == LET k == (i - 1) \div 4   j == (i - 1) % 4 IN
               IF 3 * k + j > n THEN 61
               ELSE Letter((four(k) \div <<262144, 4096, 64, 1>>[j + 1]) % 64)
  IN [i \in 1..(4 * ((n + 2) \div 3)) |-> at(i)]
Is64(s) == \A i \in 1..Len(s) : In64(s[i])
\* padding only at the end, at most two of it
WellFormed(q) == /\ q # <<>> /\ Len(q) % 4 = 0
                 /\ \A i \in 1..Len(q) : q[i] = 61 => i > Len(q) - 2 /\ q[Len(q)] = 61
\* of the first four letters with padding among them, more than two are that
Pads(q, k) == Cardinality({i \in 1..4 : q[4 * k + i] = 61})
Overpadded(q) == \E k \in 0..(Len(q) \div 4 - 1) : Pads(q, k) > 2 /\ \A j \in 0..(k - 1) : Pads(q, j) = 0
\* what q stands for, fewer octets the more padding is at its end
Un64(q) ==
  LET n == Len(q)
      k24(k) == Sextet(q[4 * k + 1]) * 262144 + Sextet(q[4 * k + 2]) * 4096
                  + Sextet(q[4 * k + 3]) * 64 + Sextet(q[4 * k + 4])
      at(i) == (k24((i - 1) \div 3) \div <<65536, 256, 1>>[((i - 1) % 3) + 1]) % 256
      pad == IF n = 0 THEN 0 ELSE IF q[n - 1] = 61 THEN 2 ELSE IF q[n] = 61 THEN 1 ELSE 0
  IN [i \in 1..(3 * (n \div 4) - pad) |-> at(i)]
Letters(s) == SelectSeq(s, In64)

\* ---------------------------------------------------- is a call's answer right
Nul(e, b) == e.nul = (IF b THEN 1 ELSE 0)
Bool(x) == IF x THEN 1 ELSE 0
Pfx(r, s) == Len(r) >= Len(s) /\ SubSeq(r, 1, Len(s)) = s

Right(e) ==
  CASE e.e = "strlen" -> e.r = Len(e.s)
    [] e.e = "strcmp" -> e.r = Bool(e.s = e.t) /\ e.eq = e.r /\ e.mt = Bool(e.s = <<>>)
    [] e.e = "memchr" -> e.r = First(e.s, e.c)
    [] e.e = "memrchr" -> e.r = Last_(e.s, e.c)
    [] e.e = "memchr8" -> e.r = First(e.s, e.c) /\ e.k = e.r /\ e.has = Bool(e.r >= 0)
    [] e.e = "known" -> /\ e.mk = First(e.s, e.c) /\ e.pk = e.mk /\ e.p = e.mk
                        /\ e.rk = Last_(e.s, e.c) /\ e.prk = e.rk /\ e.pr = e.rk
    [] e.e = "knownb" -> e.mk = First(e.s, e.c) /\ e.rk = Last_(e.s, e.c)
    [] e.e = "strpos" -> e.r = Pos(e.s, e.t) /\ e.in = Bool(e.r >= 0)
    [] e.e = "split" -> /\ Nul(e, e.s = <<>>)
                        /\ e.s # <<>> => e.r = Split(e.s, e.t) /\ e.cnt = Len(e.r)
    [] e.e = "concat" -> Nul(e, FALSE) /\ e.r = Concat(e.a)
    [] e.e = "replace" -> /\ Nul(e, Pos(e.s, e.t) < 0)
                          /\ Pos(e.s, e.t) >= 0 => e.r = Replace(e.s, e.t, e.u)
    [] e.e = "memdup" -> Nul(e, FALSE) /\ e.r = Append(e.s, 0) /\ e.other = 1
    [] e.e = "copy" -> LET n == IF e.n = 0 THEN Len(e.s) ELSE e.n IN
                       e.ok = 1 /\ e.r = SubSeq(e.s, 1, n) \o [i \in 1..(Len(e.s) + 2 - n) |-> 35]
    [] e.e = "enc" -> Nul(e, FALSE) /\ e.r = Enc(e.s)
    [] e.e = "dec" -> LET q == Letters(e.s) IN
                      /\ e.is = Bool(Is64(e.s))
                      /\ IF q = <<>> \/ Len(q) % 4 # 0 \/ Overpadded(q) THEN Nul(e, TRUE)
                         ELSE WellFormed(q) => Nul(e, FALSE) /\ Pfx(e.r, Append(Un64(q), 0))
    [] e.e \in {"itoa", "itoa8"} -> e.r = Fmt(e.v) /\ e.n = Len(e.r)
    [] e.e \in {"atou", "atou8"} -> e.r = Value(e.s, 10)
    [] e.e = "atoi" -> e.r = SValue(e.s)
    [] e.e \in {"htou", "htou8"} -> e.r = Value(e.s, 16)
    [] e.e = "atod" -> SameNumber(e.r, e.s)
    [] e.e = "utoap" -> e.r = Padded(e.v, e.n) /\ e.ok = 1
    [] e.e = "utoa2p" -> e.r = <<48 + e.x \div 10, 48 + (e.x % 10)>> /\ e.w = e.r
    [] e.e = "cast8" -> e.r = OfBytes(Pad8(e.s))
    [] e.e = "bits" -> /\ e.hz = Bool(\E i \in 1..8 : Bytes(e.v)[i] = 0)
                       /\ IF e.v = Zero THEN e.ffs = 0
                          ELSE e.ctz = LowBit(e.v) /\ e.clz = 63 - HighBit(e.v) /\ e.ffs = LowBit(e.v) + 1
    [] OTHER -> FALSE
=============================================================================
