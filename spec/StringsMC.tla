------------------------------ MODULE StringsMC ------------------------------
(* The algebra of the definitions in Strings, for all small arguments: each    *)
(* state is one choice of them.                                                *)
EXTENDS Strings, FiniteSets
CONSTANTS Alpha, MaxLen, MaxPat
VARIABLE x
Texts(n) == UNION {[1..k -> Alpha] : k \in 0..n}
Triples == Texts(MaxLen) \X (Texts(MaxPat) \ {<<>>}) \X Texts(2)
InitT == x \in Triples
InitB == x \in Texts(MaxLen)
Limb == {0, 1, 9, 10, 255, 32767, 32768, 65535}
InitV == x \in [1..4 -> Limb]
Next == UNCHANGED x

\* the plain definitions of what Strings words for speed
Positions(t, c) == {i \in 1..Len(t) : t[i] = c}
Least(set) == CHOOSE i \in set : \A j \in set : i <= j
Most(set) == CHOOSE i \in set : \A j \in set : j <= i
RECURSIVE Find1(_, _, _)
Find1(t, p, from) == IF from + Len(p) - 1 > Len(t) THEN 0
                     ELSE IF At(t, p, from) THEN from ELSE Find1(t, p, from + 1)
RECURSIVE Enc1(_)
Enc1(b) ==
  IF b = <<>> THEN <<>> ELSE
  LET n == Len(b)
      v == b[1] * 65536 + (IF n > 1 THEN b[2] * 256 ELSE 0) + (IF n > 2 THEN b[3] ELSE 0)
      four == <<Letter(v \div 262144), Letter((v \div 4096) % 64),
                IF n > 1 THEN Letter((v \div 64) % 64) ELSE 61,
                IF n > 2 THEN Letter(v % 64) ELSE 61>>
  IN IF n <= 3 THEN four ELSE four \o Enc1(SubSeq(b, 4, n))
RECURSIVE Un641(_)
Un641(q) ==
  IF q = <<>> THEN <<>> ELSE
  LET v == Sextet(q[1]) * 262144 + Sextet(q[2]) * 4096 + Sextet(q[3]) * 64 + Sextet(q[4])
      three == <<v \div 65536, (v \div 256) % 256, v % 256>>
      pad == (IF q[3] = 61 THEN 1 ELSE 0) + (IF q[4] = 61 THEN 1 ELSE 0)
  IN SubSeq(three, 1, 3 - pad) \o Un641(SubSeq(q, 5, Len(q)))
PlainFind == \A from \in 1..(Len(x[1]) + 1) : Find(x[1], x[2], from) = Find1(x[1], x[2], from)
PlainEnds == \A c \in Alpha : /\ First(x[1], c) = IF Positions(x[1], c) = {} THEN -1 ELSE Least(Positions(x[1], c)) - 1
                             /\ Last_(x[1], c) = IF Positions(x[1], c) = {} THEN -1 ELSE Most(Positions(x[1], c)) - 1
Plain64 == Enc(x) = Enc1(x) /\ Un64(Enc(x)) = Un641(Enc(x))

SplitJoin == /\ Join(Split(x[1], x[2]), x[2]) = x[1]
             /\ \A i \in 1..Len(Split(x[1], x[2])) : Pos(Split(x[1], x[2])[i], x[2]) = -1
             /\ Len(Split(x[1], x[2])) = 1 <=> Pos(x[1], x[2]) = -1
ReplaceRight == /\ Replace(x[1], x[2], x[2]) = x[1]
                /\ Len(Replace(x[1], x[2], x[3])) =
                     Len(x[1]) + (Len(Split(x[1], x[2])) - 1) * (Len(x[3]) - Len(x[2]))
SearchRight == /\ Pos(x[1], x[2]) = -1 \/ At(x[1], x[2], Pos(x[1], x[2]) + 1)
               /\ \A i \in 1..(Len(x[1]) + 1) : At(x[1], x[2], i) => Pos(x[1], x[2]) \in 0..(i - 1)
               /\ Len(x[2]) = 1 => Pos(x[1], x[2]) = First(x[1], x[2][1])
               /\ First(x[1], x[2][1]) <= Last_(x[1], x[2][1])
Inverse64 == /\ WellFormed(Enc(x)) \/ x = <<>>
             /\ Len(Enc(x)) = 4 * ((Len(x) + 2) \div 3)
             /\ Un64(Enc(x)) = x
             /\ Is64(Enc(x))
Number == /\ Value(Dec(x), 10) = x
          /\ SValue(Fmt(x)) = x
          /\ Minus(Minus(x)) = x
          /\ Value(Padded(x, 20), 10) = x
          /\ Len(Dec(x)) <= 20
          /\ Len(Dec(x)) > 1 => Dec(x)[1] # 48
          /\ x # Zero => (Bit(x, LowBit(x)) = 1 /\ LowBit(x) <= HighBit(x))
          /\ OfBytes(Bytes(x)) = x
\* a number is near itself, wherever its point is; with another digit among the first thirteen it is not
WithPoint(t, k) == SubSeq(t, 1, k) \o <<46>> \o SubSeq(t, k + 1, Len(t))
NearRight == LET t == Dec(x) IN
             \A k \in {0, Len(t) \div 2} : LET w == WithPoint(t, k) IN
               /\ Near(w, w) /\ SameNumber(Plain(w), w) /\ SameNumber(<<45>> \o Plain(w), <<45>> \o w)
               /\ \A i \in {1, 13} : i <= Len(t) =>
                    LET o == [t EXCEPT ![i] = IF @ = 57 THEN 55 ELSE @ + 1]
                    IN ~SameNumber(Plain(WithPoint(o, k)), w)
=============================================================================
