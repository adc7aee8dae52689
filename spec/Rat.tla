-------------------------------- MODULE Rat --------------------------------
(* Rational numbers <<numerator, denominator>>, denominator positive, reduced. *)
EXTENDS Integers, Sequences
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
Rat(a, b) == LET g == Gcd(Abs(a), Abs(b))
                 s == IF b < 0 THEN -1 ELSE 1
             IN <<s * (a \div g), s * (b \div g)>>
RInt(a) == <<a, 1>>
RAdd(x, y) == Rat(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RNeg(x) == <<-x[1], x[2]>>
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == LET g1 == Gcd(Abs(x[1]), y[2])
                  g2 == Gcd(Abs(y[1]), x[2])
              IN IF x[1] = 0 \/ y[1] = 0 THEN <<0, 1>>
                 ELSE Rat((x[1] \div g1) * (y[1] \div g2), (x[2] \div g2) * (y[2] \div g1))
RInv(x) == Rat(x[2], x[1])
RDiv(x, y) == RMul(x, RInv(y))
RLe(x, y) == x[1] * y[2] <= y[1] * x[2]
RLt(x, y) == x[1] * y[2] < y[1] * x[2]
RFloor(x) == x[1] \div x[2]
RAbs(x) == <<Abs(x[1]), x[2]>>
RIsInt(x) == x[2] = 1
RECURSIVE RMaxS(_), RMinS(_), RSumS(_)
RMaxS(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == RMaxS(Tail(s)) IN IF RLt(m, s[1]) THEN s[1] ELSE m
RMinS(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == RMinS(Tail(s)) IN IF RLt(s[1], m) THEN s[1] ELSE m
RSumS(s) == IF Len(s) = 0 THEN <<0, 1>> ELSE RAdd(s[1], RSumS(Tail(s)))
=============================================================================
