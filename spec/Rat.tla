-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic on <<numerator, denominator>> pairs kept in    *)
(* lowest terms with a positive denominator.  TLC integers are 32 bit and   *)
(* TLC reports an overflow as an error, never as a wrong number, so all     *)
(* products are formed after cancelling common factors.                     *)
EXTENDS Integers

RECURSIVE Gcd(_, _)
Abs(a) == IF a < 0 THEN -a ELSE a
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

(* Normalised rational n/d. *)
Q(n, d) == IF n = 0 THEN <<0, 1>>
           ELSE LET g == Gcd(Abs(n), Abs(d))
                    s == IF d < 0 THEN -1 ELSE 1
                IN  <<s * (n \div g), s * (d \div g)>>
I(n) == <<n, 1>>
Num(a) == a[1]
Den(a) == a[2]

RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN  Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
              ELSE LET g == Gcd(Abs(a[1]), b[2])
                       h == Gcd(Abs(b[1]), a[2])
                   IN  <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))

RSign(a) == IF a[1] < 0 THEN -1 ELSE IF a[1] > 0 THEN 1 ELSE 0
RCmp(a, b) == RSign(RSub(a, b))
RLt(a, b) == RCmp(a, b) < 0
RLe(a, b) == RCmp(a, b) <= 0
REq(a, b) == a = b                         \* both are in lowest terms
RIsInt(a) == a[2] = 1
RFloor(a) == a[1] \div a[2]                \* TLA+ \div rounds toward -infinity
RCeil(a) == -((-a[1]) \div a[2])

(* Thousandths of a, rounded down, digit by digit so as not to overflow.    *)
RMilli(a) == LET q  == a[1] \div a[2]
                 r0 == (a[1] % a[2]) * 10
                 r1 == (r0 % a[2]) * 10
                 r2 == (r1 % a[2]) * 10
             IN  1000 * q + 100 * (r0 \div a[2]) + 10 * (r1 \div a[2]) + (r2 \div a[2])
=============================================================================
