-------------------------------- MODULE Num --------------------------------
(* Arithmetic helpers: integers that stand for (scaled) numbers, complex numbers
   as pairs, sums over index ranges. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Pow2(n) == 2^n
(* division truncating towards zero, as for machine integers *)
TDiv(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
TMod(a, b) == a - b * TDiv(a, b)
(* division rounding to the nearest integer; b > 0 *)
RDiv(a, b) == (2 * a + b) \div (2 * b)

CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CConj(x) == <<x[1], -x[2]>>
CScale(k, x) == <<k * x[1], k * x[2]>>
CZero == <<0, 0>>

(* sum of f(i) for i in lo .. hi *)
RECURSIVE SumR(_, _, _)
SumR(f(_), lo, hi) == IF lo > hi THEN 0
                      ELSE IF hi - lo < 8 THEN f(lo) + SumR(f, lo + 1, hi)
                      ELSE LET m == (lo + hi) \div 2 IN SumR(f, lo, m) + SumR(f, m + 1, hi)
RECURSIVE SumC(_, _, _)
SumC(f(_), lo, hi) == IF lo > hi THEN CZero
                      ELSE IF lo = hi THEN f(lo)
                      ELSE LET m == (lo + hi) \div 2 IN CAdd(SumC(f, lo, m), SumC(f, m + 1, hi))
----------------------------------------------------------------------------
(* Elementary functions in fixed point arithmetic, computed with integers only; One = 1.0.
   All intermediate results fit in 32 bits. *)
OneBits == 15
One == 2^OneBits
FMul(a, b) == (a * b) \div One          \* |a|, |b| <= One
(* sine and cosine of x, 0 <= x <= pi/4 *)
SinOct(x) == LET y == FMul(x, x) IN FMul(x, One - FMul(y, (One - FMul(y, (One - y \div 42)) \div 20)) \div 6)
CosOct(x) == LET y == FMul(x, x) IN One - FMul(y, One - FMul(y, (One - FMul(y, (One - y \div 56)) \div 30)) \div 12) \div 2
(* <<cos, sin>> of an angle in units of 2^-22 turns *)
TurnBits == 22
Turn == 2^TurnBits
CisT(t0) ==
    LET t == t0 % Turn
        o == t \div (Turn \div 8)            \* octant
        r == t % (Turn \div 8)
        x == ((IF o % 2 = 0 THEN r ELSE (Turn \div 8) - r) * 3217) \div 65536
        s == SinOct(x)
        c == CosOct(x)
    IN CASE o = 0 -> <<c, s>> [] o = 1 -> <<s, c>> [] o = 2 -> <<-s, c>> [] o = 3 -> <<-c, s>>
         [] o = 4 -> <<-c, -s>> [] o = 5 -> <<-s, -c>> [] o = 6 -> <<s, -c>> [] o = 7 -> <<c, -s>>
(* ... of p/q turns; 0 < q < 2^17 *)
Cis(p, q) ==
    LET a == p % q
        h == a * 2^14
    IN CisT((h \div q) * 256 + ((h % q) * 256) \div q)
(* 2^-22 turns of an angle in radians, n / 2^12; |n| <= 2^14 *)
RadT(n) == (n * 83443) \div 512
CisRad(n) == CisT(RadT(n))
(* floor of the square root *)
RECURSIVE SqrtIt(_, _)
SqrtIt(x, r) == LET n == (r + x \div r) \div 2 IN IF n >= r THEN r ELSE SqrtIt(x, n)
ISqrt(x) == IF x <= 0 THEN 0 ELSE SqrtIt(x, IF x > 2^24 THEN 2^16 - 1 ELSE 4097)
(* arc tangent of r, 0 <= r <= One; result in units of 1 / One *)
AtanSmall(r) == LET y == FMul(r, r) IN
    FMul(r, One - FMul(y, One \div 3 - FMul(y, One \div 5 - FMul(y, One \div 7 - FMul(y, One \div 9 - FMul(y, One \div 11 - FMul(y, One \div 13)))))))
Pi == 102944        \* * 2^-15
AtanUnit(r) == IF r <= 13573 THEN AtanSmall(r) ELSE Pi \div 4 - AtanSmall(((One - r) * One) \div (One + r))
(* the quotient a / b for 0 <= a <= b in units of 1 / One *)
RECURSIVE FracBits(_, _, _)
FracBits(a, b, k) == IF k = 0 THEN 0 ELSE IF 2 * a >= b THEN 2^(k - 1) + FracBits(2 * a - b, b, k - 1) ELSE FracBits(2 * a, b, k - 1)
Frac(a, b) == IF a = b THEN One ELSE FracBits(a, b, OneBits)
Atan2(y, x) ==      \* arguments up to 2^30
    LET ax == Abs(x) ay == Abs(y)
        f == IF ax = 0 /\ ay = 0 THEN 0 ELSE IF ay <= ax THEN AtanUnit(Frac(ay, ax)) ELSE Pi \div 2 - AtanUnit(Frac(ax, ay))
        g == IF x < 0 THEN Pi - f ELSE f
    IN IF y < 0 THEN -g ELSE g

SumSeq(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
=============================================================================
