--------------------------------- MODULE Fn ---------------------------------
(* The functions which are handed to convolutions, frequency responses and interpolations:
     a[off + 1]   kind: 0 (asymmetric) and 1 (symmetric) a step function supplied by the caller, 2 sinc, 3 raised cosine,
                  4 (asymmetric) and 5 (symmetric) a table with linear interpolation between its points,
                  6 and 7 such a table sampled from sinc / the raised cosine with a rolloff of 1/2
                  8 and 9: the real parts of a complex table, 4 and 5
     a[off + 2]   resolution: table points per 1 (4 .. 9 and 0, 1); 8 * rolloff (3)
     a[off + 3]   index of the point at 0 (0, 1); number of sampled points on every side (6, 7)
     a[off + 4 ..]  the table; pairs for a complex one
   The value at num / den is an integer in units of 2^-FnBits. *)
EXTENDS Num

RoundAway(p, q) == IF p >= 0 THEN (2 * p + q) \div (2 * q) ELSE -((q - 2 * p) \div (2 * q))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RDivS(a, b) == IF b < 0 THEN RDiv(-a, -b) ELSE RDiv(a, b)

TabSym(a, off) == a[off + 1] \notin {0, 4, 8}
TabIdx(a, off, num, den) == RoundAway(num * a[off + 2], den) + a[off + 3]
TabR(a, off, num, den) == LET i == TabIdx(a, off, num, den) IN IF i < 0 \/ off + 4 + i > Len(a) THEN 0 ELSE a[off + 4 + i]
TabC(a, off, num, den) == LET i == TabIdx(a, off, num, den) IN
    IF i < 0 \/ off + 5 + 2 * i > Len(a) THEN CZero ELSE <<a[off + 4 + 2 * i], a[off + 5 + 2 * i]>>

FnOne == 2^12
FnBits(a, off) == IF a[off + 1] <= 1 THEN 0 ELSE 12
FnScale(a, off) == Pow2(FnBits(a, off))
(* sin(pi x) / (pi x) at num / den in units of 1 / One; pi = 355 / 113 *)
Sinc15(num, den) == IF num = 0 THEN One ELSE RDivS(Cis(num, 2 * den)[2] * den * 113, 355 * num)
SincTime(num, den) == RDiv(Sinc15(num, den), 8)
SincFreq(num, den) == IF Abs(num) <= den THEN FnOne ELSE 0
(* raised cosine with a rolloff of b / 8 *)
RcTime(b, num, den) ==
    LET M == Abs(b * num) N == 4 * den IN          \* 2 * rolloff * x = M / N
    IF num = 0 THEN FnOne
    ELSE IF M = N THEN RDiv(RDiv(Sinc15(4, b) * 355, 113 * 4), 8)
    ELSE LET sc == FMul(Sinc15(num, den), Cis(b * num, 16 * den)[1])
         IN RDiv(RDivS(RDivS(sc * N, N - M) * N, N + M), 8)
RcFreq(b, num, den) ==
    IF 8 * Abs(num) <= (8 - b) * den THEN FnOne
    ELSE IF 8 * Abs(num) <= (8 + b) * den THEN RDiv(One + Cis(8 * Abs(num) - (8 - b) * den, 4 * b * den)[1], 16)
    ELSE 0
(* the points of the table, in units of 1 / FnOne *)
BaseR(kind, b, fr, num, den) == LET g == Max2(1, Gcd(Abs(num), den)) x == num \div g y == den \div g IN
    IF kind = 2 THEN (IF fr THEN SincFreq(x, y) ELSE SincTime(x, y)) ELSE (IF fr THEN RcFreq(b, x, y) ELSE RcTime(b, x, y))
Sampled(a, off, fr) == [i \in 1 .. 2 * a[off + 3] + 1 |-> BaseR(a[off + 1] - 4, 4, fr, i - 1 - a[off + 3], a[off + 2])]
PointsR(a, off, fr) == IF a[off + 1] \in {6, 7} THEN Sampled(a, off, fr)
                       ELSE IF a[off + 1] \in {8, 9} THEN [i \in 1 .. (Len(a) - off - 3) \div 2 |-> a[off + 2 + 2 * i] * FnOne]
                       ELSE [i \in 1 .. Len(a) - off - 3 |-> a[off + 3 + i] * FnOne]
PointsC(a, off, fr) == IF a[off + 1] \in {6, 7} THEN LET r == Sampled(a, off, fr) IN [i \in DOMAIN r |-> <<r[i], 0>>]
                       ELSE [i \in 1 .. (Len(a) - off - 3) \div 2 |-> <<a[off + 2 + 2 * i] * FnOne, a[off + 3 + 2 * i] * FnOne>>]
(* linear interpolation in table t; its middle is at 0, it is 0 outside *)
Look(t, res, num, den, zero, mix(_, _, _)) ==
    LET u == num * res + (Len(t) \div 2) * den          \* the position is u / den
        r == RoundAway(u, den)
        o == IF u > r * den THEN r + 1 ELSE r - 1
    IN IF r < 0 \/ r >= Len(t) THEN zero
       ELSE IF u = r * den \/ o < 0 \/ o >= Len(t) THEN t[r + 1]
       ELSE mix(t[r + 1], t[o + 1], Abs(u - r * den))
LookR(t, res, num, den) == Look(t, res, num, den, 0, LAMBDA x, y, w : x + RDiv((y - x) * w, den))
LookC(t, res, num, den) == Look(t, res, num, den, CZero, LAMBDA x, y, w : <<x[1] + RDiv((y[1] - x[1]) * w, den), x[2] + RDiv((y[2] - x[2]) * w, den)>>)
(* real and complex functions, fr: frequency responses *)
FnR(a, off, fr, num, den) ==
    CASE a[off + 1] <= 1 -> TabR(a, off, num, den)
      [] a[off + 1] \in {2, 3} -> BaseR(a[off + 1], a[off + 2], fr, num, den)
      [] OTHER -> LET g == Max2(1, Gcd(Abs(num), den)) IN LookR(PointsR(a, off, fr), a[off + 2], num \div g, den \div g)
FnC(a, off, fr, num, den) ==
    IF a[off + 1] <= 1 THEN TabC(a, off, num, den)
    ELSE LET g == Max2(1, Gcd(Abs(num), den)) IN LookC(PointsC(a, off, fr), a[off + 2], num \div g, den \div g)
(* how far off the value may be: the integer arithmetic near the zeros of the denominator of the raised cosine *)
RcTol(b, num, den) == LET g == Max2(1, Gcd(Abs(num), den)) M == Abs(b * num) \div g N == (4 * den) \div g IN
    IF num = 0 \/ M = N THEN 3 ELSE 3 + (2 * N) \div Abs(N - M)
FnTol(a, off, fr, num, den) == CASE a[off + 1] <= 1 -> 0
    [] a[off + 1] = 3 /\ ~fr -> RcTol(a[off + 2], num, den)
    [] a[off + 1] = 7 /\ ~fr -> 3 + 4 * 2 * a[off + 2]
    [] OTHER -> 3
=============================================================================
