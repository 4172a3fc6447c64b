-------------------------------- MODULE Elem --------------------------------
(* The elementary functions.  Numbers are integers scaled by One = 2^15; every function is
   computed with integers only and is accurate to a few units.  A value is a record
   [v |-> re, u |-> im, t |-> tolerance]; t = Skip: nothing is said about this value,
   t = Bad: the result is not a finite number. *)
EXTENDS Num

Skip == -1
Bad == -2

(* product and quotient, exact up to one unit, for results below 2^30 *)
MulQ(a, b) == LET ah == a \div One al == a % One IN ah * b + al * (b \div One) + (al * (b % One)) \div One
DivQ(a, b) ==   \* b # 0
    LET n == Abs(a) d == Abs(b)
        q == (n \div d) * One + FracBits(n % d, d, OneBits)
    IN IF (a < 0) = (b < 0) THEN q ELSE -q
RECURSIVE SqrtQ(_)
SqrtQ(x) == IF x < 2^16 THEN ISqrt(x * 2^15) ELSE 2 * SqrtQ(x \div 4)
Ln2 == 22713
Pi2 == 205887
Big == 10 * One         \* largest argument of the exponential function
ExpSmall(r) == One + MulQ(r, One + MulQ(r, One + MulQ(r, One + MulQ(r, One + r \div 5) \div 4) \div 3) \div 2)
ExpQ(x) == IF x < -11 * One THEN 0
           ELSE LET k == RDiv(x, Ln2)
                    y == ExpSmall(x - (k * 1453635) \div 64)
                IN IF k >= 0 THEN y * 2^k ELSE RDiv(y, 2^(-k))
RECURSIVE LnNorm(_, _)
LnNorm(x, k) == IF x >= 2 * One THEN LnNorm(x \div 2, k + 1) ELSE IF x < One THEN LnNorm(2 * x, k - 1)
                ELSE LET s == DivQ(x - One, x + One)
                         y == MulQ(s, s)
                     IN (k * 1453635) \div 64 + 2 * MulQ(s, One + MulQ(y, One \div 3 + MulQ(y, One \div 5 + MulQ(y, One \div 7 + MulQ(y, One \div 9)))))
LnQ(x) == LnNorm(x, 0)          \* x > 0
CisQ(x) == LET y == x % Pi2 IN CisT(y * 20 + (y * 3046) \div 8192)
SinQ(x) == CisQ(x)[2]
CosQ(x) == CisQ(x)[1]
SinhQ(x) == (ExpQ(x) - ExpQ(-x)) \div 2
CoshQ(x) == (ExpQ(x) + ExpQ(-x)) \div 2

----------------------------------------------------------------------------
(* complex numbers *)
CMulQ(x, y) == <<MulQ(x[1], y[1]) - MulQ(x[2], y[2]), MulQ(x[1], y[2]) + MulQ(x[2], y[1])>>
CAbs2Q(x) == MulQ(x[1], x[1]) + MulQ(x[2], x[2])
RECURSIVE CAbsQ(_)
CAbsQ(x) == IF Max2(Abs(x[1]), Abs(x[2])) < 2^15 THEN ISqrt(x[1] * x[1] + x[2] * x[2])
            ELSE 2 * CAbsQ(<<RDiv(x[1], 2), RDiv(x[2], 2)>>)
CDivQ(x, y) == LET m == CAbs2Q(y)  z == CMulQ(x, CConj(y)) IN <<DivQ(z[1], m), DivQ(z[2], m)>>
CSqrtQ(x) == LET r == CAbsQ(x)
                 t == SqrtQ((r + Abs(x[1])) \div 2)
             IN IF t = 0 THEN <<0, 0>>
                ELSE IF x[1] >= 0 THEN <<t, DivQ(x[2], 2 * t)>>
                ELSE <<DivQ(Abs(x[2]), 2 * t), IF x[2] < 0 THEN -t ELSE t>>
CExpQ(x) == LET m == ExpQ(x[1])  c == CisQ(x[2]) IN <<MulQ(m, c[1]), MulQ(m, c[2])>>
CLnQ(x) == <<LnQ(CAbsQ(x)), Atan2(x[2], x[1])>>
CI(x) == <<-x[2], x[1]>>        \* i x
CNegI(x) == <<x[2], -x[1]>>     \* -i x
C1 == <<One, 0>>
CHalf(x) == <<x[1] \div 2, x[2] \div 2>>
(* ln(x + sqrt(1 + x^2)); odd, and x + sqrt is only computed where nothing cancels *)
CAsinhQ(x) == LET s == CSqrtQ(CAdd(C1, CMulQ(x, x)))
                  y == CAdd(x, s)
                  z == CSub(s, x)
              IN IF Max2(Abs(y[1]), Abs(y[2])) >= Max2(Abs(z[1]), Abs(z[2])) THEN CLnQ(y) ELSE CScale(-1, CLnQ(z))
CAsinQ(x) == CNegI(CAsinhQ(CI(x)))
CAcosQ(x) == CSub(<<Pi \div 2, 0>>, CAsinQ(x))
CAtanQ(x) == CNegI(CHalf(CSub(CLnQ(CAdd(C1, CI(x))), CLnQ(CSub(C1, CI(x))))))
CAcoshQ(x) == CScale(2, CLnQ(CAdd(CSqrtQ(CHalf(CAdd(x, C1))), CSqrtQ(CHalf(CSub(x, C1))))))
CAtanhQ(x) == CHalf(CSub(CLnQ(CAdd(C1, x)), CLnQ(CSub(C1, x))))
CSinQ(x) == LET c == CisQ(x[1]) IN <<MulQ(c[2], CoshQ(x[2])), MulQ(c[1], SinhQ(x[2]))>>
CCosQ(x) == LET c == CisQ(x[1]) IN <<MulQ(c[1], CoshQ(x[2])), -MulQ(c[2], SinhQ(x[2]))>>
CSinhQ(x) == CNegI(CSinQ(CI(x)))
CCoshQ(x) == CCosQ(CI(x))

----------------------------------------------------------------------------
ApproxOps == {"ln_approx", "exp_approx", "sin_approx", "cos_approx", "log_approx", "expf_approx", "powf_approx"}
ElemOps == {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
    "sqrt", "square", "root", "powf", "ln", "exp", "log", "expf"} \union ApproxOps
Exact(op) == CASE op = "ln_approx" -> "ln" [] op = "exp_approx" -> "exp" [] op = "sin_approx" -> "sin" [] op = "cos_approx" -> "cos"
               [] op = "log_approx" -> "log" [] op = "expf_approx" -> "expf" [] op = "powf_approx" -> "powf" [] OTHER -> op

Val(x) == [v |-> x, u |-> 0, t |-> 16 + Abs(x) \div 512]
NoVal(t) == [v |-> 0, u |-> 0, t |-> t]
CVal(z, t) == [v |-> z[1], u |-> z[2], t |-> t + Max2(Abs(z[1]), Abs(z[2])) \div 256]
(* x to the power of p / q, q > 0 *)
RPow(x, p, q) ==
    IF p = 0 THEN Val(One)
    ELSE IF x = 0 THEN (IF p > 0 THEN Val(0) ELSE NoVal(Bad))
    ELSE IF x < 0 /\ p % q # 0 THEN NoVal(Bad)
    ELSE LET y == RDiv(LnQ(Abs(x)) * p, q)
         IN IF y > Big THEN NoVal(Skip)
            ELSE LET z == ExpQ(y) IN [Val(IF x < 0 /\ (p \div q) % 2 # 0 THEN -z ELSE z) EXCEPT !.t = @ + MulQ(z, (3 * Abs(p)) \div q + 1)]
(* real functions; p / q is the parameter *)
RF(f, x, p, q) ==
    CASE f = "sin" -> Val(SinQ(x))
      [] f = "cos" -> Val(CosQ(x))
      [] f = "tan" -> LET c == CisQ(x) IN IF Abs(c[1]) < One \div 16 THEN NoVal(Skip) ELSE LET y == DivQ(c[2], c[1]) IN [Val(y) EXCEPT !.t = 32 + MulQ(y, y) \div 512]
      [] f = "asin" -> IF Abs(x) > One THEN NoVal(Bad) ELSE Val(Atan2(x, ISqrt((One - x) * (One + x))))
      [] f = "acos" -> IF Abs(x) > One THEN NoVal(Bad) ELSE Val(Atan2(ISqrt((One - x) * (One + x)), x))
      [] f = "atan" -> Val(Atan2(x, One))
      [] f = "sinh" -> IF Abs(x) > Big THEN NoVal(Skip) ELSE Val(SinhQ(x))
      [] f = "cosh" -> IF Abs(x) > Big THEN NoVal(Skip) ELSE Val(CoshQ(x))
      [] f = "tanh" -> IF Abs(x) > Big THEN Val(IF x < 0 THEN -One ELSE One) ELSE Val(DivQ(SinhQ(x), CoshQ(x)))
      [] f = "asinh" -> LET y == LnQ(Abs(x) + SqrtQ(One + MulQ(x, x))) IN Val(IF x < 0 THEN -y ELSE y)
      [] f = "acosh" -> IF x < One THEN NoVal(Bad) ELSE Val(LnQ(x + SqrtQ(MulQ(x - One, x + One))))
      [] f = "atanh" -> IF Abs(x) >= One THEN NoVal(Bad) ELSE Val((LnQ(One + x) - LnQ(One - x)) \div 2)
      [] f = "sqrt" -> IF x < 0 THEN NoVal(Bad) ELSE Val(SqrtQ(x))
      [] f = "square" -> Val(MulQ(x, x))
      [] f = "ln" -> IF x <= 0 THEN NoVal(Bad) ELSE Val(LnQ(x))
      [] f = "exp" -> IF x > Big THEN NoVal(Skip) ELSE Val(ExpQ(x))
      [] f = "powf" -> RPow(x, p, q)
      [] f = "root" -> IF p < 0 THEN RPow(x, -q, -p) ELSE RPow(x, q, p)
      [] f = "log" -> IF x <= 0 THEN NoVal(Bad) ELSE [Val(DivQ(LnQ(x), LnQ((p * One) \div q))) EXCEPT !.t = @ + 32]
      [] f = "expf" -> LET y == MulQ(x, LnQ((p * One) \div q)) IN IF y > Big THEN NoVal(Skip) ELSE Val(ExpQ(y))
(* complex functions: the principal value.  Nothing is said on a branch cut, where the value
   depends on the sign of a zero, and close to a pole. *)
CPow(z, p, q) ==
    IF p = 0 THEN CVal(C1, 16)
    ELSE IF z = <<0, 0>> THEN NoVal(Skip)
    ELSE IF z[2] = 0 /\ z[1] < 0 THEN NoVal(Skip)
    ELSE LET l == CLnQ(z) y == <<RDiv(l[1] * p, q), RDiv(l[2] * p, q)>>
         IN IF y[1] > Big THEN NoVal(Skip) ELSE LET r == CExpQ(y) IN CVal(r, 32 + MulQ(Abs(r[1]) + Abs(r[2]), (8 * Abs(p)) \div q + 1))
CF(f, z, p, q) ==
    LET a == z[1] b == z[2] IN
    CASE f = "sin" -> IF Abs(b) > Big THEN NoVal(Skip) ELSE CVal(CSinQ(z), 16)
      [] f = "cos" -> IF Abs(b) > Big THEN NoVal(Skip) ELSE CVal(CCosQ(z), 16)
      [] f = "tan" -> IF Abs(b) > Big \div 2 THEN NoVal(Skip) ELSE LET c == CCosQ(z) IN IF CAbsQ(c) < One \div 8 THEN NoVal(Skip) ELSE CVal(CDivQ(CSinQ(z), c), 300)
      [] f = "sinh" -> IF Abs(a) > Big THEN NoVal(Skip) ELSE CVal(CSinhQ(z), 16)
      [] f = "cosh" -> IF Abs(a) > Big THEN NoVal(Skip) ELSE CVal(CCoshQ(z), 16)
      [] f = "tanh" -> IF Abs(a) > Big \div 2 THEN NoVal(Skip) ELSE LET c == CCoshQ(z) IN IF CAbsQ(c) < One \div 8 THEN NoVal(Skip) ELSE CVal(CDivQ(CSinhQ(z), c), 300)
      [] f = "asin" -> IF b = 0 /\ Abs(a) > One THEN NoVal(Skip) ELSE CVal(CAsinQ(z), 300)
      [] f = "acos" -> IF b = 0 /\ Abs(a) > One THEN NoVal(Skip) ELSE CVal(CAcosQ(z), 300)
      [] f = "atan" -> IF a = 0 /\ Abs(b) >= One THEN NoVal(Skip) ELSE CVal(CAtanQ(z), 300)
      [] f = "asinh" -> IF a = 0 /\ Abs(b) > One THEN NoVal(Skip) ELSE CVal(CAsinhQ(z), 300)
      [] f = "acosh" -> IF b = 0 /\ a < One THEN NoVal(Skip) ELSE CVal(CAcoshQ(z), 300)
      [] f = "atanh" -> IF b = 0 /\ Abs(a) >= One THEN NoVal(Skip) ELSE CVal(CAtanhQ(z), 300)
      [] f = "sqrt" -> IF b = 0 /\ a < 0 THEN NoVal(Skip) ELSE CVal(CSqrtQ(z), 128)
      [] f = "square" -> CVal(CMulQ(z, z), 16)
      [] f = "ln" -> IF z = <<0, 0>> THEN NoVal(Skip) ELSE IF b = 0 /\ a < 0 THEN NoVal(Skip) ELSE CVal(CLnQ(z), 128)
      [] f = "exp" -> IF a > Big THEN NoVal(Skip) ELSE CVal(CExpQ(z), 16)
      [] f = "powf" -> CPow(z, p, q)
      [] f = "root" -> IF p < 0 THEN CPow(z, -q, -p) ELSE CPow(z, q, p)
      [] f = "log" -> IF z = <<0, 0>> THEN NoVal(Skip) ELSE IF b = 0 /\ a < 0 THEN NoVal(Skip)
                      ELSE LET l == CLnQ(z) d == LnQ((p * One) \div q) IN CVal(<<DivQ(l[1], d), DivQ(l[2], d)>>, 128 + DivQ(128, Abs(d)))
      [] f = "expf" -> LET d == LnQ((p * One) \div q)  y == <<MulQ(z[1], d), MulQ(z[2], d)>> IN IF y[1] > Big THEN NoVal(Skip) ELSE CVal(CExpQ(y), 32)
(* the approximations stay within one percent or 0.001 *)
Loose(x) == IF x.t < 0 THEN x ELSE [x EXCEPT !.t = Max2(@, Max2(Abs(x.v) \div 100, One \div 1024))]
Fun(op, x, p, q) == IF op = "powf_approx" /\ x <= 0 THEN NoVal(Skip)
                    ELSE IF op \in ApproxOps THEN Loose(RF(Exact(op), x, p, q)) ELSE RF(op, x, p, q)
=============================================================================
