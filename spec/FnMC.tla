-------------------------------- MODULE FnMC --------------------------------
(* Walks over the arguments of the predefined functions and of all small lookup tables, checks their laws and
   prints every walk as a scenario, which is replayed on the real functions. *)
EXTENDS DspVec, Json, IOUtils

MaxPts == atoi(IOEnv.PTS)        \* points of a table
Reach == atoi(IOEnv.DEPTH)       \* arguments from -Reach to Reach
Emit == IOEnv.EMIT = "1"
Every == atoi(IOEnv.EVERY)

VARIABLES f, fam, den, at, hist
vars == <<f, fam, den, at, hist>>

Sym(t) == \A i \in DOMAIN t : t[i] = t[Len(t) + 1 - i]
Tables(n) == UNION {[1 .. m -> {-1, 0, 2}] : m \in 1 .. n}
Pairs(t) == [i \in 1 .. 2 * Len(t) |-> IF i % 2 = 1 THEN t[(i + 1) \div 2] ELSE 1 - t[i \div 2]]
Fns == {<<2, 1, 0>>} \union {<<3, b, 0>> : b \in 1 .. 8} \union {<<k, r, n>> : k \in {6, 7}, r \in {1, 2}, n \in 0 .. MaxPts}
       \union {<<4, r, 0>> \o t : r \in {1, 2}, t \in Tables(MaxPts)}
       \union {<<5, r, 0>> \o t : r \in {1, 2}, t \in {u \in Tables(MaxPts) : Sym(u) /\ Len(u) % 2 = 1}}
       \union {<<8, 1, 0>> \o Pairs(t) : t \in Tables(2)}
Cplx == {<<k, r, 0>> \o Pairs(t) : k \in {4}, r \in {1, 2}, t \in Tables(MaxPts - 1)}

Init == /\ \/ f \in Fns /\ fam \in {0, 1}
           \/ f \in Cplx /\ fam \in {2, 3}
        /\ den \in (IF f[1] <= 3 THEN {1, 2, 8, 3} ELSE {1, 4})
        /\ at = -Reach
        /\ hist = <<>>
Fr == fam % 2 = 1
R(x) == FnR(f, 0, Fr, x, den)
Cx(x) == FnC(f, 0, Fr, x, den)
Call(x) == [op |-> "fn", t |-> 0, o |-> <<>>, a |-> <<fam, x, den>> \o f]
Next == /\ at <= Reach
        /\ at' = at + 1
        /\ hist' = IF Len(hist) < 30 THEN Append(hist, Call(at)) ELSE hist
        /\ UNCHANGED <<f, fam, den>>
        /\ IF Emit /\ at = Reach /\ TLCSet(5, (TLCGet(5) * 1103 + 12345) % 65536) /\ (TLCGet(5) \div 16) % Every = 0
           THEN PrintT("SCEN " \o ToJson([q |-> 12, ini |-> <<>>, calls |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == <<f, fam, den, at>>
ASSUME TLCSet(5, atoi(IOEnv.VERIF_SEED) % 65536)
----------------------------------------------------------------------------
Near(x, y, t) == Abs(x - y) <= t
Tol == FnTol(f, 0, Fr, at, den)
Pnts == PointsR(f, 0, Fr)
Half == Len(Pnts) \div 2
Laws ==
    IF fam < 2
    THEN \* the value at the middle of a predefined function is one, and it is symmetric
         /\ f[1] \in {2, 3} => /\ at = 0 => R(at) = FnOne
                               /\ Near(R(at), R(-at), 2 * Tol)
                               /\ Abs(R(at)) <= FnOne + Tol
         \* in time domain: zero at all other integers
         /\ f[1] \in {2, 3} /\ ~Fr /\ at # 0 /\ at % den = 0 => Near(R(at), 0, 2 * Tol + 1)
         \* in frequency domain: shifted copies add up to a constant
         /\ f[1] = 3 /\ Fr /\ Abs(at) <= 2 * den => Near(R(Abs(at)) + R(2 * den - Abs(at)), FnOne, 2 * Tol + 2)
         \* a table has its points, is between them elsewhere, and ends
         /\ f[1] >= 4 => LET v == R(at) IN
               /\ (at * f[2]) % den = 0 => LET i == (at * f[2]) \div den + Half + 1 IN v = IF i \in DOMAIN Pnts THEN Pnts[i] ELSE 0
               /\ (at * f[2]) % den # 0 =>
                     LET u == at * f[2] i == u \div den + Half + 1 IN      \* between point i and i + 1
                     CASE i \in DOMAIN Pnts /\ i + 1 \in DOMAIN Pnts -> v >= Min2(Pnts[i], Pnts[i + 1]) - 1 /\ v <= Max2(Pnts[i], Pnts[i + 1]) + 1
                       [] i \in DOMAIN Pnts -> v \in {0, Pnts[i]} [] i + 1 \in DOMAIN Pnts -> v \in {0, Pnts[i + 1]} [] OTHER -> v = 0
               \* a symmetric table gives a symmetric function
               /\ f[1] = 5 => v = R(-at)
    ELSE \* real and imaginary parts do not influence each other
         LET part(k) == <<f[1], f[2], 0>> \o [i \in 1 .. (Len(f) - 3) \div 2 |-> f[2 + 2 * i + k]]
         IN Cx(at) = <<FnR(part(0), 0, Fr, at, den), FnR(part(1), 0, Fr, at, den)>>
=============================================================================
