------------------------------- MODULE DspVec -------------------------------
(* The state of a vector and the effect of every operation on it.

   A vector is a record
     ty   "RT" "CT" "RF" "CF" (state fixed by the type) or "G" (state tracked at run time)
     cx   complex?        fr   in frequency domain?
     d    the valid elements as integers: value * S, complex points interleaved
     dl   sample spacing * 4096;  nan: the spacing is not a number (invalid marker)
     alloc  number of elements of the storage
     gr   "yes" storage can grow, "no" it can not, "any" unknown

   Eff(e, P, S) is the effect of the call e (record with op, target slot t, operand
   slots o, integer arguments a) on the slots P.  The result is a record
     r    "ok", "num" (a numeric result) or the name of the error
     p    function from the slots which may change to their new vectors
     n    the numeric result (scaled by NS)
     tol  tolerance for the elements (0: exact)     nt   tolerance for n
     te   tolerance of every single element, added to tol: Skip, nothing is said; Bad, not finite
     m    number of leading elements which are specified (-1: all)
     dt   tolerance for the spacing
     alt  results which are admissible, too; the vectors are unchanged then
     free slots whose content is not specified after a failure
   An operation which must not be called in this state at all has r = "undefined". *)
EXTENDS Elem, Fn

W(v) == IF v.cx THEN 2 ELSE 1
Pts(v) == Len(v.d) \div W(v)
IsGen(v) == v.ty = "G"
(* the invalid vector: every operation which is illegal for a run time typed vector leads here *)
Invalid(v) == [v EXCEPT !.d = <<>>, !.nan = TRUE]
IsInvalid(v) == v.nan /\ v.d = <<>>

TypeOf(cx, fr) == IF fr THEN (IF cx THEN "CF" ELSE "RF") ELSE (IF cx THEN "CT" ELSE "RT")
ToReal(v) == [v EXCEPT !.cx = FALSE, !.ty = IF @ = "G" THEN "G" ELSE TypeOf(FALSE, v.fr)]
ToCplx(v) == [v EXCEPT !.cx = TRUE, !.ty = IF @ = "G" THEN "G" ELSE TypeOf(TRUE, v.fr)]
ToFreq(v) == [v EXCEPT !.fr = TRUE, !.ty = IF @ = "G" THEN "G" ELSE TypeOf(v.cx, TRUE)]
ToTime(v) == [v EXCEPT !.fr = FALSE, !.ty = IF @ = "G" THEN "G" ELSE TypeOf(v.cx, FALSE)]

(* what must hold for every vector at every time *)
RepOK(v) == /\ Len(v.d) <= v.alloc
            /\ v.cx => Len(v.d) % 2 = 0
            /\ v.ty # "G" => v.ty = TypeOf(v.cx, v.fr)

----------------------------------------------------------------------------
(* data movement *)
El(v, i) == v.d[i + 1]
Pt(v, i) == <<v.d[2 * i + 1], v.d[2 * i + 2]>>
(* m points, point i is the old point src(i), or zero if that is negative *)
Gather(v, m, src(_)) ==
    LET w == W(v) IN
    [k \in 1 .. m * w |-> LET s == src((k - 1) \div w) IN IF s < 0 THEN 0 ELSE v.d[s * w + ((k - 1) % w) + 1]]
GatherV(v, m, src(_)) == [v EXCEPT !.d = Gather(v, m, src)]
(* elementwise on the flat data / on complex points *)
MapE(v, f(_)) == [v EXCEPT !.d = [k \in DOMAIN v.d |-> f(v.d[k])]]
FromPts(n, f(_)) ==
    LET g == TLCEval([i \in 1 .. n |-> f(i - 1)])
    IN [k \in 1 .. 2 * n |-> g[((k - 1) \div 2) + 1][((k - 1) % 2) + 1]]
MapP(v, f(_)) == [v EXCEPT !.d = FromPts(Len(v.d) \div 2, LAMBDA i : f(Pt(v, i)))]

RevV(v) == LET n == Pts(v) IN GatherV(v, n, LAMBDA i : n - 1 - i)
(* forward: the last floor(n/2) points move to the front *)
SwapHalves(v) == LET n == Pts(v) IN GatherV(v, n, LAMBDA i : (i + (n - n \div 2)) % n)
UnswapHalves(v) == LET n == Pts(v) IN GatherV(v, n, LAMBDA i : (i + n \div 2) % n)
Pad(v, m, opt) ==
    LET n == Pts(v)
        left == IF opt = 0 THEN 0 ELSE IF opt = 1 THEN (m - n) - ((m - n) \div 2) ELSE 0
        cl == n - n \div 2      \* centre padding: points which stay at the front
    IN IF opt = 2 THEN GatherV(v, m, LAMBDA i : IF i < cl THEN i ELSE IF i >= m - (n - cl) THEN i - (m - n) ELSE -1)
       ELSE GatherV(v, m, LAMBDA i : IF i >= left /\ i < left + n THEN i - left ELSE -1)
ZeroStuff(v, k) == LET n == Pts(v) IN GatherV(v, n * k, LAMBDA i : IF i % k = 0 THEN i \div k ELSE -1)
Decimate(v, k, off) == LET n == Pts(v) IN
    GatherV(v, IF off >= n THEN 0 ELSE (n - off + k - 1) \div k, LAMBDA i : off + i * k)
Diff(v) == LET w == W(v) n == Pts(v) IN
    [v EXCEPT !.d = [k \in 1 .. (IF n = 0 THEN 0 ELSE (n - 1) * w) |-> v.d[k + w] - v.d[k]]]
DiffS(v) == LET w == W(v) IN [v EXCEPT !.d = [k \in DOMAIN v.d |-> IF k <= w THEN v.d[k] ELSE v.d[k] - v.d[k - w]]]
CumSum(v) == LET w == W(v) IN
    [v EXCEPT !.d = FoldLeft(LAMBDA acc, x : Append(acc, IF Len(acc) < w THEN x ELSE acc[Len(acc) + 1 - w] + x), <<>>, v.d)]
SplitPart(v, k, j) == GatherV(v, Pts(v) \div k, LAMBDA i : i * k + j).d

----------------------------------------------------------------------------
(* results *)
Res(r, p) == [r |-> r, p |-> p, n |-> <<>>, tol |-> 0, nt |-> 0, m |-> -1, dt |-> 0, alt |-> {}, free |-> {}, te |-> <<>>]
Ok(e, v) == Res("ok", e.t :> v)
Fail(why) == Res(why, <<>>)
Num(s) == [Res("num", <<>>) EXCEPT !.n = s]
Undef == Res("undefined", <<>>)
(* an operation which is only defined if c holds; run time typed vectors become invalid otherwise *)
Req(c, e, T, eff) == IF c THEN eff ELSE IF IsGen(T) THEN Ok(e, Invalid(T)) ELSE Undef
(* the operation needs n elements of storage *)
Room(e, T, n, eff) == IF n <= T.alloc THEN eff
                      ELSE IF T.gr = "yes" THEN eff
                      ELSE IF T.gr = "any" THEN [eff EXCEPT !.alt = {"TypeCanNotResize"}]
                      ELSE Fail("TypeCanNotResize")
(* ... and takes it from a buffer.  Storage which can't take over what is in the buffer must not
   be left with a length it does not have: the call does not return normally. *)
RoomB(e, T, n, eff) == IF n <= T.alloc \/ T.gr = "yes" THEN eff
                       ELSE [Fail("TypeCanNotResize") EXCEPT !.alt = {"panic"}]

DeltaAgrees(x, y) == IF x.nan \/ y.nan THEN TRUE
                     ELSE 10 * x.dl <= 11 * y.dl /\ 10 * x.dl >= 9 * y.dl
MetaAgrees(x, y) == x.cx = y.cx /\ x.fr = y.fr /\ DeltaAgrees(x, y)

ReorgOps == {"reverse", "swap_halves", "fft_shift", "ifft_shift", "resize", "resize_b", "zero_pad", "zero_pad_b",
    "zero_interleave", "zero_interleave_b", "diff", "diff_with_start", "cum_sum", "split_into", "merge", "decimatei",
    "set_delta", "write", "set_mc", "clone"}

EffReorg(e, P, S) ==
    LET T == P[e.t]
        A(i) == e.a[i]
        w == W(T)
        n == Pts(T)
    IN CASE e.op = "reverse" -> Ok(e, RevV(T))
    [] e.op = "swap_halves" -> Ok(e, SwapHalves(T))
    [] e.op = "fft_shift" -> Req(T.cx /\ T.fr, e, T, Ok(e, SwapHalves(T)))
    [] e.op = "ifft_shift" -> Req(T.cx /\ T.fr, e, T, Ok(e, UnswapHalves(T)))
    [] e.op \in {"resize", "resize_b"} ->
         IF T.cx /\ A(1) % 2 # 0 THEN Fail("InputMustHaveAnEvenLength")
         ELSE LET eff == [Ok(e, [T EXCEPT !.d = [k \in 1 .. A(1) |-> IF k <= Len(T.d) THEN T.d[k] ELSE 0]])
                            EXCEPT !.m = Min2(A(1), Len(T.d))]
              IN IF e.op = "resize" THEN Room(e, T, A(1), eff) ELSE RoomB(e, T, A(1), eff)
    [] e.op \in {"zero_pad", "zero_pad_b"} ->
         IF A(1) <= n THEN Fail("InvalidArgumentLength")
         ELSE LET eff == Ok(e, Pad(T, A(1), A(2)))
              IN IF e.op = "zero_pad" THEN Room(e, T, A(1) * w, eff) ELSE RoomB(e, T, A(1) * w, eff)
    [] e.op \in {"zero_interleave", "zero_interleave_b"} ->
         IF A(1) <= 1 THEN Ok(e, T)
         ELSE LET eff == Ok(e, ZeroStuff(T, A(1)))
              IN IF e.op = "zero_interleave" THEN Room(e, T, A(1) * n * w, eff) ELSE RoomB(e, T, A(1) * n * w, eff)
    [] e.op = "diff" -> Ok(e, Diff(T))
    [] e.op = "diff_with_start" -> Ok(e, DiffS(T))
    [] e.op = "cum_sum" -> Ok(e, CumSum(T))
    [] e.op = "decimatei" -> Ok(e, Decimate(T, A(1), A(2)))
    [] e.op = "set_delta" -> Ok(e, [T EXCEPT !.dl = A(1), !.nan = FALSE])
    [] e.op = "write" -> IF Len(e.a) > Len(T.d) THEN Fail("InvalidArgumentLength")
                         ELSE Ok(e, [T EXCEPT !.d = [k \in DOMAIN T.d |-> IF k <= Len(e.a) THEN e.a[k] * S ELSE T.d[k]]])
    [] e.op = "clone" -> Res("ok", e.o[1] :> T)       \* the operand becomes a copy
    [] e.op = "set_mc" -> Ok(e, [T EXCEPT !.mc = <<e.a[1], e.a[2], Max2(e.a[3], e.a[2] + 1), e.a[4], Max2(e.a[5], e.a[4] + 1)>>])  \* the second threshold is above the first one
    [] e.op = "split_into" ->
         LET k == Len(e.o) IN
         IF k = 0 \/ n % k # 0 THEN Fail("InvalidArgumentLength")
         ELSE IF (Len(T.d) \div k) % 2 # 0 /\ \E j \in 1 .. k : P[e.o[j]].cx
              THEN [Fail("InputMustHaveAnEvenLength") EXCEPT !.free = {e.o[j] : j \in 1 .. k}, !.alt = {"TypeCanNotResize"}]
         ELSE IF \E j \in 1 .. k : P[e.o[j]].gr # "yes" /\ P[e.o[j]].alloc < Len(T.d) \div k
              THEN [Fail("TypeCanNotResize") EXCEPT !.free = {e.o[j] : j \in 1 .. k}]
         ELSE Res("ok", [s \in {e.o[j] : j \in 1 .. k} |->
                LET j == CHOOSE j \in 1 .. k : e.o[j] = s IN [P[s] EXCEPT !.d = SplitPart(T, k, j - 1)]])
    [] e.op = "merge" ->
         LET k == Len(e.o) IN
         IF k = 0 THEN Fail("InvalidArgumentLength")
         ELSE IF \E j \in 2 .. k : Len(P[e.o[j]].d) # Len(P[e.o[1]].d) THEN Fail("InvalidArgumentLength")
         ELSE LET m == Len(P[e.o[1]].d) IN
              IF T.cx /\ m % 2 # 0 THEN Fail("InputMustHaveAnEvenLength")
              ELSE Room(e, T, m * k, Ok(e, [T EXCEPT !.d = [i \in 1 .. m * k |->
                 LET p == (i - 1) \div w c == (i - 1) % w IN P[e.o[(p % k) + 1]].d[(p \div k) * w + c + 1]]]))

----------------------------------------------------------------------------
ArithOps == {"scale", "offset", "scale_c", "offset_c", "abs", "conj", "add", "sub", "mul", "div",
    "add_smaller", "sub_smaller", "mul_smaller", "div_smaller"}

(* exact quotients only: the drivers choose divisors for which the result is a multiple of 1/S *)
QuotR(x, y, S) == (x * S) \div y
QuotC(x, y, S) == LET m == y[1] * y[1] + y[2] * y[2]
                      z == CMul(x, CConj(y))
                  IN <<(z[1] * S) \div m, (z[2] * S) \div m>>
ElemR(op, x, y, S) == CASE op = "add" -> x + y [] op = "sub" -> x - y
                        [] op = "mul" -> (x * y) \div S [] op = "div" -> QuotR(x, y, S)
ElemC(op, x, y, S) == CASE op = "add" -> CAdd(x, y) [] op = "sub" -> CSub(x, y)
                        [] op = "mul" -> LET z == CMul(x, y) IN <<z[1] \div S, z[2] \div S>>
                        [] op = "div" -> QuotC(x, y, S)
(* v op u with the points of u repeated *)
Elementwise(op, v, u, S) ==
    LET k == Pts(u) IN
    IF k = 0 THEN v
    ELSE IF v.cx THEN [v EXCEPT !.d = FromPts(Pts(v), LAMBDA i : ElemC(op, Pt(v, i), Pt(u, i % k), S))]
    ELSE [v EXCEPT !.d = [i \in DOMAIN v.d |-> ElemR(op, v.d[i], u.d[((i - 1) % k) + 1], S)]]

EffArith(e, P, S) ==
    LET T == P[e.t]
        A(i) == e.a[i]
        U == P[e.o[1]]
        base == CASE e.op \in {"add", "add_smaller"} -> "add" [] e.op \in {"sub", "sub_smaller"} -> "sub"
                  [] e.op \in {"mul", "mul_smaller"} -> "mul" [] e.op \in {"div", "div_smaller"} -> "div"
    IN CASE e.op = "scale" -> Ok(e, MapE(T, LAMBDA x : x * A(1)))
    [] e.op = "offset" -> Ok(e, IF T.cx THEN MapP(T, LAMBDA x : <<x[1] + A(1) * S, x[2]>>) ELSE MapE(T, LAMBDA x : x + A(1) * S))
    [] e.op = "scale_c" -> Req(T.cx, e, T, Ok(e, MapP(T, LAMBDA x : CMul(x, <<A(1), A(2)>>))))
    [] e.op = "offset_c" -> Req(T.cx, e, T, Ok(e, MapP(T, LAMBDA x : CAdd(x, <<A(1) * S, A(2) * S>>))))
    [] e.op = "abs" -> Req(~T.cx, e, T, Ok(e, MapE(T, Abs)))
    [] e.op = "conj" -> Req(T.cx, e, T, Ok(e, MapP(T, CConj)))
    [] e.op \in {"add", "sub", "mul", "div"} ->
         IF Len(T.d) # Len(U.d) THEN Fail("InputMustHaveTheSameSize")
         ELSE IF ~MetaAgrees(T, U) THEN Fail("InputMetaDataMustAgree")
         ELSE Ok(e, Elementwise(base, T, U, S))
    [] OTHER ->
         IF U.d = <<>> \/ Len(T.d) % Len(U.d) # 0 THEN Fail("InvalidArgumentLength")
         ELSE IF ~MetaAgrees(T, U) THEN Fail("InputMetaDataMustAgree")
         ELSE Ok(e, Elementwise(base, T, U, S))

----------------------------------------------------------------------------
(* reductions.  The statistics of a sequence are judged by StatOK. *)
StatOps == {"stats", "stats_c", "stats_prec", "stats_prec_c", "stats_split", "stats_split_c", "stats_split_prec", "stats_split_prec_c"}
SumOps == {"sum", "sum_c", "sum_prec", "sum_prec_c", "sum_sq", "sum_sq_c", "sum_sq_prec", "sum_sq_prec_c"}
DotOps == {"dot", "dot_c", "dot_prec", "dot_prec_c"}
AggrOps == {"aggr_sum", "aggr_max", "aggr_sum_c"}
(* sums of a vector whose first element is huge; that element is subtracted from the sum afterwards *)
BigOps == {"prec_big", "prec_big_c"}
(* precise sums of squares (1), rms * rms * n (2), dot products (3) of e.a[2] copies of a vector behind an element
   whose square leaves no room for theirs; the square of that element is subtracted afterwards *)
WideOps == {"prec_wide", "prec_wide_c"}
ReduceOps == BigOps \union WideOps \union StatOps \union SumOps \union DotOps \union AggrOps
CplxReduce == {"prec_big_c", "prec_wide_c", "stats_c", "stats_prec_c", "stats_split_c", "stats_split_prec_c", "sum_c", "sum_prec_c", "sum_sq_c", "sum_sq_prec_c",
    "dot_c", "dot_prec_c", "aggr_sum_c"}
SplitStat == {"stats_split", "stats_split_c", "stats_split_prec", "stats_split_prec_c"}
PtC(v, i) == IF v.cx THEN Pt(v, i) ELSE <<El(v, i), 0>>
CDivS(z, S) == <<z[1] \div S, z[2] \div S>>
NumC(e, z) == Num(IF e.op \in CplxReduce THEN <<z[1], z[2]>> ELSE <<z[1]>>)

EffReduce(e, P, S) ==
    LET T == P[e.t]
        n == Pts(T)
        A(i) == e.a[i]
        wantC == e.op \in CplxReduce
    IN IF e.op \in DotOps THEN
         LET U == P[e.o[1]] IN
         IF T.cx # wantC THEN Fail(IF wantC THEN "InputMustBeComplex" ELSE "InputMustBeReal")
         ELSE IF U.cx # T.cx \/ U.fr # T.fr THEN Fail("InputMetaDataMustAgree")
         ELSE IF Len(U.d) # Len(T.d) THEN Fail("InputMustHaveTheSameSize")
         ELSE NumC(e, CDivS(SumC(LAMBDA i : CMul(PtC(T, i), PtC(U, i)), 0, n - 1), S))
       ELSE IF e.op \in AggrOps THEN
         IF T.cx # wantC THEN Fail(IF wantC THEN "InputMustBeComplex" ELSE "InputMustBeReal")
         ELSE IF n = 0 THEN Fail("InputMustNotBeEmpty")
         ELSE LET F(i) == CAdd(CScale(A(1) * (1 + (i % A(2))), PtC(T, i)), <<A(3) * S, 0>>) IN
              IF e.op = "aggr_max" THEN LET vs == {F(i)[1] : i \in 0 .. n - 1} IN Num(<<CHOOSE x \in vs : \A y \in vs : x >= y>>)
              ELSE NumC(e, SumC(F, 0, n - 1))
       ELSE IF T.cx # wantC THEN Undef
       ELSE IF e.op \in BigOps THEN Num(<<>>)
       ELSE IF e.op \in WideOps THEN [NumC(e, CScale(A(2), SumC(LAMBDA i : CMul(PtC(T, i), PtC(T, i)), 0, n - 1))) EXCEPT !.nt = 2048]
       ELSE IF e.op \in StatOps THEN
            IF e.op \in SplitStat /\ A(1) > 16 THEN Fail("InvalidArgumentLength") ELSE Num(<<>>)
       ELSE IF e.op \in {"sum", "sum_c", "sum_prec", "sum_prec_c"} THEN NumC(e, SumC(LAMBDA i : PtC(T, i), 0, n - 1))
       ELSE NumC(e, CDivS(SumC(LAMBDA i : CMul(PtC(T, i), PtC(T, i)), 0, n - 1), S))

(* s = <<sum, average, rms, min, max (re and im each), count, index of min, index of max>> with everything
   scaled by S describes the points pts *)
NSq(z) == z[1] * z[1] + z[2] * z[2]
StatOK(s, pts, cx, S) ==
    LET n == Len(pts)
        C(k) == <<s[2 * k + 1], s[2 * k + 2]>>
        sum == SumC(LAMBDA i : pts[i], 1, n)
        sq == SumC(LAMBDA i : CMul(pts[i], pts[i]), 1, n)
        w == C(2)
        ww == CMul(w, w)
        slack == n * (2 * (Abs(w[1]) + Abs(w[2])) + 4)
        size(z) == IF cx THEN NSq(z) ELSE z[1]
        imin == s[12] \div S
        imax == s[13] \div S
    IN /\ C(0) = sum
       /\ s[11] = n * S
       /\ n > 0 =>
            /\ Abs(n * s[3] - sum[1]) <= n /\ Abs(n * s[4] - sum[2]) <= n
            /\ Abs(n * ww[1] - sq[1]) <= slack /\ Abs(n * ww[2] - sq[2]) <= slack
            /\ w[1] >= 0
            /\ imin \in 0 .. n - 1 /\ imax \in 0 .. n - 1
            /\ C(3) = pts[imin + 1] /\ C(4) = pts[imax + 1]
            /\ \A i \in 1 .. n : size(pts[i]) >= size(C(3)) /\ size(pts[i]) <= size(C(4))
            /\ \A i \in 1 .. imin : pts[i] # C(3)        \* the first one
            /\ \A i \in 1 .. imax : pts[i] # C(4)
StatsOK(e, T, S) ==
    LET k == IF e.op \in SplitStat THEN e.a[1] ELSE 1
        n == Pts(T)
        Col(j) == LET m == IF j >= n THEN 0 ELSE (n - j + k - 1) \div k IN [i \in 1 .. m |-> PtC(T, j + (i - 1) * k)]
    IN IF e.op \in BigOps
       THEN LET m == IF e.a[1] = 2 THEN e.a[2] ELSE 1
                sum(j) == SumC(LAMBDA i : IF i % m = j THEN PtC(T, i) ELSE CZero, 0, n - 1)
            IN Len(e.n) = 2 * m /\ \A j \in 0 .. m - 1 :
                 Abs(e.n[2 * j + 1] - sum(j)[1]) <= (IF j = 0 THEN 3 * S ELSE 0) /\ e.n[2 * j + 2] = sum(j)[2]
       ELSE IF n = 0 /\ e.op \in SplitStat /\ e.n = <<>> THEN TRUE ELSE
       /\ Len(e.n) = 13 * k
       /\ \A j \in 0 .. k - 1 : StatOK(SubSeq(e.n, 13 * j + 1, 13 * j + 13), Col(j), T.cx, S)
       /\ n >= k => e.nb = 0

----------------------------------------------------------------------------
(* mapping, modulo, complex exponential *)
MapOps == {"map", "map_c", "wrap", "unwrap", "mce"}
(* every step of the result is the step of the input, shifted by a multiple of d if it is larger than half of d *)
UnwrapSeq(s, d) == FoldLeft(LAMBDA acc, x :
    IF acc = <<>> THEN <<x>>
    ELSE LET p == acc[Len(acc)] step == x - p
             r == TMod(step, d)
             q == IF 2 * r > d THEN r - d ELSE IF 2 * r < -d THEN r + d ELSE r
         IN Append(acc, IF 2 * Abs(step) <= d THEN x ELSE p + q), <<>>, s)
EffMap(e, P, S) ==
    LET T == P[e.t] A(i) == e.a[i] IN
    CASE e.op = "map" -> Req(~T.cx, e, T, Ok(e, [T EXCEPT !.d = [k \in DOMAIN T.d |-> A(1) * T.d[k] + (((k - 1) % A(2)) + A(3)) * S]]))
      [] e.op = "map_c" -> Req(T.cx, e, T, Ok(e, [T EXCEPT !.d = FromPts(Pts(T), LAMBDA i : CAdd(CScale(A(1), Pt(T, i)), <<(i % A(2)) * S, A(3) * S>>))]))
      [] e.op = "wrap" -> Req(~T.cx, e, T, Ok(e, MapE(T, LAMBDA x : TMod(x, A(1) * S))))
      [] e.op = "unwrap" -> Req(~T.cx, e, T, Ok(e, [T EXCEPT !.d = UnwrapSeq(T.d, A(1) * S)]))
      [] e.op = "mce" -> Req(T.cx, e, T, [Ok(e, [T EXCEPT !.d = FromPts(Pts(T), LAMBDA i :
              LET c == Cis((A(2) + A(1) * i) * (T.dl \div 256), A(3) * 16) z == CMul(Pt(T, i), c)
              IN <<z[1] \div One, z[2] \div One>>)]) EXCEPT !.tol = 2])

----------------------------------------------------------------------------
(* between real and complex *)
PartOps == {"real", "imag", "magnitude", "magnitude_squared", "phase"}
(* name of the part which an operation computes *)
PartOf(op) == CASE op \in {"to_real", "to_real_b", "get_real"} -> "real"
                [] op \in {"to_imag", "to_imag_b", "get_imag"} -> "imag"
                [] op \in {"magnitude", "magnitude_b", "get_magnitude"} -> "magnitude"
                [] op \in {"magnitude_squared", "magnitude_squared_b", "get_magnitude_squared"} -> "magnitude_squared"
                [] op \in {"phase", "phase_b", "get_phase"} -> "phase"
                [] OTHER -> ""
Part(p, z, S) == CASE p = "real" -> z[1] [] p = "imag" -> z[2]
                   [] p = "magnitude" -> ISqrt(NSq(z))
                   [] p = "magnitude_squared" -> NSq(z) \div S
                   [] p = "phase" -> RDiv(Atan2(z[2], z[1]) * S, One)
PartTol(p) == IF p \in {"magnitude", "phase"} THEN 1 ELSE 0
Parts(p, v, S) == [i \in 1 .. Pts(v) |-> Part(p, Pt(v, i - 1), S)]
ConvOps == {"to_real", "to_imag", "magnitude", "magnitude_squared", "phase", "to_real_b", "to_imag_b", "magnitude_b", "magnitude_squared_b",
    "phase_b"}
GetOps == {"get_real", "get_imag", "get_magnitude", "get_magnitude_squared", "get_phase", "get_real_imag", "get_mag_phase"}
SetOps == {"set_real_imag", "set_mag_phase"}
CplxRealOps == ConvOps \union GetOps \union SetOps \union {"to_complex", "to_complex_b"}
(* the targets which are passed to a getter need room for the elements of the source *)
TargetRoom(Q, n, eff) == IF Q.gr = "yes" \/ Q.alloc >= n THEN eff ELSE Fail("panic")
EffCplxReal(e, P, S) ==
    LET T == P[e.t]
        n == Pts(T)
        U == P[e.o[1]]
        V == P[e.o[2]]
        Take(Q, part) == [Q EXCEPT !.d = Parts(part, T, S), !.dl = T.dl, !.nan = T.nan]
        Empty(Q) == [Q EXCEPT !.d = <<>>]
    IN CASE e.op \in ConvOps ->
              IF ~T.cx THEN (IF IsGen(T) THEN Ok(e, Invalid(T)) ELSE Undef)
              ELSE LET part == PartOf(e.op) eff == [Ok(e, [ToReal(T) EXCEPT !.d = Parts(part, T, S)]) EXCEPT !.tol = PartTol(part)]
                   IN eff
         [] e.op \in {"get_real_imag", "get_mag_phase"} ->
              IF ~T.cx \/ U.cx \/ V.cx THEN Res("ok", (e.o[1] :> Empty(U)) @@ (e.o[2] :> Empty(V)))
              ELSE LET p == IF e.op = "get_real_imag" THEN <<"real", "imag">> ELSE <<"magnitude", "phase">>
                   IN TargetRoom(U, n, TargetRoom(V, n,
                        [Res("ok", (e.o[1] :> Take(U, p[1])) @@ (e.o[2] :> Take(V, p[2]))) EXCEPT !.tol = PartTol(p[1])]))
         [] e.op \in GetOps ->
              IF ~T.cx \/ U.cx THEN Res("ok", e.o[1] :> Empty(U))
              ELSE TargetRoom(U, n, [Res("ok", e.o[1] :> Take(U, PartOf(e.op))) EXCEPT !.tol = PartTol(PartOf(e.op))])
         [] e.op \in SetOps ->
              IF ~T.cx THEN [Fail("InputMustBeComplex") EXCEPT !.p = e.t :> Invalid(T)]
              ELSE IF Len(U.d) # Len(V.d) THEN Fail("InvalidArgumentLength")
              ELSE Room(e, T, 2 * Len(U.d), [Ok(e, [T EXCEPT !.d = FromPts(Len(U.d), LAMBDA i :
                     LET x == El(U, i) y == El(V, i) IN
                     IF e.op = "set_real_imag" THEN <<x, y>>
                     ELSE LET c == CisRad((y * 4096) \div S) IN <<(x * c[1]) \div One, (x * c[2]) \div One>>)])
                   EXCEPT !.tol = IF e.op = "set_real_imag" THEN 0 ELSE 2])
         [] OTHER ->  \* to_complex, to_complex_b
              IF T.cx THEN (IF e.op = "to_complex" THEN Fail("InputMustBeReal") ELSE Ok(e, Invalid(T)))
              ELSE LET eff == Ok(e, [ToCplx(T) EXCEPT !.d = FromPts(n, LAMBDA i : <<El(T, i), 0>>)]) IN
                   IF e.op = "to_complex" THEN [Room(e, T, 2 * n, eff) EXCEPT !.free = {e.t}] ELSE RoomB(e, T, 2 * n, eff)

----------------------------------------------------------------------------
(* window functions: the weight of point n of len as a quotient <<num, den>>.  a = <<kind, k, m>> *)
WinR(a, n, len) ==
    LET k == a[2] m == a[3]
        mi == Min2(n, len - 1 - n)
        cosn(j) == Cis(j * n, Max2(1, len - 1))[1]
    IN CASE a[1] = 0 -> <<1 + ((mi * k) % m), 1>>
         [] a[1] = 1 -> <<1 + ((n * k) % m), 1>>
         [] a[1] = 2 -> <<2^((n * k) % 3), 1>>
         [] a[1] = 3 -> <<2^((mi * k) % 3), 1>>
         [] a[1] = 4 -> <<1 + ((n + len) % m), 1>>
         [] a[1] = 10 -> <<len - Abs(2 * n - (len - 1)), len>>                                      \* triangular
         [] a[1] = 11 -> <<17695 - (15073 * cosn(1)) \div One, One>>                                \* Hamming, alpha = 0.54
         [] a[1] = 14 -> <<512 * k - ((One - 512 * k) * cosn(1)) \div One, One>>                    \* Hamming, alpha = k / 64
         [] a[1] = 12 -> <<11756 - (48829 * cosn(1)) \div 100000 + (14128 * cosn(2)) \div 100000 - (1168 * cosn(3)) \div 100000, One>>
         [] a[1] = 13 -> <<1, 1>>
\* cosine windows of a single point are not defined
WinDefined(a, len) == a[1] \notin {11, 12, 14} \/ len # 1
WinExact(a) == a[1] \in {0, 1, 2, 3, 4, 13}
MaxAbs(v) == FoldLeft(LAMBDA m, y : Max2(m, Abs(y)), 0, v.d)
Weighted(v, a) == LET n == Pts(v) w == W(v) IN
    [v EXCEPT !.d = [k \in DOMAIN v.d |-> LET q == WinR(a, (k - 1) \div w, n) IN RDiv(v.d[k] * q[1], q[2])]]
(* (not used for the Blackman-Harris window, which is almost zero at its ends) *)
Unweighted(v, a) == LET n == Pts(v) w == W(v) IN
    [v EXCEPT !.d = [k \in DOMAIN v.d |-> LET q == WinR(a, (k - 1) \div w, n) IN RDiv(v.d[k] * q[2], Max2(1, q[1]))]]
(* largest factor by which unapplying the window amplifies *)
WinAmp(a, n) == IF n = 0 THEN 1 ELSE LET g(i) == LET q == WinR(a, i, n) IN q[2] \div Max2(1, q[1])
                IN 1 + FoldLeft(LAMBDA m, i : Max2(m, g(i)), 0, [i \in 1 .. n |-> i - 1])
WindowOps == {"apply_window", "unapply_window"}
EffWindow(e, P, S) ==
    LET T == P[e.t] n == Pts(T)
        apply == e.op = "apply_window"
        tol == IF apply THEN (IF WinExact(e.a) THEN 0 ELSE 1 + MaxAbs(T) \div 8192)
               ELSE IF e.a[1] \in {11, 14} THEN 2 + (MaxAbs(T) \div 8192 + 1) * WinAmp(e.a, n) ELSE 1
    IN Req(~T.fr, e, T, [Ok(e, IF apply THEN Weighted(T, e.a) ELSE Unweighted(T, e.a))
                          EXCEPT !.tol = tol, !.m = IF WinDefined(e.a, n) THEN -1 ELSE 0])

----------------------------------------------------------------------------
(* discrete Fourier transform.  Forward: X[k] = sum of x[j] exp(-2 pi i j k / n); inverse without scaling,
   divided by div here *)
DftD(d, n, sign, div) ==
    LET tw == TLCEval([k \in 1 .. n |-> Cis(sign * (k - 1), n)])
        term(j, k) == LET z == CMul(<<d[2 * j + 1], d[2 * j + 2]>>, tw[((j * k) % n) + 1]) IN <<z[1] \div 32, z[2] \div 32>>
        bin(k) == LET s == SumC(LAMBDA j : term(j, k), 0, n - 1) IN <<RDiv(RDiv(s[1], 1024), div), RDiv(RDiv(s[2], 1024), div)>>
    IN FromPts(n, bin)
AsCplx(v) == IF v.cx THEN v ELSE [ToCplx(v) EXCEPT !.d = FromPts(Len(v.d), LAMBDA i : <<El(v, i), 0>>)]
DeltaTimes(v, n) == IF v.nan THEN v ELSE [v EXCEPT !.dl = n * v.dl]
(* the spectrum and the signal *)
Dft(v) == LET c == AsCplx(v) n == Pts(v) IN DeltaTimes(ToFreq([c EXCEPT !.d = DftD(c.d, n, -1, 1)]), n)
Idft(v, div) == LET c == AsCplx(v) n == Pts(v) IN DeltaTimes(ToTime([c EXCEPT !.d = DftD(c.d, n, 1, div)]), n)
DftTol(v, n) == 2 + n \div 16 + ((n * (MaxAbs(v) \div 64 + 1)) \div 160)
(* the full spectrum of a symmetric signal from its first half *)
Mirror(v) == LET m == Pts(v) IN
    IF m = 0 THEN v ELSE [v EXCEPT !.d = FromPts(2 * m - 1, LAMBDA i : IF i < m THEN Pt(v, i) ELSE CConj(Pt(v, 2 * m - 1 - i)))]
FftOps == {"plain_fft", "fft", "windowed_fft"}
IfftOps == {"plain_ifft", "ifft", "windowed_ifft"}
SfftOps == {"plain_sfft", "sfft", "windowed_sfft"}
SifftOps == {"plain_sifft", "sifft", "windowed_sifft"}
DftOps == FftOps \union IfftOps \union SfftOps \union SifftOps \union {"mirror"}
Windowed == {"windowed_fft", "windowed_ifft", "windowed_sfft", "windowed_sifft"}
EffDft(e, P, S) ==
    LET T == P[e.t]
        n == Pts(T)
        win == e.op \in Windowed
        def == IF win /\ ~WinDefined(e.a, IF e.op = "windowed_sifft" THEN 2 * n - 1 ELSE n) THEN 0 ELSE -1
        X == IF win /\ def = -1 THEN Weighted(T, e.a) ELSE T
        wtol == IF win /\ ~WinExact(e.a) THEN n * (1 + MaxAbs(T) \div 16384) ELSE 0
        Res2(v, tol) == [Ok(e, v) EXCEPT !.tol = tol, !.m = def]
        FailT(why, v) == [Fail(why) EXCEPT !.p = e.t :> Invalid(v)]
    IN CASE e.op \in FftOps ->
              IF T.fr THEN (IF IsGen(T) THEN Ok(e, ToFreq(ToCplx(Invalid(T)))) ELSE Undef)
              ELSE LET D == Dft(X) eff == Res2(IF e.op = "plain_fft" THEN D ELSE SwapHalves(D), DftTol(X, n) + wtol)
                   IN IF T.cx THEN eff ELSE RoomB(e, T, 2 * n, eff)
         [] e.op \in IfftOps ->
              IF ~T.fr \/ (~T.cx /\ e.op # "plain_ifft") THEN (IF IsGen(T) THEN Ok(e, ToTime(ToCplx(Invalid(T)))) ELSE Undef)
              ELSE LET div == IF e.op = "plain_ifft" THEN 1 ELSE Max2(1, n)
                       I == IF e.op = "plain_ifft" THEN Idft(T, 1) ELSE Idft(UnswapHalves(T), div)
                       tol == DftTol(T, n) \div div + 2
                       eff == IF ~win THEN Res2(I, tol) ELSE Res2(IF def = 0 THEN I ELSE Unweighted(I, e.a), (tol + 1) * WinAmp(e.a, n) + 2)
                   IN IF T.cx THEN eff ELSE RoomB(e, T, 2 * n, eff)
         [] e.op \in SfftOps ->
              IF T.fr \/ T.cx THEN (IF IsGen(T) THEN FailT("InputMustBeInTimeDomain", ToFreq(ToCplx(T))) ELSE Undef)
              ELSE IF n % 2 = 0 THEN FailT("InputMustHaveAnOddLength", ToFreq(ToCplx(T)))
              ELSE LET D == Dft(X) IN RoomB(e, T, 2 * n, Res2([D EXCEPT !.d = SubSeq(D.d, 1, n + 1)], DftTol(X, n) + wtol))
         [] e.op \in SifftOps ->
              IF ~T.fr \/ ~T.cx THEN (IF IsGen(T) THEN FailT("InputMustBeInFrequencyDomain", ToTime(ToReal(T))) ELSE Undef)
              ELSE IF n > 0 /\ T.d[2] # 0 THEN FailT("InputMustBeConjSymmetric", ToTime(ToReal(T)))
              ELSE LET M == Mirror(T) m == Pts(M)
                       div == IF e.op = "plain_sifft" THEN 1 ELSE Max2(1, m)
                       I == Idft(M, div)
                       R == [ToReal(I) EXCEPT !.d = [i \in 1 .. m |-> I.d[2 * i - 1]]]
                       tol == DftTol(M, m) \div div + 2
                       eff == IF ~win THEN Res2(R, tol) ELSE Res2(IF def = 0 THEN R ELSE Unweighted(R, e.a), (tol + 1) * WinAmp(e.a, m) + 2)
                       \* a part which is not quite zero is seen by the library only
                       eff2 == IF T.ix THEN [eff EXCEPT !.alt = {"InputMustBeConjSymmetric"}, !.free = {e.t}] ELSE eff
                   IN RoomB(e, T, 2 * m, eff2)
         [] e.op = "mirror" -> Req(T.cx /\ T.fr, e, T, RoomB(e, T, Max2(0, 4 * n - 2), Ok(e, Mirror(T))))

----------------------------------------------------------------------------
(* circular convolution: out[i] = sum of v[i + c - j] * h[j], j = 0 .. m - 1; taps h as pairs, scaled by hs *)
Circ(v, h, c, hs) ==
    LET n == Pts(v) d == v.d
        \* only the taps which are not zero: <<shift, tap>>
        z == TLCEval(SelectSeq([j \in DOMAIN h |-> <<c - j + 1, h[j]>>], LAMBDA x : x[2] # CZero)) IN
    IF v.cx THEN [v EXCEPT !.d = FromPts(n, LAMBDA i :
            LET s == SumC(LAMBDA j : CMul(Pt(v, (i + z[j][1]) % n), z[j][2]), 1, Len(z)) IN <<s[1] \div hs, s[2] \div hs>>)]
    ELSE [v EXCEPT !.d = [i \in 1 .. n |-> SumR(LAMBDA j : d[((i - 1 + z[j][1]) % n) + 1] * z[j][2][1], 1, Len(z)) \div hs]]
ConvolOps == {"convolve_signal", "convolve", "convolve_c"}
EffConvol(e, P, S) ==
    LET T == P[e.t] n == Pts(T) A(i) == e.a[i] IN
    IF e.op = "convolve_signal" THEN
        LET U == P[e.o[1]] m == Pts(U) IN
        IF ~MetaAgrees(T, U) THEN Fail("InputMetaDataMustAgree")
        ELSE IF T.fr THEN Fail("InputMustBeInTimeDomain")
        ELSE IF n < m THEN Fail("InvalidArgumentLength")
        ELSE [Ok(e, Circ(T, TLCEval([j \in 1 .. m |-> PtC(U, j - 1)]), m - m \div 2 - 1, S))
               EXCEPT !.tol = IF Len(T.d) > 10000 /\ Len(U.d) > 15 /\ T.cx THEN 1 ELSE 0]
    ELSE IF T.fr \/ (e.op = "convolve_c" /\ ~T.cx) THEN (IF IsGen(T) THEN Ok(e, Invalid(T)) ELSE Undef)
    ELSE LET k == Min2(A(3), n)
             \* tap j belongs to the function at (j - k) * ratio
             h == TLCEval([j \in 1 .. 2 * k + 1 |-> IF e.op = "convolve_c" THEN FnC(e.a, 3, FALSE, (j - 1 - k) * A(1), A(2))
                                                    ELSE <<FnR(e.a, 3, FALSE, (j - 1 - k) * A(1), A(2)), 0>>])
         IN [Ok(e, Circ(T, h, k, FnScale(e.a, 3))) EXCEPT !.tol =
               IF FnBits(e.a, 3) = 0 THEN 0
               ELSE 2 + (2 * MaxAbs(T) * SumR(LAMBDA j : FnTol(e.a, 3, FALSE, (j - 1 - k) * A(1), A(2)), 1, 2 * k + 1)) \div FnOne]

(* multiplication of a centered spectrum with a function *)
FreqRespOps == {"mfr", "mfr_c"}
EffFreqResp(e, P, S) ==
    LET T == P[e.t] n == Pts(T) A(i) == e.a[i]
        max == Max2(1, n \div 2)
        F(k) == IF e.op = "mfr_c" THEN FnC(e.a, 2, TRUE, (k - n \div 2) * A(1), max * A(2)) ELSE <<FnR(e.a, 2, TRUE, (k - n \div 2) * A(1), max * A(2)), 0>>
        den == A(2) * FnScale(e.a, 2)
    IN Req(T.fr /\ (e.op = "mfr_c" => T.cx), e, T,
           [Ok(e, IF T.cx THEN [T EXCEPT !.d = FromPts(n, LAMBDA k : LET z == CMul(CScale(A(1), Pt(T, k)), F(k)) IN <<RDiv(z[1], den), RDiv(z[2], den)>>)]
                 ELSE [T EXCEPT !.d = [k \in DOMAIN T.d |-> RDiv(T.d[k] * A(1) * F(k - 1)[1], den)]])
            EXCEPT !.tol = IF FnBits(e.a, 2) = 0 THEN 0 ELSE 2 + (8 * MaxAbs(T) * A(1)) \div FnOne])

(* discrete Fourier transform of data of any size: scaled down before and up afterwards *)
RECURSIVE ShiftFor(_, _)
ShiftFor(m, n) == IF m < 2^15 /\ m * n < 2^20 THEN 0 ELSE 1 + ShiftFor(m \div 2, n)
MaxAbsD(d) == FoldLeft(LAMBDA m, y : Max2(m, Abs(y)), 0, d)
DftA(d, n, sign, div) ==
    LET s == 2^ShiftFor(Min2(MaxAbsD(d), 2^22), n)
        r == DftD([i \in DOMAIN d |-> RDiv(d[i], s)], n, sign, 1)
    IN [i \in DOMAIN r |-> RDiv(r[i] * s, div)]
(* its error, relative to the exact transform of the data *)
DftATol(d, n) == LET m == MaxAbsD(d) s == 2^ShiftFor(Min2(m, 2^22), n) IN
    (2 + n \div 16 + (n * (m \div (64 * s) + 1)) \div 160 + (IF s = 1 THEN 0 ELSE n)) * s

CorrOps == {"prepare_argument", "prepare_argument_padded", "correlate"}
EffCorr(e, P, S) ==
    LET T == P[e.t] n == Pts(T) IN
    IF e.op \in {"prepare_argument", "prepare_argument_padded"} THEN
        \* (the padding may need more room than the vector has)
        IF T.fr THEN (IF IsGen(T) THEN [Ok(e, ToFreq(ToCplx(Invalid(T)))) EXCEPT !.alt = IF T.gr = "yes" \/ e.op = "prepare_argument" THEN {} ELSE {"panic"}] ELSE Undef)
        ELSE LET Y == IF e.op = "prepare_argument_padded" /\ n > 1 THEN Pad(T, 2 * n - 1, 1) ELSE T
                 D == Dft(Y)
             IN RoomB(e, T, 2 * Pts(Y), [Ok(e, [D EXCEPT !.d = FromPts(Pts(Y), LAMBDA i : CConj(Pt(D, i)))]) EXCEPT !.tol = DftTol(Y, Pts(Y))])
    ELSE LET U == P[e.o[1]] m == Pts(U)
             bad == [Fail("InputMustBeInTimeDomain") EXCEPT !.p = e.t :> ToFreq(ToCplx(Invalid(T)))]
         IN IF T.fr \/ ~T.cx \/ ~U.fr \/ ~U.cx THEN (IF IsGen(T) THEN bad ELSE Undef)
            ELSE IF m < n THEN Fail("InvalidArgumentLength")
            ELSE LET Y == IF m > n THEN Pad(T, m, 1) ELSE T
                     X == DftA(Y.d, m, -1, 1)
                     Z == FromPts(m, LAMBDA i : LET z == CMul(<<X[2 * i + 1], X[2 * i + 2]>>, Pt(U, i)) IN <<RDiv(z[1], S), RDiv(z[2], S)>>)
                     R == [Y EXCEPT !.d = DftA(Z, m, 1, Max2(1, m))]
                     tol == 3 + (2 * DftATol(Y.d, m) * (MaxAbs(U) + 1) + 2 * MaxAbsD(X)) \div S + DftATol(Z, m) \div Max2(1, m)
                 IN RoomB(e, T, 2 * m, [Ok(e, SwapHalves(R)) EXCEPT !.tol = tol])

(* interpolation.  The frequency of bin k of n, as a multiple of 1 / n *)
Bin(k, n) == IF 2 * k <= n THEN k ELSE k - n
InterpOps == {"interpolatef", "interpolatei", "interpolate", "interpft"}
EvenUp(n) == n + (n % 2)
(* z, multiplied with a frequency response *)
Resp(a, off, num, den, z) == LET h == FnR(a, off, TRUE, num, den) IN
    IF FnBits(a, off) = 0 THEN CScale(h, z)
    ELSE LET s == 2^ShiftFor(Max2(Abs(z[1]), Abs(z[2])), 1) IN <<RDiv(h * RDiv(z[1], s), FnOne) * s, RDiv(h * RDiv(z[2], s), FnOne) * s>>
RespTol(a, off, X, m, n) == IF FnBits(a, off) = 0 THEN 0 ELSE 2 + (2 * (MaxAbsD(X) + 4) * m) \div (FnOne * Max2(1, n))
(* a bin at the step of the sinc function, where rounding decides: how the library divides is not specified *)
AtStep(a, off, n, f) == a[off + 1] = 2 /\ n % 2 = 0 /\ f \notin {1, 2, 4, 8, 16, 32, 64}
EffInterp(e, P, S) ==
    LET T == P[e.t] n == Pts(T) A(i) == e.a[i]
        c == AsCplx(T)
        back(d) == IF T.cx THEN d ELSE [i \in 1 .. Len(d) \div 2 |-> d[2 * i - 1]]
        rtol == 2 + (2 * DftATol(c.d, n)) \div Max2(1, n)
    IN CASE e.op = "interpolatef" ->   \* a = factor, delay (quotients), length, function
              LET k == Min2(A(5), n \div 2)
                  len == EvenUp(RoundAway(Len(T.d) * A(1), A(2)))
                  m == len \div W(T)
                  \* sample i of the result is at i * A(2) / A(1); delay = dn / dd samples
                  known == A(3) = 0 \/ (T.dl % 1024 = 0 /\ T.dl # 0 /\ ~T.nan)      \* otherwise the delay is not represented exactly
                  dn == IF known THEN A(3) * 4 ELSE 0 dd == IF A(3) = 0 \/ ~known THEN A(4) ELSE A(4) * (T.dl \div 1024)
                  den == A(1) * dd
                  \* the functions of the taps, for all positions between two samples
                  F == TLCEval([r \in 0 .. A(1) - 1 |-> TLCEval([j \in 0 .. 2 * k |-> FnR(e.a, 5, FALSE, (j - k) * den - r * dd + dn * A(1), den)])])
                  at(i, g(_)) == LET p == (i * A(2)) \div A(1) r == (i * A(2)) % A(1) IN SumR(LAMBDA j : g((p - k + j) % n) * F[r][j], 0, 2 * k) \div FnScale(e.a, 5)
                  re(q) == IF T.cx THEN T.d[2 * q + 1] ELSE T.d[q + 1]
                  im(q) == T.d[2 * q + 2]
                  R == Ok(e, [T EXCEPT !.d = IF T.cx THEN FromPts(m, LAMBDA i : <<at(i, re), at(i, im)>>) ELSE [i \in 1 .. m |-> at(i - 1, re)]])
                                ftol == IF FnBits(e.a, 5) = 0 THEN 0
                          ELSE LET t(r) == SumR(LAMBDA j : FnTol(e.a, 5, FALSE, (j - k) * den - r * dd + dn * A(1), den), 0, 2 * k)
                               IN 2 + (2 * MaxAbs(T) * FoldLeft(LAMBDA x, r : Max2(x, t(r - 1)), 0, [r \in 1 .. A(1) |-> r])) \div FnOne
              IN RoomB(e, T, len, IF known THEN [R EXCEPT !.tol = ftol] ELSE [R EXCEPT !.m = 0])
         [] e.op = "interpolatei" ->   \* a = factor, function
              IF A(1) <= 1 THEN Ok(e, T)
              ELSE IF ~T.cx /\ ~TabSym(e.a, 1) THEN Fail("ArgumentFunctionMustBeSymmetric")
              ELSE LET m == n * A(1)
                       X == DftA(ZeroStuff(c, A(1)).d, m, -1, 1)
                       Y == FromPts(m, LAMBDA k : Resp(e.a, 1, 2 * Bin(k, m), n, <<X[2 * k + 1], X[2 * k + 2]>>))
                   IN RoomB(e, T, 2 * m, [Ok(e, [T EXCEPT !.d = back(DftA(Y, m, 1, Max2(1, n)))]) EXCEPT
                            !.tol = 2 + (DftATol(X, m) * 9 + DftATol(Y, m)) \div Max2(1, n) + RespTol(e.a, 1, X, m, n),
                            !.m = IF AtStep(e.a, 1, n, A(1)) THEN 0 ELSE @])
         [] OTHER ->                   \* a = points, delay (quotient), function
              LET hasF == e.op = "interpolate" /\ Len(e.a) > 4
                  m == A(1)
                  known == e.op = "interpft" \/ A(2) = 0 \/ (T.dl % 1024 = 0 /\ T.dl # 0 /\ ~T.nan)
                  dn == IF e.op = "interpft" \/ ~known THEN 0 ELSE A(2) * 4
                  dd == IF e.op = "interpft" \/ dn = 0 THEN 1 ELSE A(3) * (T.dl \div 1024)
                  X0 == DftA(c.d, n, -1, 1)
                  ph(k) == Cis((IF 2 * k < n THEN k ELSE k - n) * dn, dd * n)
                  X == IF dn = 0 THEN X0
                       ELSE FromPts(n, LAMBDA k : LET q == ph(k)
                                                      s == 2^ShiftFor(MaxAbsD(X0), 1)
                                                      z == CMul(<<RDiv(X0[2 * k + 1], s), RDiv(X0[2 * k + 2], s)>>, q) IN <<RDiv(z[1], One) * s, RDiv(z[2], One) * s>>)
                  XV == [c EXCEPT !.d = X]
                  lo == m - m \div 2      \* bins which remain if there are fewer
                  Y == IF m > n THEN LET Z == Pad(XV, m, 2).d IN
                             IF hasF THEN FromPts(m, LAMBDA k : Resp(e.a, 3, 2 * Bin(k, m), n, <<Z[2 * k + 1], Z[2 * k + 2]>>)) ELSE Z
                       ELSE IF m < n THEN FromPts(m, LAMBDA k : Pt(XV, IF k < lo THEN k ELSE n - m + k))
                       ELSE X
              IN IF hasF /\ ~T.cx /\ ~TabSym(e.a, 3) THEN Fail("ArgumentFunctionMustBeSymmetric")
                 ELSE IF n = 0 \/ m = 0 THEN RoomB(e, T, 2 * m, [Ok(e, [T EXCEPT !.d = [i \in 1 .. m * W(T) |-> 0]]) EXCEPT !.m = 0, !.dt = 2^30])
                 ELSE RoomB(e, T, 2 * Max2(m, n), [Ok(e, [T EXCEPT !.d = back(DftA(Y, m, 1, n)), !.dl = RDiv(T.dl * n, m)]) EXCEPT !.m = IF known /\ ~(hasF /\ AtStep(e.a, 3, n, 3)) THEN @ ELSE 0,
                        !.tol = 2 + ((DftATol(X0, n) + (IF dn = 0 THEN 0 ELSE MaxAbsD(X0) \div 4096 + 1)) * (IF hasF THEN 9 ELSE 1) * 2 + DftATol(Y, m)) \div n + (IF hasF THEN RespTol(e.a, 3, X0, m, n) ELSE 0), !.dt = 1])

(* interpolation between neighbours: sample i of the result is at i * fd / fn + dn / dd; a = <<fn, fd, dn, dd>> *)
LinOps == {"interpolate_lin", "interpolate_hermite"}
EffLin(e, P, S) ==
    LET T == P[e.t] n == Len(T.d) A(i) == e.a[i]
        len == RoundAway((n - 1) * A(1), A(2)) + 1
        den == A(1) * A(4)
        num(i) == i * A(2) * A(4) + A(3) * A(1)
        \* the data continues linearly at both ends
        Y(q) == IF n = 1 THEN T.d[1]
                ELSE IF q < 0 THEN T.d[1] + q * (T.d[2] - T.d[1])
                ELSE IF q >= n THEN T.d[n] + (q - n + 1) * (T.d[n] - T.d[n - 1])
                ELSE T.d[q + 1]
        lin(i) == LET p == Max2(0, Min2(num(i), (n - 1) * den)) q == p \div den r == p % den IN Y(q) + RDiv((Y(Min2(q + 1, n - 1)) - Y(q)) * r, den)
        her(i) == LET q == num(i) \div den r == num(i) % den
                      y0 == Y(q - 1) y1 == Y(q) y2 == Y(q + 1) y3 == Y(q + 2)
                      a0 == -y0 + 3 * y1 - 3 * y2 + y3
                      a1 == 2 * y0 - 5 * y1 + 4 * y2 - y3
                      a2 == -y0 + y2
                      t1 == RDiv(16 * a0 * r, den) + 16 * a1
                      t2 == RDiv(t1 * r, den) + 16 * a2
                  IN RDiv(RDiv(t2 * r, den), 32) + y1
    IN IF T.cx THEN (IF IsGen(T) THEN Ok(e, Invalid(T)) ELSE Undef)
       ELSE IF n = 0 THEN Ok(e, T)
       ELSE RoomB(e, T, len, [Ok(e, [T EXCEPT !.d = [i \in 1 .. len |-> IF e.op = "interpolate_lin" THEN lin(i - 1) ELSE her(i - 1)]]) EXCEPT !.tol = 1])

----------------------------------------------------------------------------
(* elementary functions, a = <<numerator, denominator>> of the parameter *)
EffElem(e, P, S) ==
    LET T == P[e.t] f == One \div S
        p == IF e.a = <<>> THEN 1 ELSE e.a[1]
        q == IF Len(e.a) < 2 THEN 1 ELSE e.a[2]
        vals == TLCEval(IF T.cx THEN [i \in 1 .. Len(T.d) \div 2 |-> CF(e.op, CScale(f, Pt(T, i - 1)), p, q)]
                        ELSE [i \in DOMAIN T.d |-> Fun(e.op, f * T.d[i], p, q)])
        at(k) == IF T.cx THEN vals[(k + 1) \div 2] ELSE vals[k]
    IN IF T.cx /\ e.op \in ApproxOps THEN (IF IsGen(T) THEN Ok(e, Invalid(T)) ELSE Undef)
       ELSE [Ok(e, [T EXCEPT !.d = [k \in DOMAIN T.d |-> RDiv(IF T.cx /\ k % 2 = 0 THEN at(k).u ELSE at(k).v, f)]])
             EXCEPT !.te = [k \in DOMAIN T.d |-> IF at(k).t < 0 THEN at(k).t ELSE at(k).t \div f + 1]]

----------------------------------------------------------------------------
(* changing the type of a vector: it is emptied if the data would be reinterpreted.
   With force it isn't; the caller is responsible for the length then. *)
TypeOps == {"to_gen", "to_rt", "to_ct", "to_rf", "to_cf", "to_rt_force", "to_ct_force", "to_rf_force", "to_cf_force", "runtime"}
EffType(e, P) ==
    LET T == P[e.t]
        Into(cx, fr, force) ==
            LET v == [T EXCEPT !.ty = TypeOf(cx, fr), !.cx = cx, !.fr = fr]
            IN IF cx = T.cx /\ fr = T.fr THEN Ok(e, v)
               ELSE IF ~force THEN Ok(e, [v EXCEPT !.d = <<>>])
               ELSE IF cx /\ Len(T.d) % 2 # 0 THEN Undef ELSE Ok(e, v)
    IN CASE e.op = "to_gen" -> Ok(e, [T EXCEPT !.ty = "G"])
         [] e.op = "to_rt" -> Into(FALSE, FALSE, FALSE) [] e.op = "to_ct" -> Into(TRUE, FALSE, FALSE)
         [] e.op = "to_rf" -> Into(FALSE, TRUE, FALSE) [] e.op = "to_cf" -> Into(TRUE, TRUE, FALSE)
         [] e.op = "to_rt_force" -> Into(FALSE, FALSE, TRUE) [] e.op = "to_ct_force" -> Into(TRUE, FALSE, TRUE)
         [] e.op = "to_rf_force" -> Into(FALSE, TRUE, TRUE) [] e.op = "to_cf_force" -> Into(TRUE, TRUE, TRUE)
         [] e.op = "runtime" -> IF e.a[1] = 1 /\ Len(T.d) % 2 # 0 THEN Undef ELSE Ok(e, [T EXCEPT !.ty = "G", !.cx = e.a[1] = 1, !.fr = e.a[2] = 1])

(* creation of a vector from a container and the ways to read and write it.
   a = <<container, how, complex, frequency domain, n, m, spacing, route, i, j>>; how > 4: with threads.
   The numeric result describes the vector, followed by what the route delivers. *)
CtorElems(a) == CASE a[1] \in {1, 5, 6} -> [k \in 1 .. 2 * a[5] |-> k]
                  [] a[1] = 8 -> [k \in 1 .. 2 * a[5] |-> IF k % 2 = 1 THEN (k + 1) \div 2 ELSE -(k \div 2)]
                  [] OTHER -> [k \in 1 .. a[5] |-> k]
EffCtor(e) ==
    LET a == e.a cx == a[3] = 1 fr == a[4] = 1
        all == CtorElems(a)
        len0 == IF cx /\ Len(all) % 2 # 0 THEN 0 ELSE Len(all)
        \* m = 1: the vector is cut in half afterwards
        len == IF a[6] = 1 /\ a[1] # 8 /\ a[2] < 5 THEN (IF cx THEN 2 * (len0 \div 4) ELSE len0 \div 2) ELSE len0
        d == SubSeq(all, 1, len)
        pts == IF cx THEN len \div 2 ELSE len
        dl == IF a[2] \in {1, 4, 6, 8} THEN a[7] ELSE 4096
        B(b) == IF b THEN 1 ELSE 0
        head(l) == <<B(cx), B(fr), l, IF cx THEN l \div 2 ELSE l, dl, 1>>
        r == a[8] i == a[9] j == a[10]
        static == a[2] # 0 /\ a[2] # 4
        \* routes of complex points, of points, of elements
        asPts == r \in 5 .. 9 \/ r \in 25 .. 29 \/ (cx /\ (r \in 10 .. 14 \/ r \in 30 .. 34))
        w == IF asPts THEN 2 ELSE 1
        n == IF asPts THEN (IF cx THEN pts ELSE 0) ELSE len       \* there are no complex points in a real vector
        kind == r % 5
        lo == IF kind \in {0, 3} THEN 0 ELSE i
        hi == CASE kind \in {0, 2} -> n [] kind = 1 -> i + 1 [] OTHER -> j
        part == SubSeq(d, lo * w + 1, hi * w)
        written == [k \in DOMAIN d |-> IF k > lo * w /\ k <= hi * w THEN 99 + k - lo * w ELSE d[k]]
    IN IF a[1] = 8 /\ a[6] # a[5] THEN Fail("InputMustHaveTheSameSize")
       ELSE IF r \in 0 .. 14 \/ r \in 20 .. 34 THEN
            IF lo > hi \/ hi > n THEN Fail("panic")
            ELSE Num(head(len) \o (IF r < 20 THEN part ELSE written))
       ELSE IF r = 15 THEN Num(head(len) \o <<len>> \o d)
       ELSE IF r \in {16, 17} THEN Num(head(len) \o <<pts>> \o d)
       ELSE IF r \in {18, 19} THEN Num(head(len) \o head(len) \o d)
       ELSE IF r = 36 THEN Num(head(len) \o <<1>>)              \* the thread settings belong to the conversion
       ELSE LET l == IF cx /\ i % 2 # 0 THEN 0 ELSE i IN Num(head(len) \o head(l) \o [k \in 1 .. l |-> 49 + k])

----------------------------------------------------------------------------
FnOps == {"fn", "fntable"}
(* fn: the value of a function at a[2] / a[3]; family a[1] % 8: 0 impulse response, 1 frequency
   response, 2 and 3 complex ones; a[1] \div 8 # 0: at a number next to a[2] / a[3] (only where the functions are continuous)
   fntable: the points of a table function of family a[2] after a conversion a[1]: 0 none, 1 to complex, 2 to real,
   3 to the frequency domain, 4 to the time domain.  The results: <<spacing, symmetric, points...>> *)
EffFn(e, S) ==
    LET a == e.a B(b) == IF b THEN S ELSE 0
        Res0(n, nt) == [Ok(e, <<>>) EXCEPT !.r = "num", !.p = <<>>, !.n = n, !.nt = nt]
    IN IF e.op = "fn" THEN
           LET fr == a[1] % 2 = 1
               z == IF a[1] % 8 < 2 THEN <<FnR(a, 3, fr, a[2], a[3]), 0>> ELSE FnC(a, 3, fr, a[2], a[3])
           IN Res0(<<B(TabSym(a, 3)), RDiv(z[1] * S, FnOne), RDiv(z[2] * S, FnOne)>>, FnTol(a, 3, fr, a[2], a[3]))
       ELSE LET fr == a[2] % 2 = 1 cx == a[2] >= 2
                v(y) == RDiv(y, FnOne \div S)
                r == PointsR(a, 2, fr) c == PointsC(a, 2, fr)
                pts == IF cx THEN FromPts(Len(c), LAMBDA i : <<v(c[i + 1][1]), v(c[i + 1][2])>>) ELSE [i \in DOMAIN r |-> v(r[i])]
                V == [ty |-> "G", cx |-> cx, fr |-> fr, d |-> pts, dl |-> RDiv(4096, a[4]), nan |-> FALSE, alloc |-> 0, gr |-> "yes", mc |-> <<1>>, ix |-> FALSE, bd |-> FALSE, dx |-> FALSE, nz |-> FALSE]
                D == IF a[1] <= 2 THEN [p |-> 1 :> V, tol |-> 0]
                     ELSE EffDft([op |-> IF a[1] = 3 THEN "fft" ELSE "ifft", t |-> 1, o |-> <<>>, a |-> <<>>], 1 :> V, S)
                W1 == D.p[1]
                q(k) == W1.d[2 * k - 1]
                out == CASE a[1] = 1 /\ ~cx -> FromPts(Len(W1.d), LAMBDA i : <<W1.d[i + 1], 0>>)
                         [] a[1] = 2 /\ cx -> [k \in 1 .. Pts(W1) |-> q(k)]
                         [] a[1] = 3 /\ ~cx -> [k \in 1 .. Pts(W1) |-> ISqrt(NSq(<<q(k), W1.d[2 * k]>>))]
                         [] OTHER -> W1.d
            IN Res0(<<RDiv(W1.dl * S, 4096), B(TabSym(a, 2))>> \o out, 2 + 2 * D.tol + (IF a[3] \in {6, 7} THEN Len(pts) ELSE 0))

Eff(e, P, S) ==
    CASE e.op \in ReorgOps -> EffReorg(e, P, S)
      [] e.op \in WindowOps -> EffWindow(e, P, S)
      [] e.op \in DftOps -> EffDft(e, P, S)
      [] e.op \in ArithOps -> EffArith(e, P, S)
      [] e.op \in ReduceOps -> EffReduce(e, P, S)
      [] e.op \in MapOps -> EffMap(e, P, S)
      [] e.op \in CplxRealOps -> EffCplxReal(e, P, S)
      [] e.op \in ConvolOps -> EffConvol(e, P, S)
      [] e.op \in FreqRespOps -> EffFreqResp(e, P, S)
      [] e.op \in CorrOps -> EffCorr(e, P, S)
      [] e.op \in InterpOps -> EffInterp(e, P, S)
      [] e.op \in LinOps -> EffLin(e, P, S)
      [] e.op \in TypeOps -> EffType(e, P)
      [] e.op \in ElemOps -> EffElem(e, P, S)
      [] e.op = "ctor" -> EffCtor(e)
      [] e.op \in FnOps -> EffFn(e, S)
=============================================================================
