----------------------------- MODULE DspVecMC -----------------------------
(* Explores all histories of a group of operations on small vectors, checks the laws of
   the group in every reachable state and prints one scenario per transition.  The scenarios
   are replayed on the real library and the recording is judged by Trace. *)
EXTENDS DspVec, Json, IOUtils

Group == IOEnv.GROUP
Depth == atoi(IOEnv.DEPTH)
MaxPts == atoi(IOEnv.PTS)
Emit == IOEnv.EMIT = "1"
Every == atoi(IOEnv.EVERY)      \* one of so many histories is printed

VARIABLES P, ini, hist
vars == <<P, ini, hist>>

C(op, o, a) == [op |-> op, t |-> 0, o |-> o, a |-> a]
Each(ops, a) == {C(op, <<>>, a) : op \in ops}

(* scale of the data of a group, as power of two *)
Q == CASE Group \in {"arith", "smaller", "map"} -> 4 [] Group \in {"stat", "dot", "modulo", "dft", "window", "type", "state", "len", "pair"} -> 6 [] Group = "cplxreal" -> 8 [] Group = "elem" -> 12
       [] Group = "mfr" -> 2 [] Group = "corr" -> 4 [] Group \in {"interp", "lin"} -> 6 [] OTHER -> 0
S == 2^Q

Slot0Only == Group \in {"perm", "pad", "diff", "stat", "map", "modulo", "dft", "window", "mfr", "interp", "lin", "type", "elem", "state", "len"}
NOperands == CASE Slot0Only -> 0 [] Group = "split" -> 3 [] Group = "cplxreal" -> 2 [] OTHER -> 1

(* The documented state machine: what an operation without arguments needs and where it leads to.
   n, d: number space and domain which are needed ("r" real, "c" complex, "t" time, "f" frequency, "*" any),
   N, D: those of the result ("=" the same). *)
Mv(n, d, N, D) == [n |-> n, d |-> d, N |-> N, D |-> D]
Moves == [op \in {"reverse", "swap_halves", "diff", "diff_with_start", "cum_sum", "sqrt", "square", "exp", "sin", "atan", "tanh"} |-> Mv("*", "*", "=", "=")]
    @@ [op \in {"fft_shift", "ifft_shift", "mirror"} |-> Mv("c", "f", "=", "=")]
    @@ [op \in {"to_real", "to_imag", "magnitude", "magnitude_squared", "phase", "to_real_b", "to_imag_b", "magnitude_b", "magnitude_squared_b", "phase_b"} |-> Mv("c", "*", "r", "=")]
    @@ [op \in {"conj"} |-> Mv("c", "*", "=", "=")]
    @@ [op \in {"abs"} |-> Mv("r", "*", "=", "=")]
    @@ [op \in {"to_complex", "to_complex_b"} |-> Mv("r", "*", "c", "=")]
    @@ [op \in {"plain_fft", "fft"} |-> Mv("*", "t", "c", "f")]
    @@ [op \in {"ifft"} |-> Mv("c", "f", "c", "t")]
    @@ [op \in {"plain_ifft"} |-> Mv("*", "f", "c", "t")]
    @@ [op \in {"plain_sfft", "sfft"} |-> Mv("r", "t", "c", "f")]
    @@ [op \in {"plain_sifft", "sifft"} |-> Mv("c", "f", "r", "t")]
    @@ [op \in {"prepare_argument", "prepare_argument_padded"} |-> Mv("*", "t", "c", "f")]
    @@ ("to_rt" :> Mv("*", "*", "r", "t")) @@ ("to_ct" :> Mv("*", "*", "c", "t")) @@ ("to_rf" :> Mv("*", "*", "r", "f")) @@ ("to_cf" :> Mv("*", "*", "c", "f"))
    @@ ("to_gen" :> Mv("*", "*", "=", "="))
Fits(v, m) == (m.n = "*" \/ m.n = (IF v.cx THEN "c" ELSE "r")) /\ (m.d = "*" \/ m.d = (IF v.fr THEN "f" ELSE "t"))
Leads(v, m) == <<IF m.N = "=" THEN v.cx ELSE m.N = "c", IF m.D = "=" THEN v.fr ELSE m.D = "f">>

Calls(n) ==
    CASE Group = "perm" -> Each({"reverse", "swap_halves", "fft_shift", "ifft_shift"}, <<>>)
      [] Group = "pad" -> {C(op, <<>>, <<m, o>>) : op \in {"zero_pad", "zero_pad_b"}, m \in 0 .. n + 3, o \in 0 .. 2}
                     \union {C(op, <<>>, <<f>>) : op \in {"zero_interleave", "zero_interleave_b"}, f \in 0 .. 3}
                     \union {C(op, <<>>, <<m>>) : op \in {"resize", "resize_b"}, m \in 0 .. n}
      [] Group = "diff" -> Each({"diff", "diff_with_start", "cum_sum"}, <<>>)
      [] Group = "split" -> {C(op, o, <<>>) : op \in {"split_into", "merge"}, o \in {<<1>>, <<1, 2>>, <<2, 1>>, <<3, 1, 2>>}}
      [] Group = "arith" -> {C(op, <<1>>, <<>>) : op \in {"add", "sub", "mul", "div"}}
                     \union {C(op, <<>>, <<a>>) : op \in {"scale", "offset"}, a \in {-1, 2}}
                     \union {C(op, <<>>, a) : op \in {"scale_c", "offset_c"}, a \in {<<0, 1>>, <<1, -2>>}}
                     \union Each({"abs", "conj"}, <<>>)
      [] Group = "stat" -> Each(SumOps \union {"stats", "stats_c", "stats_prec", "stats_prec_c", "conj", "reverse"}, <<>>)
                     \union {C(op, <<>>, <<k>>) : op \in SplitStat, k \in {0, 1, 2, 3, 17}}
      [] Group = "dot" -> {C(op, <<1>>, <<>>) : op \in DotOps \union {"add", "sub"}}
      [] Group = "map" -> {C(op, <<>>, a) : op \in {"map", "map_c", "aggr_sum", "aggr_max", "aggr_sum_c"}, a \in {<<2, 3, 1>>, <<-1, 1, 0>>, <<1, 2, -2>>}}
      [] Group = "modulo" -> {C(op, <<>>, <<d>>) : op \in {"wrap", "unwrap"}, d \in {1, 3, 4}}
                     \union {C("mce", <<>>, <<a, b, 4>>) : a \in {0, 1, -1}, b \in {0, 1}}
                     \union {C("scale", <<>>, <<a>>) : a \in {-1, 2}}
      [] Group = "cplxreal" -> Each(ConvOps \union {"to_complex", "to_complex_b"}, <<>>)
                     \union {C(op, IF op \in {"get_real_imag", "get_mag_phase"} THEN <<1, 2>> ELSE <<1>>, <<>>) : op \in GetOps}
                     \union {C(op, <<1, 2>>, <<>>) : op \in SetOps}
      [] Group = "window" -> {C(op, <<>>, a) : op \in WindowOps, a \in {<<0, 1, 3>>, <<1, 1, 4>>, <<2, 1, 0>>, <<3, 1, 0>>, <<10, 0, 0>>, <<11, 0, 0>>, <<13, 0, 0>>, <<14, 40, 0>>}}
                     \union Each({"reverse", "conj"}, <<>>)
      [] Group = "dft" -> Each((DftOps \ Windowed) \union {"fft_shift", "ifft_shift"}, <<>>)
                     \union {C(op, <<>>, a) : op \in Windowed, a \in {<<3, 1, 0>>, <<2, 1, 0>>, <<10, 0, 0>>}}
                     \union {C("set_delta", <<>>, <<d>>) : d \in {1024}}
      [] Group = "conv" -> {C("convolve_signal", <<1>>, <<>>)}
                     \union {C("convolve", <<>>, a) : a \in {<<1, 1, 1, 0, 1, 1, 1, 2, 3>>, <<1, 2, 2, 1, 2, 1, 1, -1, 1>>, <<2, 1, 3, 0, 1, 3, 2, 0, 1, -1, 0, 3, 1>>}}
                     \union {C("convolve_c", <<>>, a) : a \in {<<1, 1, 1, 0, 1, 1, 1, 0, 0, 1, -1, 2>>, <<3, 2, 2, 0, 2, 1, 0, 1, 2, 0, 1, 1>>}}
                     \union Each({"reverse"}, <<>>)
      [] Group = "mfr" -> LET m == Max2(1, n \div 2) IN
                     {C("mfr", <<>>, a) : a \in {<<1, 1, 0, m, 2, 1, 2, 3, 4, 5>>, <<1, 2, 1, 2 * m, 2, 3, -1, 2, -1, 3>>, <<2, 1, 0, m, 1, 1, 2, 5>>}}
                     \union {C("mfr_c", <<>>, a) : a \in {<<1, 1, 0, m, 1, 1, 0, 0, 1, -1, 2>>, <<1, 1, 1, m, 1, 1, -2, 0, 1, 1, -2>>}}
                     \union Each({"swap_halves", "conj"}, <<>>)
      [] Group = "corr" -> Each({"prepare_argument", "prepare_argument_padded"}, <<>>)
                     \union {[C(op, <<>>, <<>>) EXCEPT !.t = 1] : op \in {"prepare_argument", "prepare_argument_padded"}}
                     \union {C("correlate", <<1>>, <<>>)}
      [] Group = "interp" -> {C("interpft", <<>>, <<m>>) : m \in 1 .. 2 * n + 1}
                     \union {C("interpolate", <<>>, <<m, 1, 2>>) : m \in 1 .. n + 2}
                     \union {C("interpolate", <<>>, <<m, 0, 1, y, Max2(1, n), 2, 1, 2, 3, 2, 1>>) : m \in {Max2(1, n - 1), n + 2}, y \in {0, 1}}
                     \union {C("interpolatei", <<>>, <<f, y, Max2(1, n), 2, 1, 2, 3, 2, 1>>) : f \in 0 .. 3, y \in {0, 1}}
                     \union {C("interpolatef", <<>>, <<f, 1, d, 1, 1, 0, 4 * f, 2, 1, 3, 3, 2, -1>>) : f \in 1 .. 3, d \in {0, 1}}
      [] Group = "lin" -> {C(op, <<>>, <<f, g, d, 2>>) : op \in {"interpolate_lin", "interpolate_hermite"}, f \in {1, 3}, g \in {1, 2}, d \in {0, 1, -1}}
                     \union {C("decimatei", <<>>, <<k, o>>) : k \in 1 .. 3, o \in 0 .. 2}
                     \union {C("zero_interleave", <<>>, <<2>>)}
      [] Group = "elem" -> Each(ElemOps \ {"root", "powf", "log", "expf", "powf_approx", "log_approx", "expf_approx"}, <<>>)
                     \union {C(op, <<>>, a) : op \in {"root", "powf", "powf_approx"}, a \in {<<2, 1>>, <<1, 2>>, <<-3, 1>>}}
                     \union {C(op, <<>>, a) : op \in {"log", "expf", "log_approx", "expf_approx"}, a \in {<<2, 1>>, <<1, 2>>, <<10, 1>>}}
      [] Group = "type" -> Each((TypeOps \ {"runtime"}) \union {"to_real", "to_complex", "magnitude_b", "plain_fft", "plain_ifft", "reverse"}, <<>>)
                     \union {C("runtime", <<>>, <<x, y>>) : x \in {0, 1}, y \in {0, 1}}
                     \union {C("set_delta", <<>>, <<d>>) : d \in {1024}}
      [] Group = "state" -> Each(DOMAIN Moves, <<>>)
                     \union {C(op, <<>>, a) : op \in WindowOps \union Windowed, a \in {<<2, 1, 0>>}}
                     \union {C(op, <<>>, <<2>>) : op \in {"scale", "offset", "wrap", "unwrap"}} \union {C(op, <<>>, <<0, 1>>) : op \in {"scale_c", "offset_c"}}
                     \union {C(op, <<>>, <<2, 3, 1>>) : op \in {"map", "map_c"}}
                     \union {C("mce", <<>>, <<1, 0, 4>>), C("set_delta", <<>>, <<1024>>), C("zero_pad", <<>>, <<n + 1, 1>>), C("decimatei", <<>>, <<2, 0>>), C("resize", <<>>, <<0>>)}
                     \union {C("mfr", <<>>, <<1, 1, 0, Max2(1, n \div 2), 2, 1, 2, 3, 4, 5>>)}
                     \union (IF n = 0 THEN {} ELSE {C("convolve", <<>>, <<1, 1, 1, 0, 1, 1, 1, 2, 3>>), C("interpft", <<>>, <<n + 1>>), C("interpolate_lin", <<>>, <<2, 1, 0, 2>>),
                              C("interpolatei", <<>>, <<2, 1, n, 2, 1, 2, 3, 2, 1>>), C("interpolatef", <<>>, <<2, 1, 0, 1, 1, 0, 8, 2, 1, 3, 3, 2, -1>>)})
      [] Group = "len" -> Each({"diff", "diff_with_start", "to_complex", "to_complex_b", "to_real", "to_imag_b", "magnitude", "magnitude_b", "mirror", "sfft", "sifft", "plain_sfft", "plain_fft",
                                "to_ct", "to_rt", "reverse", "prepare_argument_padded"}, <<>>)
                     \union {C(op, <<>>, <<m>>) : op \in {"resize", "resize_b"}, m \in 0 .. Min2(n, 3)}
                     \union {C(op, <<>>, <<n + 1 + o, o>>) : op \in {"zero_pad", "zero_pad_b"}, o \in 0 .. 2}
                     \union {C(op, <<>>, <<2>>) : op \in {"zero_interleave", "zero_interleave_b"}} \union {C("decimatei", <<>>, <<k, o>>) : k \in {2, 3}, o \in {0, 1, 3}}
      [] Group = "pair" -> {C(op, <<1>>, <<>>) : op \in {"add", "sub", "mul", "add_smaller", "sub_smaller", "mul_smaller", "convolve_signal", "correlate", "merge", "split_into"} \union DotOps \union (GetOps \ {"get_real_imag", "get_mag_phase"})}
                     \union {C(op, <<1, 2>>, <<>>) : op \in {"merge", "split_into", "get_real_imag", "get_mag_phase", "set_real_imag", "set_mag_phase"}}
                     \union {C("resize", <<>>, <<3>>), C("zero_pad", <<>>, <<n, 0>>), C("stats_split", <<>>, <<17>>), C("stats_split", <<>>, <<0>>)}
      [] Group = "smaller" -> {C(op, <<1>>, <<>>) : op \in {"add_smaller", "sub_smaller", "mul_smaller", "div_smaller"}}

Kinds == {<<TypeOf(cx, fr), cx, fr>> : cx, fr \in BOOLEAN} \union {<<"G", cx, fr>> : cx, fr \in BOOLEAN}
MkV(k, d) == [ty |-> k[1], cx |-> k[2], fr |-> k[3], d |-> d, dl |-> 4096, nan |-> FALSE, alloc |-> 100, gr |-> "yes", mc |-> <<>>, ix |-> FALSE]
Data(k, n) == [i \in 1 .. (IF k[2] THEN 2 * n ELSE n) |-> (S * (IF i % 3 = 0 THEN -i ELSE i)) \div (IF Group = "elem" THEN 4 ELSE 1)]
(* an operand by which can be divided: powers of two, or units *)
Units(k, n) == [i \in 1 .. (IF k[2] THEN 2 * n ELSE n) |->
                 S * (IF k[2] THEN (IF ((i - 1) \div 2) % 2 = (i - 1) % 2 THEN (IF i % 2 = 0 THEN -1 ELSE 1) ELSE 0) ELSE IF i % 2 = 0 THEN 2 ELSE -1)]
Sizes == 0 .. MaxPts

Inits(k) ==
    LET V(f(_, _), n) == MkV(k, f(k, n)) IN
    CASE NOperands = 0 -> {0 :> V(Data, n) : n \in Sizes}
      [] Group = "split" -> {(0 :> V(Data, n)) @@ (1 :> V(Data, m)) @@ (2 :> V(Units, m)) @@ (3 :> V(Data, j)) : n \in Sizes, m \in {0, 1, 2}, j \in {1, 2}}
      [] Group = "cplxreal" -> LET r == IF k[1] = "G" THEN <<"G", FALSE, k[3]>> ELSE <<TypeOf(FALSE, k[3]), FALSE, k[3]>> IN
                                {(0 :> V(Data, n)) @@ (1 :> MkV(r, Data(r, m))) @@ (2 :> MkV(r, Units(r, j))) : n \in Sizes, m \in {0, 2}, j \in {2}}
      [] Group = "pair" -> {(0 :> V(Data, n)) @@ (1 :> [MkV(j, Data(j, m)) EXCEPT !.dl = x]) @@ (2 :> MkV(j, Units(j, m))) :
                               n \in Sizes, m \in {0, 1, MaxPts}, j \in IF k[1] = "G" THEN {q \in Kinds : q[1] = "G"} ELSE {k, <<TypeOf(FALSE, k[3]), FALSE, k[3]>>}, x \in {4096, 4480, 4608, 1024}}
      [] OTHER -> {(0 :> V(Data, n)) @@ (1 :> V(Units, m)) : n \in Sizes, m \in Sizes}

Init == /\ \E k \in Kinds : P \in Inits(k)
        /\ ini = P
        /\ hist = <<>>

ScenOf(h) == [q |-> Q, ini |-> [i \in 1 .. Cardinality(DOMAIN ini) |->
                LET v == ini[i - 1] IN [s |-> i - 1, ty |-> v.ty, cx |-> v.cx, fr |-> v.fr, dl |-> v.dl, d |-> v.d]], calls |-> h]

Legal(c, v) ==
    /\ \/ v.ty = "G"
       \/ /\ c.op \in {"fft_shift", "ifft_shift"} => v.ty = "CF"
          /\ c.op \in {"scale_c", "offset_c", "conj"} => v.cx
          /\ c.op = "abs" => ~v.cx
    /\ Group \in {"state", "len"} => \/ MaxAbs(v) < 2500
                                     \/ c.op \in {"reverse", "swap_halves", "to_rt", "to_ct", "to_real", "to_complex", "resize", "zero_pad"}
DivOK(c, v) == c.op \notin {"div", "div_smaller"} \/
    LET x == Eff(c, P, S) IN x.r # "ok" \/ \A i \in DOMAIN v.d : Abs(v.d[i]) < 100000
Next ==
    /\ Len(hist) < Depth
    /\ \E c \in Calls(Pts(P[0])) :
        /\ Legal(c, P[0])
        /\ DivOK(c, P[0])
        /\ LET x == Eff(c, P, S) h == Append(hist, c) IN
           /\ x.r # "undefined"
           /\ P' = [k \in DOMAIN P |-> IF k \in DOMAIN x.p THEN x.p[k] ELSE P[k]]
           /\ hist' = h
           /\ ini' = ini
           /\ IF Emit /\ TLCSet(5, (TLCGet(5) * 1103 + 12345) % 65536) /\ (TLCGet(5) \div 16) % Every = 0 THEN PrintT("SCEN " \o ToJson(ScenOf(h))) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == P
ASSUME TLCSet(5, atoi(IOEnv.VERIF_SEED) % 65536)

----------------------------------------------------------------------------
(* invariants *)
Rep == \A k \in DOMAIN P : RepOK(P[k])
V0 == P[0]
Bag(v) == LET pts == [i \in 1 .. Pts(v) |-> SubSeq(v.d, (i - 1) * W(v) + 1, i * W(v))]
          IN [x \in {pts[i] : i \in DOMAIN pts} |-> Cardinality({i \in DOMAIN pts : pts[i] = x})]
NonZero(v) == SelectSeq([i \in 1 .. Pts(v) |-> SubSeq(v.d, (i - 1) * W(v) + 1, i * W(v))], LAMBDA p : \E j \in DOMAIN p : p[j] # 0)
(* b; tells which operation it is about if it does not hold *)
Holds(op, b) == b \/ (PrintT(op) /\ FALSE)
(* a call which fails keeps everything, or makes the run time typed vector invalid *)
Kept(x) == x.p = <<>> \/ (DOMAIN x.p = {0} /\ x.p[0].d = <<>> /\ x.p[0].nan)
Laws ==
    CASE Group = "perm" -> /\ RevV(RevV(V0)) = V0
                           /\ UnswapHalves(SwapHalves(V0)) = V0
                           /\ SwapHalves(UnswapHalves(V0)) = V0
                           /\ \A v \in {RevV(V0), SwapHalves(V0), UnswapHalves(V0)} : Bag(v) = Bag(V0)
                           \* the zero frequency moves to the middle
                           /\ Pts(V0) > 0 => Pt(IF V0.cx THEN SwapHalves(V0) ELSE ToCplx([V0 EXCEPT !.d = <<1, 1>>]), IF V0.cx THEN Pts(V0) \div 2 ELSE 0)
                                               = IF V0.cx THEN Pt(V0, 0) ELSE <<1, 1>>
      [] Group = "pad" -> \A m \in Pts(V0) + 1 .. Pts(V0) + 3, o \in 0 .. 2 :
                             /\ Pts(Pad(V0, m, o)) = m
                             /\ NonZero(Pad(V0, m, o)) = NonZero(V0)
                             /\ NonZero(ZeroStuff(V0, 3)) = NonZero(V0)
                             /\ Decimate(ZeroStuff(V0, 3), 3, 0) = V0
      [] Group = "diff" -> /\ CumSum(DiffS(V0)) = V0
                           /\ DiffS(CumSum(V0)) = V0
                           /\ Pts(V0) > 0 => Diff(V0).d = SubSeq(DiffS(V0).d, W(V0) + 1, Len(V0.d))
      [] Group = "split" -> \A k \in 1 .. 3 : Pts(V0) % k = 0 =>
                             LET w == W(V0) part == [j \in 1 .. k |-> SplitPart(V0, k, j - 1)] IN
                             [i \in 1 .. Len(V0.d) |-> LET p == (i - 1) \div w c == (i - 1) % w IN part[(p % k) + 1][(p \div k) * w + c + 1]] = V0.d
      [] Group = "arith" -> LET U == P[1] IN Len(U.d) = Len(V0.d) /\ U.cx = V0.cx =>
                             /\ Elementwise("sub", Elementwise("add", V0, U, S), U, S) = V0
                             /\ Elementwise("div", Elementwise("mul", V0, U, S), U, S) = V0
                             /\ Elementwise("mul", V0, U, S) = Elementwise("mul", [V0 EXCEPT !.d = U.d], [U EXCEPT !.d = V0.d], S)
      [] Group = "window" -> \A a \in {<<0, 1, 3>>, <<3, 1, 0>>, <<2, 1, 0>>, <<10, 0, 0>>, <<11, 0, 0>>, <<12, 0, 0>>, <<13, 0, 0>>} :
                             LET n == Pts(V0) wv == IF WinDefined(a, n) THEN Weighted(V0, a) ELSE V0 IN
                             /\ a[1] \in {2, 3, 13} /\ MaxAbs(V0) < 2^24 => Unweighted(wv, a) = V0
                             \* a symmetric window does not care about the direction
                             /\ a[1] # 2 /\ WinDefined(a, n) => RevV(wv) = Weighted(RevV(V0), a)
                             /\ a[1] \in {10, 11, 12, 13} /\ WinDefined(a, n) => \A i \in DOMAIN wv.d : Abs(wv.d[i]) <= Abs(V0.d[i])
      [] Group = "dft" -> LET near(x, y, t) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Abs(x[i] - y[i]) <= t
                              n == Pts(V0)
                              c == AsCplx(V0)
                              D == DftD(c.d, n, -1, 1)
                              t == 2 + (n * MaxAbs(V0)) \div 4096
                              energy(d) == SumR(LAMBDA i : (d[i] * d[i]) \div 64, 1, Len(d)) IN
                             MaxAbs(V0) > 4000 \/
                             \* inverse and forward transform cancel
                             (/\ near(DftD(D, n, 1, Max2(1, n)), c.d, t)
                             \* Parseval
                              /\ Abs(energy(D) - n * energy(c.d)) <= 2 * n * (1 + n) * (MaxAbs(V0) \div 4 + 8)
                             \* bin 0 is the sum
                              /\ n > 0 => near(SubSeq(D, 1, 2), SumC(LAMBDA i : Pt(c, i), 0, n - 1), t)
                             \* spectrum of a real signal
                              /\ ~V0.cx => \A k \in 1 .. n - 1 : near(<<D[2 * k + 1], D[2 * k + 2]>>, <<D[2 * (n - k) + 1], -D[2 * (n - k) + 2]>>, 2 * t)
                             \* a delay is a linear phase: for a delay of n/2 every other bin changes sign
                              /\ n % 2 = 0 => LET D2 == DftD(SwapHalves(c).d, n, -1, 1) IN
                                 \A k \in 0 .. n - 1 : near(<<D2[2 * k + 1], D2[2 * k + 2]>>, CScale(IF k % 2 = 0 THEN 1 ELSE -1, <<D[2 * k + 1], D[2 * k + 2]>>), 2 * t)
                             \* half of the spectrum of a real signal with an odd number of points describes it
                              /\ ~V0.cx /\ n % 2 = 1 => near(DftD(Mirror([c EXCEPT !.d = SubSeq(D, 1, n + 1)]).d, n, 1, n), c.d, 2 * t))
      [] Group = "smaller" -> LET U == P[1] IN U.d # <<>> /\ Len(V0.d) % Len(U.d) = 0 =>
                             LET R == [U EXCEPT !.d = [i \in DOMAIN V0.d |-> U.d[((i - 1) % Len(U.d)) + 1]]] IN
                             \A op \in {"add", "sub", "mul", "div"} : Elementwise(op, V0, U, S) = Elementwise(op, V0, R, S)
      [] Group = "stat" -> LET n == Pts(V0) p == [i \in 1 .. n |-> PtC(V0, i - 1)]
                               sum(v) == SumC(LAMBDA i : PtC(v, i), 0, Pts(v) - 1) IN
                             /\ sum(RevV(V0)) = sum(V0)
                             /\ sum(CumSum(DiffS(V0))) = sum(V0)
                             /\ \A k \in 1 .. 3 : n % k = 0 =>
                                 SumC(LAMBDA j : sum([V0 EXCEPT !.d = SplitPart(V0, k, j)]), 0, k - 1) = sum(V0)
      [] Group = "dot" -> LET U == P[1] T == [V0 EXCEPT !.d = U.d]
                              dot(x, y) == LET e == C(IF x.cx THEN "dot_c" ELSE "dot", <<1>>, <<>>) IN EffReduce(e, (0 :> x) @@ (1 :> y), S) IN
                             /\ Len(U.d) = Len(V0.d) /\ U.cx = V0.cx => dot(V0, U).n = dot(T, [U EXCEPT !.d = V0.d]).n
                             /\ dot(V0, U).r # "num" => Len(U.d) # Len(V0.d) \/ U.cx # V0.cx \/ U.fr # V0.fr
      [] Group = "modulo" -> V0.cx \/ \A d \in {1, 3, 4} :
                             LET w == EffMap(C("wrap", <<>>, <<d>>), P, S).p[0]
                                 u == EffMap(C("unwrap", <<>>, <<d>>), 0 :> w, S).p[0] IN
                             /\ \A i \in DOMAIN w.d : Abs(w.d[i]) < d * S /\ (w.d[i] - V0.d[i]) % (d * S) = 0
                             /\ \A i \in DOMAIN u.d : (u.d[i] - V0.d[i]) % (d * S) = 0 /\ (i > 1 => 2 * Abs(u.d[i] - u.d[i - 1]) <= d * S)
      [] Group = "cplxreal" -> V0.cx =>
                             LET E(op) == EffCplxReal(C(op, IF op \in GetOps \union SetOps THEN <<1, 2>> ELSE <<>>, <<>>), P, S)
                                 g == E("get_real_imag").p IN
                             /\ V0.d # <<>> /\ ~P[1].cx /\ ~P[2].cx => EffCplxReal(C("set_real_imag", <<1, 2>>, <<>>), (0 :> V0) @@ g, S).p[0].d = V0.d
                             /\ \A i \in 1 .. Pts(V0) : LET m == E("magnitude").p[0].d[i] IN m * m <= S * (E("magnitude_squared").p[0].d[i] + 1) /\ m >= 0
                             /\ E("to_real").p[0].d = g[1].d /\ E("to_imag").p[0].d = g[2].d
      [] Group = "conv" -> LET U == P[1] sum(v) == SumC(LAMBDA i : PtC(v, i), 0, Pts(v) - 1)
                               conv(x, y) == EffConvol(C("convolve_signal", <<1>>, <<>>), (0 :> x) @@ (1 :> y), S)
                               R == conv(V0, U) IN
                             R.r # "ok" \/ Pts(V0) = 0 \/
                             (\* the sum of the result is the product of the sums
                              /\ sum(R.p[0]) = CMul(sum(V0), sum(U))
                             \* a shifted signal has a shifted result
                              /\ conv(SwapHalves(V0), U).p[0] = SwapHalves(R.p[0])
                             \* linear
                              /\ conv(Elementwise("add", V0, RevV(V0), S), U).p[0] = Elementwise("add", R.p[0], conv(RevV(V0), U).p[0], S)
                             \* a single one in the middle of the response changes nothing
                              /\ \A m \in 1 .. Pts(V0) :
                                   LET one == [V0 EXCEPT !.d = [i \in 1 .. m * W(V0) |-> IF i = ((m - 1) \div 2) * W(V0) + 1 THEN S ELSE 0]] IN
                                   m % 2 = 1 => conv(V0, one).p[0] = V0)
      [] Group = "mfr" -> LET n == Pts(V0) m == Max2(1, n \div 2)
                              mul(v, a) == EffFreqResp(C("mfr", <<>>, a), 0 :> v, S).p[0]
                              ones == <<1, 1, 1, m, 3, 1, 1, 1, 1, 1, 1, 1>> IN
                             V0.fr =>
                             (/\ n <= 7 => mul(V0, ones) = V0
                              \* only the zero frequency remains
                              /\ LET z == mul(V0, <<1, 1, 1, m, 0, 1>>) IN \A i \in DOMAIN z.d : (i - 1) \div W(V0) # n \div 2 => z.d[i] = 0
                              \* a symmetric response and a reversed spectrum with an odd number of bins
                              /\ n % 2 = 1 => mul(RevV(V0), <<1, 1, 1, m, 1, 2, 3, 2>>) = RevV(mul(V0, <<1, 1, 1, m, 1, 2, 3, 2>>)))
      [] Group = "corr" -> LET U == P[1] n == Pts(V0) IN
                             V0.cx /\ U.cx /\ ~V0.fr /\ ~U.fr /\ Pts(U) = n /\ n > 0 /\ MaxAbs(V0) < 200 =>
                             LET prep == EffCorr(C("prepare_argument_padded", <<>>, <<>>), 0 :> U, S).p[0]
                                 R == EffCorr(C("correlate", <<1>>, <<>>), (0 :> V0) @@ (1 :> prep), S)
                                 direct(p) == LET z == SumC(LAMBDA j : LET i == j + p - (n - 1) IN
                                                    IF i < 0 \/ i >= n THEN CZero ELSE CMul(Pt(V0, i), CConj(Pt(U, j))), 0, n - 1) IN <<z[1] \div S, z[2] \div S>> IN
                             /\ Pts(R.p[0]) = 2 * n - 1
                             /\ \A p \in 0 .. 2 * n - 2 : LET x == Pt(R.p[0], p) y == direct(p) IN Abs(x[1] - y[1]) <= R.tol + 4 /\ Abs(x[2] - y[2]) <= R.tol + 4
      [] Group = "interp" -> LET n == Pts(V0) near(x, y, t) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Abs(x[i] - y[i]) <= t
                                 E(op, a) == EffInterp(C(op, <<>>, a), 0 :> V0, S) IN
                             n = 0 \/ MaxAbs(V0) > 1500 \/
                             (\* the original points are among those of the interpolated signal
                              /\ \A k \in 1 .. 3 : LET R == E("interpft", <<k * n>>) IN
                                   near(Decimate(R.p[0], k, 0).d, V0.d, R.tol + 1) /\ Abs(R.p[0].dl - V0.dl \div k) <= 1
                              /\ \A k \in 1 .. 3 : LET R == E("interpolatef", <<k, 1, 0, 1, 1, 1, 4 * k, 0, 1>>).p[0] IN W(V0) = 1 \/ Decimate(R, k, 0).d = V0.d
                              \* a delay by one sample rotates the signal
                              /\ LET R == E("interpolate", <<n, V0.dl \div 1024, 4>>) IN near(R.p[0].d, GatherV(V0, n, LAMBDA i : (i + 1) % n).d, R.tol + 1) \/ (n % 2 = 0 /\ ~V0.cx) \/ V0.dl % 1024 # 0
                              \* constant in, constant out
                              /\ LET one == [V0 EXCEPT !.d = [i \in DOMAIN V0.d |-> S]] R == EffInterp(C("interpft", <<>>, <<n + 1>>), 0 :> one, S) IN
                                   \A i \in DOMAIN R.p[0].d : Abs(R.p[0].d[i] - S) <= R.tol)
      [] Group = "lin" -> LET n == Pts(V0) E(op, a) == EffLin(C(op, <<>>, a), 0 :> V0, S).p[0] IN
                             V0.cx \/ n = 0 \/
                             (/\ \A op \in LinOps, f \in 1 .. 4 : Decimate(E(op, <<f, 1, 0, 1>>), f, 0).d = V0.d
                              /\ \A i \in DOMAIN V0.d : E("interpolate_lin", <<1, 1, 1, 1>>).d[i] = V0.d[Min2(i + 1, n)]
                              /\ Decimate(ZeroStuff(V0, 2), 2, 0) = V0)
      [] Group = "type" -> LET E(op) == EffType(C(op, <<>>, <<>>), P).p[0] IN
                             \* a conversion keeps the points only if they still mean the same
                             /\ \A op \in {"to_rt", "to_ct", "to_rf", "to_cf"} :
                                   LET v == E(op) IN v.dl = V0.dl /\ v.cx = (op \in {"to_ct", "to_cf"}) /\ v.fr = (op \in {"to_rf", "to_cf"})
                                                     /\ v.d = IF v.cx = V0.cx /\ v.fr = V0.fr THEN V0.d ELSE <<>>
                             /\ E("to_gen").d = V0.d
      [] Group = "state" ->  /\ (V0.ty # "G" => V0.ty = TypeOf(V0.cx, V0.fr))
                             /\ MaxAbs(V0) >= 2500 \/ \A op \in {o \in DOMAIN Moves : V0.ty = "G" \/ Fits(V0, Moves[o])} :
                                   LET m == Moves[op] x == Eff(C(op, <<>>, <<>>), P, S) IN
                                   Holds(op, IF x.r = "undefined" THEN V0.ty # "G"
                                   ELSE IF x.r # "ok" THEN Kept(x) /\ (Fits(V0, m) => op \in {"sfft", "plain_sfft", "sifft", "plain_sifft"})
                                   ELSE LET v == x.p[0] IN
                                        IF Fits(V0, m) THEN <<v.cx, v.fr>> = Leads(V0, m) /\ v.nan = V0.nan
                                                            /\ (V0.nan \/ v.dl = V0.dl \/ op \in DftOps \union {"prepare_argument", "prepare_argument_padded"})
                                        ELSE IsGen(V0) /\ v.d = <<>> /\ v.nan)
      [] Group = "pair" -> \A c \in Calls(Pts(V0)) : V0.ty # "G" \/ LET x == Eff(c, P, S) IN Holds(c.op,
                             \* whatever is not done changes nothing
                             /\ x.r \notin {"ok", "num", "undefined"} => (Kept(x) /\ (x.free = {} \/ c.op = "split_into"))
                             /\ (c.op \in {"add", "sub", "mul", "add_smaller", "correlate", "convolve_signal"} /\ x.r \in {"ok", "num"} /\ ~(\E k \in DOMAIN x.p : x.p[k].nan)) =>
                                 \/ V0.nan \/ P[1].nan \/ c.op = "correlate"
                                 \/ (V0.cx = P[1].cx /\ V0.fr = P[1].fr /\ 10 * Abs(V0.dl - P[1].dl) <= P[1].dl))
      [] Group = "elem" -> hist # <<>> \/ \A k \in DOMAIN V0.d :
                             LET x == V0.d[k] * (One \div S) y == V0.d[((k * 2) % Len(V0.d)) + 1] * (One \div S)
                                 F(f, a) == RF(f, a, 1, 1).v
                                 C2(f, z) == LET r == CF(f, z, 1, 1) IN <<r.v, r.u>>
                                 ok(f, z) == CF(f, z, 1, 1).t # Skip
                                 near(a, b) == Abs(a - b) <= 64 + Abs(a) \div 200
                                 nearC(a, b) == Abs(a[1] - b[1]) <= 300 + (Abs(a[1]) + Abs(a[2])) \div 200 /\ Abs(a[2] - b[2]) <= 300 + (Abs(a[1]) + Abs(a[2])) \div 200
                                 z == <<x, y>>
                             IN /\ near(MulQ(F("sin", x), F("sin", x)) + MulQ(F("cos", x), F("cos", x)), One)
                                /\ near(MulQ(F("cosh", x), F("cosh", x)), One + MulQ(F("sinh", x), F("sinh", x)))
                                /\ near(F("ln", F("exp", x)), x)
                                /\ near(F("sinh", F("asinh", x)), x) /\ near(F("tan", F("atan", x)), x)
                                /\ near(MulQ(F("exp", x), F("exp", -x)), One)
                                /\ Abs(x) <= One => near(F("sin", F("asin", x)), x) /\ near(F("asin", x) + F("acos", x), Pi \div 2) /\ F("acos", x) \in 0 .. Pi
                                /\ Abs(x) < One => near(F("tanh", F("atanh", x)), x)
                                /\ x >= One => near(F("cosh", F("acosh", x)), x) /\ F("acosh", x) >= 0
                                /\ x > 0 => near(F("square", F("sqrt", x)), x) /\ near(RF("root", x, 2, 1).v, F("sqrt", x)) /\ near(RF("root", RF("powf", x, 3, 1).v, 3, 1).v, x)
                                /\ x > 0 => near(RF("expf", RF("log", x, 10, 1).v, 10, 1).v, x)
                                \* complex: a function agrees with the real one, and the inverse functions are inverse and have the principal value
                                /\ \A f \in {"sin", "cos", "sinh", "cosh", "exp", "tanh", "asinh", "atan"} : ok(f, <<x, 0>>) => nearC(C2(f, <<x, 0>>), <<F(f, x), 0>>)
                                /\ \A g \in {<<"sin", "asin">>, <<"cos", "acos">>, <<"sinh", "asinh">>, <<"cosh", "acosh">>, <<"tanh", "atanh">>, <<"exp", "ln">>, <<"square", "sqrt">>, <<"tan", "atan">>} :
                                      ok(g[2], z) /\ ok(g[1], C2(g[2], z)) => nearC(C2(g[1], C2(g[2], z)), z)
                                /\ \A f \in {"asin", "atan"} : ok(f, z) => Abs(C2(f, z)[1]) <= Pi \div 2 + 300
                                /\ ok("acos", z) => C2("acos", z)[1] \in -300 .. Pi + 300
                                /\ ok("acosh", z) => C2("acosh", z)[1] >= -300
                                /\ ok("sqrt", z) => C2("sqrt", z)[1] >= 0
      [] OTHER -> TRUE
=============================================================================
