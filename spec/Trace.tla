------------------------------- MODULE Trace -------------------------------
(* Checks a recording of the real library against DspVec.  Every line of the recording
   is one call; the slots are brought to the recorded state afterwards, so that every
   line is judged on its own and all deviations of a recording are reported. *)
EXTENDS Matrix, Chunks, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
MaxMismatches == 40

VARIABLES l,        \* next line
          P,        \* the slots
          env       \* constants of the scenario: scale etc.
vars == <<l, P, env>>

(* the abstract vector of a recorded one *)
Vec(s, gr) == [ty |-> s.ty, cx |-> s.cx, fr |-> s.fr, d |-> s.d, dl |-> s.dl, nan |-> s.dn,
               alloc |-> s.alloc, gr |-> gr, mc |-> s.mc, ix |-> s.ix > 0, bd |-> s.bad > 0, dx |-> s.di, nz |-> s.nz]
Slots(ws, gr) == [k \in {ws[i].s : i \in DOMAIN ws} |-> Vec(ws[CHOOSE i \in DOMAIN ws : ws[i].s = k], gr)]

(* representation of a recorded vector *)
SnapOK(s) == /\ s.len = Len(s.d)
             /\ s.len <= s.alloc
             /\ s.em <=> s.len = 0
             /\ s.cx => s.len % 2 = 0
             /\ s.pts = (IF s.cx THEN s.len \div 2 ELSE s.len)
             /\ s.ty # "G" => s.ty = TypeOf(s.cx, s.fr)
             /\ s.ty = "G" => (s.er <=> s.dn /\ s.len = 0)

Close(x, y, tol) == Abs(x - y) <= tol

(* recorded vector s is the one which was asked for (i) when it was created *)
Requested(s, i, f32) ==
    /\ s.s = i.s /\ s.ty = i.ty /\ s.cx = i.cx /\ s.fr = i.fr
    /\ s.mc \in {i.mc, <<1, 0, 1, 0, 1>>}        \* the latter without the standard library
    /\ ~s.dn /\ (s.di \/ s.dl = i.dl)
    /\ s.len = Len(i.d)
    /\ s.bad > 0 \/ \A k \in DOMAIN i.d : Close(s.d[k], i.d[k], (IF s.ix > 0 THEN 1 ELSE 0) + (IF f32 THEN Abs(i.d[k]) \div 8388608 ELSE 0))

(* recorded vector s against expected vector v *)
Agrees(s, v, x) ==
    /\ s.ty = v.ty /\ s.cx = v.cx /\ s.fr = v.fr
    /\ s.dn = v.nan
    /\ v.nan \/ Close(s.dl, v.dl, x.dt)
    /\ s.len = Len(v.d)
    /\ s.mc = v.mc
    /\ IF x.te = <<>> THEN x.m # -1 \/ s.bad = 0
       ELSE LET n(t) == Cardinality({k \in DOMAIN x.te : x.te[k] = t})
            IN s.bad >= n(Bad) /\ s.bad <= n(Bad) + n(Skip)
    /\ x.tol # 0 \/ x.m # -1 \/ s.ix = 0 \/ x.te # <<>>
    /\ IF x.te # <<>> THEN \A k \in DOMAIN x.te : x.te[k] = Skip \/ (IF x.te[k] = Bad THEN s.d[k] = 0 ELSE Close(s.d[k], v.d[k], x.tol + x.te[k]))
       ELSE IF x.m = -1 /\ x.tol = 0 THEN s.d = v.d
       ELSE \A i \in 1 .. (IF x.m = -1 THEN Len(v.d) ELSE x.m) : Close(s.d[i], v.d[i], x.tol)
(* an unchanged vector keeps its storage, too *)
Unchanged(s, v) == Agrees(s, v, [tol |-> 0, m |-> IF s.bad = 0 /\ s.ix = 0 THEN -1 ELSE Len(v.d), dt |-> 0, te |-> <<>>]) /\ s.alloc = v.alloc

(* How far off the result may be because the recorded elements before the call are not multiples of
   1/S and were rounded (by at most 1/2); -1: arbitrary far *)
PhaseOps == {"phase", "phase_b", "get_phase", "get_mag_phase"}
Jumps == {"wrap", "unwrap", "phase", "phase_b", "get_phase", "get_mag_phase"} \union ElemOps
Gain(e, Q, S) ==
    LET big(v) == FoldLeft(LAMBDA m, y : Max2(m, Abs(y)), 0, v.d) \div S + 2
        sl == {e.t} \union {e.o[i] : i \in DOMAIN e.o}
        bigs == FoldLeft(LAMBDA m, k : IF k \in DOMAIN Q THEN Max2(m, big(Q[k])) ELSE m, 0, SetToSeq(sl))
    IN IF e.op \in PhaseOps /\ Q[e.t].nz THEN -1                       \* the phase of a negative zero
       ELSE IF \A k \in sl : k \in DOMAIN Q => ~Q[k].ix THEN 0
       ELSE IF \E k \in sl : k \in DOMAIN Q /\ Q[k].bd THEN -1        \* not a number
       ELSE IF e.op \in Jumps THEN -1
       ELSE IF e.op \in {"scale", "scale_c", "map", "map_c", "aggr_sum", "aggr_sum_c", "aggr_max"}
            THEN (1 + FoldLeft(LAMBDA m, y : m + Abs(y), 0, e.a)) * (IF e.op \in AggrOps THEN Len(Q[e.t].d) * e.a[2] ELSE 1)
       ELSE IF e.op \in FftOps \union SfftOps \union {"plain_ifft", "plain_sifft"} THEN 2 * Len(Q[e.t].d) * (IF e.op \in Windowed THEN 9 ELSE 1)
       ELSE IF e.op = "apply_window" THEN 9
       ELSE IF e.op \in {"unapply_window", "windowed_ifft", "windowed_sifft"} THEN 2 * WinAmp(e.a, 2 * Pts(Q[e.t]))
       ELSE IF e.op \in {"cum_sum"} \union SumOps THEN 2 * bigs * (1 + Len(Q[e.t].d))
       ELSE IF e.op \in DotOps THEN 2 * bigs * (1 + Len(Q[e.t].d))
       ELSE IF e.op \in {"mul", "mul_smaller", "magnitude_squared", "magnitude_squared_b", "get_magnitude_squared", "set_mag_phase"} THEN 4 * bigs
       ELSE IF e.op \in {"div", "div_smaller"} THEN -1
       ELSE IF e.op = "correlate" THEN (IF Q[e.t].ix THEN -1 ELSE 0)      \* its tolerance includes it
       ELSE IF e.op \in ConvolOps \union FreqRespOps \union CorrOps \union InterpOps \union LinOps THEN -1
       ELSE 3

NumOK(e, x, Q, en) == x.r # "num" \/ Gain(e, Q, en.S) < 0 \/ IF e.op \in StatOps \union BigOps THEN Q[e.t].ix \/ StatsOK(e, Q[e.t], en.S) ELSE
    /\ Len(e.n) = Len(x.n)
    /\ e.nb = 0
    /\ x.nt # 0 \/ e.nx = 0
    /\ \A i \in DOMAIN x.n : Close(e.n[i], x.n[i], x.nt)

(* the same for delta *)
DeltaGain(e, Q) ==
    LET sl == {k \in {e.t} \union {e.o[i] : i \in DOMAIN e.o} : k \in DOMAIN Q}
    IN IF \A k \in sl : ~Q[k].dx THEN 0
       ELSE 2 + FoldLeft(LAMBDA m, k : Max2(m, Len(Q[k].d)), 0, SetToSeq(sl)) + FoldLeft(LAMBDA m, i : Max2(m, Len(e.ws[i].d)), 0, [i \in DOMAIN e.ws |-> i])

(* The members of a group of scenarios make the same calls in different storages, with different
   buffers, alignments and spare capacities.  e: a call, f: the same call of the first member. *)
Storage == {"TypeCanNotResize", "panic"}
SameCall(e, f) == f.op # "new" /\ e.op = f.op /\ e.t = f.t /\ e.o = f.o /\ e.a = f.a
Alike(x, y, b, f32) == Abs(x - y) <= IF b THEN 1 + Abs(x) \div (IF f32 THEN 2^17 ELSE 2^24) ELSE 0
SameOutcome(e, f, f32) ==
    LET near(x, y, b) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Alike(x[i], y[i], b, f32)
    IN \/ e.r \in Storage \/ f.r \in Storage
       \/ /\ e.r = f.r
          /\ e.nb = f.nb /\ near(e.n, f.n, e.nx > 0 \/ f.nx > 0)
          /\ Len(e.ws) = Len(f.ws)
          /\ \A i \in DOMAIN e.ws : LET x == e.ws[i] y == f.ws[i] b == x.ix > 0 \/ y.ix > 0 IN
                /\ x.s = y.s /\ x.ty = y.ty /\ x.cx = y.cx /\ x.fr = y.fr /\ x.len = y.len /\ x.dn = y.dn
                /\ Close(x.dl, y.dl, IF x.di THEN 1 ELSE 0)
                /\ e.op \in {"resize", "resize_b"} \/ (x.bad = y.bad /\ near(x.d, y.d, b))

(* how many worker threads the call may have at the same time *)
Direct == ElemOps \union {"apply_window", "unapply_window", "mfr", "mfr_c"}
WorkersAllowed(e, Q) ==
    LET sl == {k \in {e.t} \union {e.o[i] : i \in DOMAIN e.o} : k \in DOMAIN Q}
    IN IF sl = {} THEN 1
       ELSE IF e.op \in Direct /\ e.t \in sl THEN MaxWorkers(Len(Q[e.t].d), "medium", Q[e.t].mc)
       ELSE FoldLeft(LAMBDA m, k : Max2(m, Limit(Q[k].mc)), 1, SetToSeq(sl))

(* "" if the line agrees, otherwise what does not *)
Judge(e, Q, en) ==
    LET x0 == Eff(e, Q, en.S)
        g == Gain(e, Q, en.S)
        x1 == IF g = 0 THEN x0 ELSE IF g < 0 THEN [x0 EXCEPT !.m = 0, !.te = <<>>] ELSE [x0 EXCEPT !.tol = @ + g, !.nt = @ + g]
        dg == DeltaGain(e, Q)
        x == IF dg = 0 THEN x1 ELSE [x1 EXCEPT !.dt = Max2(@, dg)]
        failed == e.r \notin {"ok", "num"}
        resOK == e.r = x.r \/ e.r \in x.alt
        dom == IF failed /\ e.r # x.r THEN {} ELSE DOMAIN x.p
    IN IF x.r = "undefined" THEN "not a legal call"
       ELSE IF ~resOK THEN "result, expected " \o x.r
       ELSE IF \E i \in DOMAIN e.ws : ~SnapOK(e.ws[i]) THEN "representation"
       ELSE IF e.op # "ctor" /\ e.wk > WorkersAllowed(e, Q) THEN "more worker threads than configured"
       ELSE IF ~NumOK(e, x, Q, en) THEN "value"
       ELSE IF \E i \in DOMAIN e.ws : ~(IF e.ws[i].s \in dom THEN Agrees(e.ws[i], x.p[e.ws[i].s], x) ELSE (failed /\ e.ws[i].s \in x.free) \/ Unchanged(e.ws[i], Q[e.ws[i].s]))
            THEN "state"
       ELSE IF en.cmp /\ en.ref # en.base /\ SameCall(e, Log[en.ref + l - en.base]) /\ ~SameOutcome(e, Log[en.ref + l - en.base], en.f32)
            THEN "differs from the first of its group"
       ELSE IF e.r # "panic" /\ e.op \notin {"ctor", "fn", "fntable"} /\ ~(({e.t} \union dom) \subseteq {e.ws[i].s : i \in DOMAIN e.ws}) THEN "slot missing"
       ELSE ""

(* a line which belongs to a matrix *)
IsMat(e) == "m" \in DOMAIN e
SnapOf(e, k) == e.ws[CHOOSE i \in DOMAIN e.ws : e.ws[i].s = k]
Recorded(e, k) == \E i \in DOMAIN e.ws : e.ws[i].s = k
RowUntouched(e, Q, k) == Recorded(e, k) /\ Unchanged(SnapOf(e, k), Q[k])
SameSnap(s, t) == s.ty = t.ty /\ s.cx = t.cx /\ s.fr = t.fr /\ s.len = t.len /\ s.pts = t.pts /\ s.dn = t.dn /\ s.dl = t.dl
\* what the matrix says about itself: rows, length and points of a row, spacing, complex, frequency domain
SummaryOK(e) == \/ e.mm = <<>>
                \/ (e.R = 0 /\ e.mm[1] = 0 /\ e.mm[2] = 0 /\ e.mm[3] = 0)
                \/ /\ e.R > 0
                   /\ LET s == SnapOf(e, e.t) IN /\ e.mm[1] = e.R /\ e.mm[2] = s.len /\ e.mm[3] = s.pts
                                                 /\ s.dn \/ e.mm[4] = s.dl
                                                 /\ e.mm[5] = (IF s.cx THEN 1 ELSE 0) /\ e.mm[6] = (IF s.fr THEN 1 ELSE 0)
AnyAgree(s, v, tol) == Agrees(s, v, [tol |-> tol, m |-> IF tol < 0 THEN 0 ELSE -1, dt |-> 0, te |-> <<>>])
JudgeBuild(e, Q) ==
    IF e.r # "ok" THEN "result, expected ok"
    ELSE IF \E i \in 1 .. e.R : LET k == e.t + i - 1 IN
              ~(Recorded(e, k) /\ LET s == SnapOf(e, k) IN SnapOK(s) /\ (IF e.a[2] = 0 THEN Unchanged(s, Q[k]) ELSE AnyAgree(s, [BuildRow(e, Q[k]) EXCEPT !.mc = s.mc], 0)))
         THEN "state" ELSE ""
JudgeDissolve(e, Q, en) ==
    IF e.r # "num" \/ e.n # <<IF e.R = 0 THEN 0 ELSE Len(Q[e.t].d) * en.NS>> THEN "value"
    ELSE IF \E i \in 1 .. e.R : ~RowUntouched(e, Q, e.t + i - 1) THEN "state" ELSE ""
JudgeConvolveMat(e, Q, en) ==
    IF LongResponse(e, Q) THEN ""
    ELSE LET x == ConvolveMat(e, Q, en.S)
             ix == \E k \in DOMAIN Q : Q[k].ix
             others == {e.o[k] : k \in DOMAIN e.o}
         IN IF x.errs # {} /\ e.r \notin x.errs THEN "result, expected an error"
            ELSE IF x.errs = {} /\ e.r # "ok" THEN "result, expected ok"
            ELSE IF \E i \in 1 .. e.R : LET k == e.t + i - 1 IN
                       ~(Recorded(e, k) /\ LET s == SnapOf(e, k) IN SnapOK(s) /\ (IF e.r = "ok" THEN AnyAgree(s, x.row[i], IF ix THEN -1 ELSE x.tol) ELSE Unchanged(s, Q[k])))
                 THEN "state"
            ELSE IF \E k \in others : ~RowUntouched(e, Q, k) THEN "operand" ELSE ""
(* Every row must agree with the same call of a vector.  A failing call: some row must fail in this
   way, the rows before it have succeeded; rows after it are unchanged or have been processed, too. *)
JudgeMat(e, Q, en) ==
    LET J(i, r) == Judge([RowCall(e, i) EXCEPT !.r = r], Q, en)
        rows == 1 .. e.R
        failed == e.r \notin {"ok", "num"}
        wrong == {i \in rows : J(i, e.r) # ""}
        all == IF e.m = "build" THEN JudgeBuild(e, Q) ELSE IF e.m = "dissolve" THEN JudgeDissolve(e, Q, en)
               ELSE IF e.m = "convolve_mat" THEN JudgeConvolveMat(e, Q, en)
               ELSE IF e.R = 0 THEN ""
               ELSE IF ~failed THEN (IF wrong = {} THEN "" ELSE LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j IN "row " \o ToString(i) \o ": " \o J(i, e.r))
               ELSE IF e.r = "panic" THEN (IF \E i \in rows : J(i, e.r) = "" THEN "" ELSE "result: " \o J(1, e.r))
               ELSE IF \E i \in rows : /\ J(i, e.r) = ""
                                       /\ \A j \in rows : \/ (j < i /\ J(j, "ok") = "")
                                                           \/ j = i
                                                           \/ (j > i /\ (RowUntouched(e, Q, e.t + j - 1) \/ J(j, "ok") = "" \/ J(j, e.r) = "")) THEN ""
               ELSE "failure: " \o J(1, e.r)
    IN IF all # "" THEN all
       ELSE IF e.m # "dissolve" /\ e.r # "panic" /\ ~SummaryOK(e) THEN "summary of the matrix"
       ELSE IF ~failed /\ e.m \notin {"build", "dissolve"} /\ e.R > 0 /\ Regular(e, Q)
               /\ \E i \in rows : ~SameSnap(SnapOf(e, e.t), SnapOf(e, e.t + i - 1)) THEN "the rows are not in the same state"
       ELSE ""

Expected(e, Q, en) == IF IsMat(e) THEN (IF e.m \in {"build", "dissolve", "convolve_mat"} \/ e.R = 0 THEN <<>> ELSE [i \in 1 .. e.R |-> LET x == Eff(RowCall(e, i), Q, en.S) IN IF x.r = "undefined" THEN <<>> ELSE <<x.r, x.n, x.p>>]) ELSE LET x == Eff(e, Q, en.S) IN IF x.r = "undefined" THEN <<>> ELSE <<x.r, x.n, x.p>>

Init == l = 1 /\ P = <<>> /\ env = [S |-> 1, grp |-> 0]

NewLine(e) ==
    /\ P' = Slots(e.ws, e.gr)
    /\ env' = [S |-> Pow2(e.q), gr |-> e.gr, NS |-> Pow2(e.nq), f32 |-> e.f32,
               grp |-> e.grp, base |-> l, ref |-> IF e.grp # 0 /\ e.grp = env.grp THEN env.ref ELSE l, cmp |-> e.grp # 0]
    /\ IF ~\A i \in DOMAIN e.ws : SnapOK(e.ws[i]) THEN PrintT("MISMATCH " \o ToString(l) \o " new representation")
       ELSE IF ~\A i \in DOMAIN e.ini : \E j \in DOMAIN e.ws : Requested(e.ws[j], e.ini[i], e.f32) THEN PrintT("MISMATCH " \o ToString(l) \o " new: not the vector which was asked for")
       ELSE TRUE
CallLine(e) ==
    /\ P' = [k \in DOMAIN P \union {e.ws[i].s : i \in DOMAIN e.ws} |->
              IF \E i \in DOMAIN e.ws : e.ws[i].s = k THEN Vec(e.ws[CHOOSE i \in DOMAIN e.ws : e.ws[i].s = k], env.gr) ELSE P[k]]
    /\ env' = [env EXCEPT !.cmp = @ /\ (env.ref = env.base \/ SameCall(e, Log[env.ref + l - env.base])) /\ e.r \notin Storage]
    /\ LET j == IF IsMat(e) THEN JudgeMat(e, P, env) ELSE Judge(e, P, env) IN
       IF j = "" THEN TRUE
       ELSE /\ TLCSet(7, TLCGet(7) + 1)
            /\ IF TLCGet(7) <= MaxMismatches THEN PrintT("MISMATCH " \o ToString(l) \o " " \o e.op \o ": " \o j \o " EXPECTED " \o ToJson(Expected(e, P, env))) ELSE TRUE

Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ LET e == Log[l] IN IF e.op = "new" THEN NewLine(e) ELSE CallLine(e)

Spec == Init /\ [][Next]_vars
View == l
ASSUME TLCSet(7, 0)
Accepted == /\ TLCGet("stats").diameter - 1 = Len(Log)
            /\ PrintT("LINES " \o ToString(Len(Log)) \o " MISMATCHES " \o ToString(TLCGet(7)))
=============================================================================
