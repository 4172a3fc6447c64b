------------------------------ MODULE Threads ------------------------------
(* Worker threads which process the chunks of an array: all interleavings of their steps.
   Every behaviour has to leave the array and the results as the sequential execution does.
   The orders in which workers can run one after another are printed as scenarios; the driver
   forces the library's threads into that order and Trace judges the result. *)
EXTENDS Chunks, Json, IOUtils

MaxLen == atoi(IOEnv.PTS)
MaxCores == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"
Every == atoi(IOEnv.EVERY)

VARIABLES cfg, arr, at, reg, up, stack, order, joined
vars == <<cfg, arr, at, reg, up, stack, order, joined>>

(* kind "each": every element on its own; "pairs": symmetric pairs share a parameter; "results": a result per chunk.
   thr: is the array below the thresholds, between or above them?  serial: workers do not interleave. *)
Mc(n, cores, thr) == WithThresholds(CASE thr = 0 -> <<cores, n + 1, n + 2, n + 1, n + 2>>
                                     [] thr = 1 -> <<cores, n, n + 1, n, n + 1>>
                                     [] OTHER -> <<cores, 0, 1, 0, 1>>)
Configs == {[kind |-> kd, n |-> n, step |-> st, mc |-> Mc(n, c, t), thr |-> t, serial |-> s] :
              kd \in {"each", "pairs", "results"}, n \in 0 .. MaxLen, st \in {1, 2}, c \in 1 .. MaxCores, t \in 0 .. 2, s \in BOOLEAN}
K == MaxWorkers(cfg.n, "medium", cfg.mc)
Work == IF cfg.kind = "pairs" THEN Pairs(cfg.n, cfg.step, K)
        ELSE LET p == Portions(cfg.n, cfg.step, K) IN [i \in DOMAIN p |-> <<p[i], <<p[i][2], p[i][2]>>>>]
W == DOMAIN Work

(* parameter which belongs to a position, e.g. the value of a window *)
Par(j) == IF cfg.kind = "pairs" THEN 1 + Min2(j, cfg.n - 1 - j) ELSE 1 + j
Ini(j) == 1 + ((j * 7) % 5)
Sequential == [j \in 0 .. cfg.n - 1 |-> Ini(j) * Par(j)]

(* the cells worker w touches in step i, and the position it believes to be at *)
Here(w, i) == LET a == Work[w][1] b == Work[w][2] IN
    {a[1] + i} \union (IF i < b[2] - b[1] THEN {b[2] - 1 - i} ELSE {})
Pos(w, i) == LET r == IF cfg.kind = "pairs" THEN Work[w][1] ELSE Ranges(cfg.n, cfg.step, Len(Work))[w] IN r[1] + i
Size(w) == Work[w][1][2] - Work[w][1][1]
Done(w) == at[w] = Size(w) + 1

Init == /\ cfg \in Configs
        /\ arr = [j \in 0 .. cfg.n - 1 |-> Ini(j)]
        /\ at = [w \in W |-> 0]
        /\ reg = [w \in W |-> <<>>]
        /\ up = 0
        /\ stack = <<>>
        /\ order = <<>>
        /\ joined = FALSE

(* the calling thread starts one worker after the other *)
Spawn == /\ up < Len(Work) /\ up' = up + 1
         /\ UNCHANGED <<cfg, arr, at, reg, stack, order, joined>>
Running(w) == w <= up /\ ~Done(w)
MayRun(w) == Running(w) /\ (~cfg.serial \/ (up = Len(Work) /\ \A v \in W : v # w => ((at[v] = 0 /\ reg[v] = <<>>) \/ Done(v))))
Load(w) == /\ MayRun(w) /\ at[w] < Size(w) /\ reg[w] = <<>>
           /\ reg' = [reg EXCEPT ![w] = <<[j \in Here(w, at[w]) |-> arr[j]]>>]
           /\ UNCHANGED <<cfg, arr, at, up, stack, order, joined>>
Store(w) == /\ MayRun(w) /\ reg[w] # <<>>
            /\ arr' = [j \in DOMAIN arr |-> IF j \in DOMAIN reg[w][1] THEN reg[w][1][j] * Par(Pos(w, at[w])) ELSE arr[j]]
            /\ reg' = [reg EXCEPT ![w] = <<>>]
            /\ at' = [at EXCEPT ![w] = @ + 1]
            /\ UNCHANGED <<cfg, up, stack, order, joined>>
(* the position of the first maximum and the sum of a chunk are put into a shared list *)
Best(s) == CHOOSE x \in s : \A y \in s : x[2] > y[2] \/ (x[2] = y[2] /\ x[1] <= y[1])
Result(r) == [sum |-> FoldLeft(LAMBDA a, j : a + arr[j], 0, [i \in 1 .. r[2] - r[1] |-> r[1] + i - 1]), max |-> Best({<<j, arr[j]>> : j \in Cells(r)})]
Finish(w) == /\ MayRun(w) /\ at[w] = Size(w)
             /\ at' = [at EXCEPT ![w] = @ + 1]
             /\ stack' = IF cfg.kind = "results" THEN Append(stack, Result(Work[w][1])) ELSE stack
             /\ order' = IF cfg.serial THEN Append(order, w) ELSE order
             /\ UNCHANGED <<cfg, arr, reg, up, joined>>
Merge(s) == IF s = <<>> THEN [sum |-> 0, max |-> <<>>]
            ELSE [sum |-> FoldLeft(LAMBDA a, x : a + x.sum, 0, s), max |-> Best({s[i].max : i \in DOMAIN s})]

(* scenarios: what is called depends on the kind of work *)
Data(n, w) == [i \in 1 .. n * w |-> 64 * (((i * 7) % 11) - 5)]
V(ty, cx, fr, n) == <<[s |-> 0, ty |-> ty, cx |-> cx, fr |-> fr, dl |-> 4096, d |-> Data(n, IF cx THEN 2 ELSE 1), mc |-> cfg.mc]>>
Cl(op, a) == <<[op |-> op, t |-> 0, o |-> <<>>, a |-> a]>>
Scens(n) ==
    LET sc(ini, cl) == [q |-> 6, ini |-> ini, calls |-> cl, sc |-> order] IN
    CASE cfg.kind = "each" -> {sc(V("RT", FALSE, FALSE, n), Cl("square", <<>>)), sc(V("CT", TRUE, FALSE, n), Cl("square", <<>>)), sc(V("RT", FALSE, FALSE, n), Cl("apply_window", <<1, 3, 7>>)),
                               sc(V("CT", TRUE, FALSE, n), Cl("apply_window", <<1, 3, 7>>)), sc(V("CF", TRUE, TRUE, n), Cl("mfr", <<1, 1, 0, 4, 3, 1, 2, 3, 4, 5, 6, 7, 8>>)),
                               sc(V("CF", TRUE, TRUE, n), Cl("mfr_c", <<1, 1, 0, 2, 2, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>))}
      [] cfg.kind = "pairs" -> {sc(V("RT", FALSE, FALSE, n), Cl("apply_window", <<0, 3, 7>>)), sc(V("CT", TRUE, FALSE, n), Cl("apply_window", <<3, 1, 1>>)),
                                sc(V("CF", TRUE, TRUE, n), Cl("mfr", <<1, 1, 1, 4, 4, 1, 2, 3, 4, 5, 4, 3, 2, 1>>))}
      [] OTHER -> {}
Out(x) == TLCSet(5, (TLCGet(5) * 1103 + 12345) % 65536) /\ ((TLCGet(5) \div 16) % Every = 0 => PrintT("SCEN " \o ToJson(x)))
Join == /\ ~joined /\ up = Len(Work) /\ \A w \in W : Done(w)
        /\ joined' = TRUE
        /\ IF Emit /\ cfg.serial /\ cfg.step = 1 THEN \A x \in Scens(cfg.n) : Out(x) ELSE TRUE
        /\ UNCHANGED <<cfg, arr, at, reg, up, stack, order>>
Next == Spawn \/ (\E w \in W : Load(w) \/ Store(w) \/ Finish(w)) \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ASSUME TLCSet(5, atoi(IOEnv.VERIF_SEED) % 65536)

----------------------------------------------------------------------------
(* the distribution as such, for longer arrays *)
ASSUME \A n \in 0 .. 48, st \in 1 .. 4, k \in 1 .. 9 : PortionsLaw(n, st, k)
ASSUME \A n \in 0 .. 48, k \in 1 .. 9 : PairsLaw(n, 1, k)

Live == Cardinality({w \in W : Running(w)})
WorkerLimit == Live <= Limit(cfg.mc) /\ Len(Work) <= K
(* nobody works on the cells of somebody else *)
NoRace == \A v, w \in W : v # w /\ reg[v] # <<>> /\ reg[w] # <<>> => DOMAIN reg[v][1] \cap DOMAIN reg[w][1] = {}
(* what has been done is right and has been done once *)
OnceAndRight == \A j \in DOMAIN arr : arr[j] \in {Ini(j), Sequential[j]}
AsSequential == joined => /\ arr = Sequential
                          /\ cfg.kind = "results" => Merge(stack) = Merge(IF cfg.n = 0 THEN <<>> ELSE <<Result(<<0, cfg.n>>)>>)
Ends == <>joined
=============================================================================
