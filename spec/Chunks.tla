------------------------------- MODULE Chunks -------------------------------
(* How the elements of an array are distributed over worker threads. *)
EXTENDS Num

CeilDiv(a, b) == (a + b - 1) \div b

(* The settings mc = <<core limit, med dual, med multi, large dual, large multi>>: up to the first threshold
   an operation is not distributed, up to the second one at most two workers are used. *)
Limit(mc) == Max2(1, mc[1])
MaxWorkers(n, complexity, mc) ==
    IF Limit(mc) = 1 \/ complexity = "small" THEN 1
    ELSE LET dual == IF complexity = "medium" THEN mc[2] ELSE mc[4]
             multi == IF complexity = "medium" THEN mc[3] ELSE mc[5]
         IN IF n < dual THEN 1 ELSE IF n < multi THEN 2 ELSE mc[1]
(* the second threshold is always above the first one *)
WithThresholds(a) == <<a[1], a[2], Max2(a[3], a[2] + 1), a[4], Max2(a[5], a[4] + 1)>>

(* n elements in k chunks whose size is a multiple of step *)
ChunkSize(n, step, k) == Max2(1, CeilDiv(CeilDiv(n, k), step) * step)
Portions(n, step, k) == LET c == ChunkSize(n, step, k) IN [i \in 1 .. CeilDiv(n, c) |-> <<(i - 1) * c, Min2(i * c, n)>>]
(* the positions which are told to the workers: computed from the number of chunks alone *)
Ranges(n, step, k) == LET c == ChunkSize(n, step, k) IN [i \in 1 .. k |-> <<(i - 1) * c, IF i < k THEN i * c ELSE n>>]
(* Pairs of chunks with the same distance to the ends; the first half has the additional element *)
Pairs(n, step, k) ==
    LET half == Min2(ChunkSize(n, step, 2), n)
        c == ChunkSize(half, step, k)
    IN [i \in 1 .. CeilDiv(half, c) |->
          LET s == (i - 1) * c e1 == Min2(i * c, half) e2 == n - s
          IN <<<<s, e1>>, IF e2 <= half THEN <<e2, e2>> ELSE <<Max2(e2 - c, half), e2>>>>]

Cells(r) == r[1] .. r[2] - 1
Disjoint(p) == \A i, j \in DOMAIN p : i # j => Cells(p[i]) \cap Cells(p[j]) = {}
Covers(p, n) == UNION {Cells(p[i]) : i \in DOMAIN p} = 0 .. n - 1
(* what has to hold for every distribution *)
PortionsLaw(n, step, k) == LET p == Portions(n, step, k) IN
    /\ Covers(p, n) /\ Disjoint(p) /\ Len(p) <= k
    /\ \A i \in DOMAIN p : p[i][1] < p[i][2] /\ (i < Len(p) => (p[i][2] - p[i][1]) % step = 0)
    /\ n > 0 => Ranges(n, step, Len(p)) = p
(* both chunks of a pair together are symmetric; an element without counterpart is at the end of the first chunk *)
PairsLaw(n, step, k) == LET p == Pairs(n, step, k) q == [i \in 1 .. 2 * Len(p) |-> p[(i + 1) \div 2][2 - (i % 2)]] IN
    /\ Covers(q, n) /\ Disjoint(q) /\ Len(p) <= k
    /\ \A i \in DOMAIN p : LET a == p[i][1] b == p[i][2] IN
          /\ a[2] - a[1] >= b[2] - b[1]
          /\ b[1] < b[2] => a[1] + b[2] = n
          /\ \A j \in 0 .. b[2] - b[1] - 1 : (a[1] + j) + (b[2] - 1 - j) = n - 1
=============================================================================
