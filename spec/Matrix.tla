------------------------------- MODULE Matrix -------------------------------
(* Matrices: a matrix is a sequence of rows, and every row is a vector which lives in a slot of its
   own (row i of the matrix at slot t is slot t + i - 1).  The specification of an operation of a
   matrix is the specification of the same operation of its rows.

   A recorded call e of a matrix names the operation (e.m), the number of rows (e.R), the slots of
   the first row of the matrix (e.t) and of the other operands (e.o; e.om tells which of them are
   matrices, the others are vectors which take part in the operation of every row), and the
   scalar results of all rows (e.ns). *)
EXTENDS DspVec

\* the call of row i
RowSlot(e, j, i) == IF e.om[j] THEN e.o[j] + i - 1 ELSE e.o[j]
RowCall(e, i) ==
    LET o == [j \in DOMAIN e.o |-> RowSlot(e, j, i)]
        sl == {e.t + i - 1} \union {o[j] : j \in DOMAIN o}
        has == i \in DOMAIN e.ns
    IN [op |-> e.m, t |-> e.t + i - 1, o |-> o, a |-> e.a, r |-> e.r, wk |-> e.wk,
        n |-> IF has THEN e.ns[i] ELSE <<>>, nx |-> IF has THEN e.nxs[i] ELSE 0, nb |-> IF has THEN e.nbs[i] ELSE 0,
        ws |-> SelectSeq(e.ws, LAMBDA s : s.s \in sl)]
RowSlots(e) == {e.t + i - 1 : i \in 1 .. e.R}

(* Multi channel convolution: e.a = <<c>>, e.o are the impulse responses, c for each row of the result:
   row i becomes the sum over all rows j of the convolution of row j with response number j of row i.
   The result is a record like the ones of Eff, for all rows. *)
Response(e, i, j) == e.o[(i - 1) * e.a[1] + j]
Channel(e, Q, S, i, j) == Eff([op |-> "convolve_signal", t |-> e.t + j - 1, o |-> <<Response(e, i, j)>>, a |-> <<>>], Q, S)
ConvolveMat(e, Q, S) ==
    LET rows == 1 .. e.R
        n == IF e.a[1] = 0 THEN 0 ELSE Len(e.o) \div e.a[1]        \* the rows of the responses
        shape == (e.a[1] = e.R /\ n = e.R) \/ (e.R = 1 /\ Len(e.o) = 1)
        parts == {<<i, j>> : i \in rows, j \in rows}
        res == [ij \in parts |-> Channel(e, Q, S, ij[1], ij[2])]
        errs == {res[ij].r : ij \in parts} \ {"ok"}
        sizes == {Len(Q[e.o[k]].d) : k \in DOMAIN e.o}
        v(ij) == res[ij].p[e.t + ij[2] - 1]
        sum(i) == [k \in 1 .. Len(Q[e.t].d) |-> FoldLeft(LAMBDA s, j : s + v(<<i, j>>).d[k], 0, [j \in rows |-> j])]
        any == {Eff([op |-> "convolve_signal", t |-> e.t + j - 1, o |-> <<e.o[k]>>, a |-> <<>>], Q, S).r : j \in rows, k \in DOMAIN e.o} \ {"ok"}
    IN IF ~shape THEN [errs |-> {"InvalidArgumentLength"} \union any, row |-> [i \in rows |-> Q[e.t + i - 1]], tol |-> 0]
       ELSE IF Cardinality(sizes) > 1 THEN [errs |-> {"InvalidArgumentLength"} \union errs, row |-> [i \in rows |-> Q[e.t + i - 1]], tol |-> 0]
       ELSE IF errs # {} THEN [errs |-> errs, row |-> [i \in rows |-> Q[e.t + i - 1]], tol |-> 0]
       ELSE [errs |-> {}, tol |-> FoldLeft(LAMBDA s, ij : s + res[ij].tol, 0, SetToSeq(parts)),
             row |-> [i \in rows |-> [v(<<i, i>>) EXCEPT !.d = sum(i)]]]
\* the vector operation refuses responses which are longer than the signal, the one of the matrix does not
LongResponse(e, Q) == \E k \in DOMAIN e.o : Len(Q[e.o[k]].d) > Len(Q[e.t].d)

(* Making a matrix: e.a = <<rows, how, complex, frequency domain>>; how = 0: of vectors, which stay as
   they are, otherwise of their plain data. *)
BuildRow(e, v) ==
    LET how == e.a[2]
        cx == IF how = 1 THEN e.a[3] = 1 ELSE how = 4
        fr == IF how = 1 THEN e.a[4] = 1 ELSE how = 3
    IN IF how = 0 THEN v
       ELSE [v EXCEPT !.ty = IF how = 1 THEN "G" ELSE TypeOf(cx, fr), !.cx = cx, !.fr = fr, !.dl = 4096, !.nan = FALSE,
                      !.d = IF cx /\ Len(@) % 2 # 0 THEN <<>> ELSE @]

(* All rows are equally long and in the same state. *)
SameState(v, w) == v.ty = w.ty /\ v.cx = w.cx /\ v.fr = w.fr /\ Len(v.d) = Len(w.d) /\ v.nan = w.nan /\ (v.nan \/ v.dl = w.dl)
Regular(e, Q) == \A i \in 1 .. e.R : SameState(Q[e.t], Q[e.t + i - 1])
=============================================================================
