------------------------------- MODULE SpBase ------------------------------
(***************************************************************************)
(* Operations of a space group, from its Hall symbol: rotation part and        *)
(* translation in 24ths.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SgTable

One == <<1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0>>
El(A, i, j) == A[3 * (i - 1) + j]
Mul(A, B) == LET r(i, j) == A[3*i-2] * B[j] + A[3*i-1] * B[j+3] + A[3*i] * B[j+6]
                 t(i) == (A[3*i-2] * B[10] + A[3*i-1] * B[11] + A[3*i] * B[12] + A[9+i]) % 24
             IN <<r(1,1), r(1,2), r(1,3), r(2,1), r(2,2), r(2,3), r(3,1), r(3,2), r(3,3), t(1), t(2), t(3)>>
RECURSIVE Close(_, _, _)
Close(seen, front, gens) == LET new == {Mul(a, g) : a \in front, g \in gens} \ seen IN
    IF new = {} THEN seen ELSE Close(seen \cup new, new, gens)
Rng(q) == {q[k] : k \in 1..Len(q)}
OpsOf(n) == Close({One}, {One}, Rng(SgGen[n]))
Neg(W) == [i \in 1..9 |-> -W[i]]
Det(W) == W[1] * (W[5] * W[9] - W[6] * W[8]) - W[2] * (W[4] * W[9] - W[6] * W[7]) + W[3] * (W[4] * W[8] - W[5] * W[7])
PG(ops) == {SubSeq(o, 1, 9) : o \in ops}
LaueOf(pg) == pg \cup {Neg(W) : W \in pg}
Row(h, W) == <<h[1] * W[1] + h[2] * W[4] + h[3] * W[7], h[1] * W[2] + h[2] * W[5] + h[3] * W[8], h[1] * W[3] + h[2] * W[6] + h[3] * W[9]>>
Col(W, v) == <<W[1] * v[1] + W[2] * v[2] + W[3] * v[3], W[4] * v[1] + W[5] * v[2] + W[6] * v[3], W[7] * v[1] + W[8] * v[2] + W[9] * v[3]>>
Distinct(q) == Cardinality(Rng(q)) = Len(q)
=============================================================================
