-------------------------------- MODULE Quat --------------------------------
(***************************************************************************)
(* Exact rotations: an integer quaternion <<a,b,c,d>> stands for the unit   *)
(* quaternion q/|q|; its rotation matrix is QMat(q) / QNorm(q).             *)
(***************************************************************************)
EXTENDS Integers, Sequences

QNorm(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]
\* p then ... : QMul(p, q) is the rotation q followed by p
QMul(p, q) == << p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4],
                 p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
                 p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2],
                 p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1] >>
QInv(q) == <<q[1], -q[2], -q[3], -q[4]>>
QMat(q) == LET a == q[1] b == q[2] c == q[3] d == q[4] IN
    << <<a*a + b*b - c*c - d*d, 2*(b*c - a*d), 2*(b*d + a*c)>>,
       <<2*(b*c + a*d), a*a - b*b + c*c - d*d, 2*(c*d - a*b)>>,
       <<2*(b*d - a*c), 2*(c*d + a*b), a*a - b*b - c*c + d*d>> >>
MMul(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> A[i][1]*B[1][j] + A[i][2]*B[2][j] + A[i][3]*B[3][j]]]
MVec(A, v) == [i \in 1..3 |-> A[i][1]*v[1] + A[i][2]*v[2] + A[i][3]*v[3]]
MT(A) == [i \in 1..3 |-> [j \in 1..3 |-> A[j][i]]]
MScale(s, A) == [i \in 1..3 |-> [j \in 1..3 |-> s * A[i][j]]]
I3 == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>

\* rotation about coordinate axis k by twice the angle whose tangent is n/m
QAxis(k, m, n) == <<m, IF k = 1 THEN n ELSE 0, IF k = 2 THEN n ELSE 0, IF k = 3 THEN n ELSE 0>>
\* three Euler rotations, axes ax = <<k1,k2,k3>>, half-angle tangents h[i] = <<m, n>>
QEuler(ax, h, ext) ==
    LET q1 == QAxis(ax[1], h[1][1], h[1][2])
        q2 == QAxis(ax[2], h[2][1], h[2][2])
        q3 == QAxis(ax[3], h[3][1], h[3][2])
    IN IF ext THEN QMul(q3, QMul(q2, q1)) ELSE QMul(q1, QMul(q2, q3))
=============================================================================
