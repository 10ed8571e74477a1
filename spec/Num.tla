-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Fixed-point arithmetic inside TLC's 32-bit integers (TLC reports an     *)
(* overflow instead of wrapping, so no verdict ever rests on a wrapped     *)
(* number), and the small linear algebra of crystallography.               *)
(*                                                                         *)
(*   fixed-point number   integer n standing for n / One, One = 10^5       *)
(*   complex number       <<re, im>> of fixed-point numbers                *)
(*   phase                integer n standing for exp(2 pi i n / 576); all  *)
(*                        products k.t of k points and translations on the *)
(*                        grid 1/24 are multiples of 1/576                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

One == 100000

Abs(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol

\* round to nearest, for b > 0
RDiv(a, b) == (2 * a + b) \div (2 * b)

MulFx(a, b) == LET ah == a \div 1000
                   al == a % 1000
               IN  (ah * b + 50) \div 100 + (al * b + 50000) \div 100000

CMul(z, w) == << MulFx(z[1], w[1]) - MulFx(z[2], w[2]), MulFx(z[1], w[2]) + MulFx(z[2], w[1]) >>
CAdd(z, w) == << z[1] + w[1], z[2] + w[2] >>
CSub(z, w) == << z[1] - w[1], z[2] - w[2] >>
CNeg(z) == << -z[1], -z[2] >>
CConj(z) == << z[1], -z[2] >>
CScale(n, z) == << n * z[1], n * z[2] >>          \* by an integer
CZero == << 0, 0 >>
COne == << One, 0 >>
CNear(z, w, tol) == Near(z[1], w[1], tol) /\ Near(z[2], w[2], tol)
\* complex division by a positive integer
CDiv(z, n) == << RDiv(z[1], n), RDiv(z[2], n) >>

CSumSeq(s) == FoldLeft(CAdd, CZero, s)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumOver(S, Op(_)) == FoldSet(LAMBDA x, a : a + Op(x), 0, S)
CSumOver(S, Op(_)) == FoldSet(LAMBDA x, a : CAdd(a, Op(x)), CZero, S)

CosQuarter == <<
    100000, 99994, 99976, 99946, 99905, 99851, 99786, 99709, 99619, 99518, 99406, 99281, 99144, 98996,
    98836, 98664, 98481, 98285, 98079, 97860, 97630, 97388, 97134, 96869, 96593, 96305, 96005, 95694,
    95372, 95038, 94693, 94337, 93969, 93591, 93201, 92800, 92388, 91965, 91531, 91086, 90631, 90164,
    89687, 89199, 88701, 88192, 87673, 87143, 86603, 86052, 85491, 84920, 84339, 83748, 83147, 82536,
    81915, 81285, 80644, 79995, 79335, 78667, 77988, 77301, 76604, 75899, 75184, 74460, 73728, 72986,
    72236, 71478, 70711, 69935, 69151, 68359, 67559, 66751, 65935, 65111, 64279, 63439, 62592, 61738,
    60876, 60007, 59131, 58248, 57358, 56461, 55557, 54647, 53730, 52807, 51877, 50942, 50000, 49052,
    48099, 47140, 46175, 45205, 44229, 43248, 42262, 41271, 40275, 39274, 38268, 37258, 36244, 35225,
    34202, 33175, 32144, 31109, 30071, 29028, 27983, 26934, 25882, 24827, 23769, 22708, 21644, 20578,
    19509, 18438, 17365, 16290, 15212, 14133, 13053, 11970, 10887, 9802, 8716, 7628, 6540, 5451, 4362,
    3272, 2181, 1091, 0 >>

\* cos(2 pi n / 576), sin(2 pi n / 576)
Cos576(n) == LET m == n % 576
                 h == IF m > 288 THEN 576 - m ELSE m
             IN  IF h > 144 THEN -CosQuarter[288 - h + 1] ELSE CosQuarter[h + 1]
Sin576(n) == Cos576(n - 144)
Phase(n) == << Cos576(n), Sin576(n) >>

-----------------------------------------------------------------------------
(* vectors and matrices of integers: <<x,y,z>>, <<row1,row2,row3>> *)

Dot(v, w) == v[1] * w[1] + v[2] * w[2] + v[3] * w[3]
VAdd(v, w) == << v[1] + w[1], v[2] + w[2], v[3] + w[3] >>
VSub(v, w) == << v[1] - w[1], v[2] - w[2], v[3] - w[3] >>
VNeg(v) == << -v[1], -v[2], -v[3] >>
VScale(n, v) == << n * v[1], n * v[2], n * v[3] >>
VMod(v, n) == << v[1] % n, v[2] % n, v[3] % n >>
VNear(v, w, tol) == Near(v[1], w[1], tol) /\ Near(v[2], w[2], tol) /\ Near(v[3], w[3], tol)
Col(M, j) == << M[1][j], M[2][j], M[3][j] >>
Transp(M) == << Col(M, 1), Col(M, 2), Col(M, 3) >>
MV(M, v) == << Dot(M[1], v), Dot(M[2], v), Dot(M[3], v) >>
VM(v, M) == << Dot(v, Col(M, 1)), Dot(v, Col(M, 2)), Dot(v, Col(M, 3)) >>
MM(A, B) == LET T == Transp(B) IN << MV(T, A[1]), MV(T, A[2]), MV(T, A[3]) >>
MScale(n, M) == << VScale(n, M[1]), VScale(n, M[2]), VScale(n, M[3]) >>
Cross(v, w) == << v[2] * w[3] - v[3] * w[2], v[3] * w[1] - v[1] * w[3], v[1] * w[2] - v[2] * w[1] >>
Det(M) == Dot(M[1], Cross(M[2], M[3]))
Trace3(M) == M[1][1] + M[2][2] + M[3][3]
\* Adj(M) M = Det(M) 1
Adj(M) == Transp(<< Cross(M[2], M[3]), Cross(M[3], M[1]), Cross(M[1], M[2]) >>)
\* inverse of a matrix of determinant +-1
InvU(M) == MScale(Det(M), Adj(M))
Id3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
MinusId3 == MScale(-1, Id3)

\* v = w modulo n, component-wise, up to tol
NearMod(a, b, n, tol) == LET d == (a - b) % n IN d <= tol \/ d >= n - tol
VNearMod(v, w, n, tol) == /\ NearMod(v[1], w[1], n, tol)
                          /\ NearMod(v[2], w[2], n, tol)
                          /\ NearMod(v[3], w[3], n, tol)

\* 2x2 complex matrices  << <<a,b>>, <<c,d>> >> of fixed-point complex numbers
M2Mul(A, B) == << << CAdd(CMul(A[1][1], B[1][1]), CMul(A[1][2], B[2][1])),
                     CAdd(CMul(A[1][1], B[1][2]), CMul(A[1][2], B[2][2])) >>,
                  << CAdd(CMul(A[2][1], B[1][1]), CMul(A[2][2], B[2][1])),
                     CAdd(CMul(A[2][1], B[1][2]), CMul(A[2][2], B[2][2])) >> >>
M2Near(A, B, tol) == \A i, j \in 1..2 : CNear(A[i][j], B[i][j], tol)
M2Neg(A) == << << CNeg(A[1][1]), CNeg(A[1][2]) >>, << CNeg(A[2][1]), CNeg(A[2][2]) >> >>
M2Trace(A) == CAdd(A[1][1], A[2][2])

\* clauses: << <<name, holds>>, ... >>  ->  set of names of those that do not hold
Failing(clauses) == { clauses[i][1] : i \in { j \in DOMAIN clauses : ~clauses[j][2] } }
=============================================================================
