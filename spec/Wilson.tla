-------------------------------- MODULE Wilson --------------------------------
(***************************************************************************)
(* Zak phases and Wannier charge centres along a closed path.              *)
(*                                                                         *)
(*   start --kpoint+--> states --zak, wcc, zakdoc, wccdoc--> states        *)
(*         --gauge--> start   (the same states with other phases)          *)
(*                                                                         *)
(* kpoint: k (1/24), plane waves, coefficients, energies                   *)
(* zak:    for n = 1 .. nb the phase of the first n bands (as the number   *)
(*         exp(i z) and in units of 10^-5 turns), gaps, gap centres, local *)
(*         gaps                                                            *)
(* wcc:    centres (10^-5) and exp(2 pi i w); U: candidates for the        *)
(*         unitary factors of the overlap matrices, which the              *)
(*         specification checks to be that before using them               *)
(*                                                                         *)
(* The overlaps and everything that follows from them are computed here    *)
(* from the coefficients.  O_i[m][n] = < u_m(k_i) | u_n(k_i+1 + g) > with  *)
(* g the reciprocal lattice vector that brings k_i+1 closest to k_i.       *)
(***************************************************************************)
EXTENDS Num, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
VARIABLES run, pos, first, nk, ref, bad
vars == << run, pos, first, nk, ref, bad >>
In == Runs[run].in
Ev == Runs[run].ev[pos + 1]
NS == IF In.spinor THEN 2 ELSE 1
K(i) == Runs[run].ev[first + i]              \* the i-th k point since the last gauge
NB == K(1).nb

\* a / 24 rounded (never at a half on the paths explored)
Rnd24(a) == (2 * a + 24) \div 48
Next1(i) == IF i = nk THEN 1 ELSE i + 1
Half(i) == \E c \in 1..3 : (In.k24[i][c] - In.k24[Next1(i)][c]) % 24 = 12

Overlap(i) ==
    LET a == K(i)
        b == K(Next1(i))
        d == VSub(In.k24[i], In.k24[Next1(i)])
        g == << Rnd24(d[1]), Rnd24(d[2]), Rnd24(d[3]) >>
        at == [v \in { << b.G[x][1] - g[1], b.G[x][2] - g[2], b.G[x][3] - g[3] >> : x \in DOMAIN b.G } |->
                   CHOOSE x \in DOMAIN b.G : << b.G[x][1] - g[1], b.G[x][2] - g[2], b.G[x][3] - g[3] >> = v]
        shared == { x \in DOMAIN a.G : << a.G[x][1], a.G[x][2], a.G[x][3] >> \in DOMAIN at }
        other == [x \in shared |-> at[<< a.G[x][1], a.G[x][2], a.G[x][3] >>]]
    IN  [m \in 1..NB |-> [n \in 1..NB |->
            CSumSeq([s \in 1..NS |-> CSumOver(shared, LAMBDA x : CMul(CConj(a.C[m][s][x]), b.C[n][s][other[x]]))])]]

Minor(M, n, c) == [i \in 1..n - 1 |-> [j \in 1..n - 1 |-> M[i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE CDet(_, _)
CDet(M, n) == IF n = 1 THEN M[1][1]
              ELSE CSumSeq([c \in 1..n |-> LET x == CMul(M[1][c], CDet(Minor(M, n, c), n - 1)) IN IF c % 2 = 1 THEN x ELSE CNeg(x)])
Big(z) == Mx(Abs(z[1]), Abs(z[2]))
\* the same phase, of absolute value about one
RECURSIVE Grow(_)
Grow(z) == IF z = CZero \/ Big(z) >= One \div 2 THEN z ELSE Grow(CScale(2, z))
\* phases agree: z and w have the same direction
SameDirection(z, w, tol) == LET x == CMul(z, CConj(w)) IN x[1] > 0 /\ Abs(x[2]) * 100 <= tol * (x[1] \div 1000 + 1)

CM(A, B, n) == [i \in 1..n |-> [j \in 1..n |-> CSumSeq([l \in 1..n |-> CMul(A[i][l], B[l][j])])]]
Dagger(A, n) == [i \in 1..n |-> [j \in 1..n |-> CConj(A[j][i])]]
CId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN COne ELSE CZero]]
CMNear(A, B, n, tol) == \A i, j \in 1..n : CNear(A[i][j], B[i][j], tol)
CTr(A, n) == CSumSeq([i \in 1..n |-> A[i][i]])
\* U is the unitary factor of O: U^+ U = 1, U^+ O is Hermitian and positive definite (leading minors)
IsPolar(U, O, n) ==
    LET P == TLCEval(CM(Dagger(U, n), O, n))
    IN  /\ CMNear(CM(Dagger(U, n), U, n), CId(n), n, 60)
        /\ \A i, j \in 1..n : CNear(P[i][j], CConj(P[j][i]), 60)
        /\ \A m \in 1..n : CDet(P, m)[1] > 0

Prod(s, n) == FoldLeft(LAMBDA a, b : CM(a, b, n), CId(n), s)
RECURSIVE PowerSum(_, _)
PowerSum(l, p) == CSumSeq([i \in DOMAIN l |-> FoldLeft(CMul, COne, [x \in 1..p |-> l[i]])])

MinE(b) == LET S == { K(i).er[b] : i \in 1..nk } IN CHOOSE x \in S : \A y \in S : x <= y
MaxE(b) == LET S == { K(i).er[b] : i \in 1..nk } IN CHOOSE x \in S : \A y \in S : x >= y
MinGap(b) == LET S == { K(i).er[b + 1] - K(i).er[b] : i \in 1..nk } IN CHOOSE x \in S : \A y \in S : x <= y
INF == 2000000000
GapClauses(e) ==
    << << "C20.gap", \A b \in DOMAIN e.gw : IF b = NB THEN e.gw[b] = INF ELSE Near(e.gw[b], MinE(b + 1) - MaxE(b), 3) >>,
       << "C20.gap_centre", \A b \in DOMAIN e.gc : IF b = NB THEN e.gc[b] = INF ELSE Near(2 * e.gc[b], MinE(b + 1) + MaxE(b), 6) >>,
       << "C20.local_gap", \A b \in DOMAIN e.lg : IF b = NB THEN e.lg[b] = INF ELSE Near(e.lg[b], MinGap(b), 3) >> >>

ZakClauses(e) ==
    LET O == TLCEval([i \in 1..nk |-> Overlap(i)])
        n == Len(e.ph)
        D == TLCEval([m \in 1..n |-> [i \in 1..nk |-> CDet(O[i], m)]])
        Strong(m) == \A i \in 1..nk : Big(D[m][i]) > 6000
        Total(m) == FoldLeft(LAMBDA a, i : Grow(CMul(a, Grow(D[m][i]))), COne, [i \in 1..nk |-> i])
    IN  << << "C20.zak_count", n = NB /\ Len(e.gw) = n /\ Len(e.gc) = n /\ Len(e.lg) = n >>,
           << "H.strong", In.smooth => \A m \in 1..n : Strong(m) >>,
           << "C20.zak_phase", \A m \in 1..n : Strong(m) => SameDirection(Total(m), e.ph[m], 1000) >>,
           << "C20.zak_range", \A m \in 1..n : e.z[m] >= 0 /\ e.z[m] <= One >> >>
        \o GapClauses(e)
WccClauses(e) ==
    LET O == TLCEval([i \in 1..nk |-> Overlap(i)])
        n == NB
        W == TLCEval(Prod(e.U, n))
        D == TLCEval([i \in 1..nk |-> Grow(CDet(O[i], n))])
        RECURSIVE Tr(_, _)
        Tr(A, p) == IF p = 1 THEN CTr(A, n) ELSE Tr(CM(A, W, n), p - 1)
    IN  << << "H.polar", \A i \in 1..nk : IsPolar(e.U[i], O[i], n) >>,
           << "C20.centres", Len(e.ph) = n /\ \A p \in 1..n : CNear(PowerSum(e.ph, p), Tr(W, p), 500 * n) >>,
           << "C20.centres_order", \A i \in 1..n - 1 : e.w[i] <= e.w[i + 1] >>,
           << "C20.centres_range", \A i \in 1..n : e.w[i] >= 0 /\ e.w[i] <= One >>,
           \* the sum of the centres is the phase of all bands
           << "C20.sum_rule", SameDirection(FoldLeft(CMul, COne, e.ph), FoldLeft(LAMBDA a, i : Grow(CMul(a, D[i])), COne, [i \in 1..nk |-> i]), 1000) >> >>

\* what was found for the first gauge
RefClauses(kind, e) ==
    IF kind \notin DOMAIN ref THEN << >>
    ELSE IF kind = "zak" THEN << << "C20.zak_gauge", \A m \in DOMAIN e.ph : (In.gauge = "phases" \/ m = NB) => SameDirection(e.ph[m], ref.zak.ph[m], 200) >> >>
    ELSE << << "C20.centres_gauge", \A p \in 1..NB : CNear(PowerSum(e.ph, p), PowerSum(ref.wcc.ph, p), 200) >> >>
Turn(a, b, tol) == NearMod(a, b, One, tol)
DocClauses(e) ==
    IF e.e = "zakdoc" THEN << << "C20.zak_printed", "zak" \in DOMAIN ref /\ Len(e.z) = Len(ref.zak.z) /\ \A m \in DOMAIN e.z : Turn(e.z[m], ref.zak.z[m], 4) >>,
                              << "C20.gaps_printed", Len(e.gw) = Len(ref.zak.gw) /\ \A b \in 1..Len(e.gw) - 1 : Near(e.gw[b], ref.zak.gw[b], 100) /\ Near(e.gc[b], ref.zak.gc[b], 600) /\ Near(e.lg[b], ref.zak.lg[b], 100) >>,
                              << "C20.traces_printed", Len(e.traces) = nk /\ \A i \in DOMAIN e.traces : VNear(e.traces[i], VScale(1000, In.k24[i]), 3) >> >>
    ELSE << << "C20.centres_printed", Len(e.w) = Len(ref.wcc.w) /\ \A m \in DOMAIN e.w : \E x \in DOMAIN ref.wcc.w : Turn(e.w[m], ref.wcc.w[x], 4) >>,
            << "C20.sum_printed", Turn(e.sum, SumSeq(ref.wcc.w), 10) >> >>

-----------------------------------------------------------------------------
Empty == [x \in {} |-> 0]
Init == run \in DOMAIN Runs /\ pos = 0 /\ first = 0 /\ nk = 0 /\ ref = Empty /\ bad = {}

KPoint == /\ Ev.e = "kpoint" /\ nk' = nk + 1
          /\ UNCHANGED << first, ref >>
          /\ bad' = bad \union Failing(<< << "H.k", VNear(Ev.k, VScale(1000, In.k24[nk + 1]), 2) >>,
                                         << "H.coefficients", Len(Ev.C) = Ev.nb >>,
                                         << "C20.kpoints", nk < Len(In.k24) >> >>)
Result == /\ Ev.e \in {"zak", "wcc"} /\ nk > 0
          /\ UNCHANGED << first, nk >>
          /\ ref' = IF Ev.e \in DOMAIN ref THEN ref ELSE (Ev.e :> Ev @@ ref)
          /\ bad' = bad \union Failing(<< << "C20.kpoints", nk = Len(In.k24) >>, << "H.half", \A i \in 1..nk : ~Half(i) >> >>
                                       \o (IF Ev.e = "zak" THEN ZakClauses(Ev) ELSE WccClauses(Ev)) \o RefClauses(Ev.e, Ev))
Doc == /\ Ev.e \in {"zakdoc", "wccdoc"} /\ nk > 0
       /\ UNCHANGED << first, nk, ref >>
       /\ bad' = bad \union Failing(DocClauses(Ev))
Gauge == /\ Ev.e = "gauge" /\ first' = pos + 1 /\ nk' = 0
         /\ UNCHANGED << ref, bad >>
Error == /\ Ev.e = "error" /\ UNCHANGED << first, nk, ref >>
         /\ bad' = bad \union {"C20.error_" \o Ev.type}
End == /\ Ev.e = "end" /\ UNCHANGED << first, nk, ref, bad >>

Next == /\ pos < Len(Runs[run].ev)
        /\ pos' = pos + 1 /\ run' = run
        /\ KPoint \/ Result \/ Doc \/ Gauge \/ Error \/ End
        /\ IF pos + 1 = Len(Runs[run].ev) /\ bad' # {} THEN PrintT(<< "BAD", Runs[run].id, bad' >>) ELSE TRUE
Spec == Init /\ [][Next]_vars
TypeOK == nk >= 0 /\ first >= 0
=============================================================================
