-------------------------------- MODULE Matrices --------------------------------
(***************************************************************************)
(* Matrices between the states of k points, and what they are made of.     *)
(*                                                                         *)
(*    group  kpoint+  (symm | spin | overlap | close | loc)*  end          *)
(*                                                                         *)
(* kpoint:  k (1/24), plane waves, coefficients of normalised states       *)
(* symm:    operation, k point: the matrix between the states, the         *)
(*          diagonal computed on its own, and for every plane wave the one *)
(*          it is taken to; or refused                                     *)
(* spin:    k point, threshold: groups of states, mean energies, matrices  *)
(*          < i | j >, < i | sigma | j >                                   *)
(* overlap: two k points                                                   *)
(* close:   a point (10^-7), precision: whether it is this k point up to   *)
(*          a reciprocal vector                                            *)
(* loc:     mean of a function of the position over each state; function   *)
(*          = sum of amplitude * cos (2 pi m r) or sin (2 pi m r)          *)
(***************************************************************************)
EXTENDS Crystal, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
VARIABLES run, pos, ops, kps, bad
vars == << run, pos, ops, kps, bad >>
In == Runs[run].in
Ev == Runs[run].ev[pos + 1]
NS == IF In.spinor THEN 2 ELSE 1
K(i) == Runs[run].ev[kps[i]]
Op(i) == ops[CHOOSE j \in DOMAIN ops : ops[j].ind = i]
T24(o) == [c \in 1..3 |-> RDiv(o.t[c], 1000)]

Vec(g) == << g[1], g[2], g[3] >>
At(G) == [v \in { Vec(G[i]) : i \in DOMAIN G } |-> CHOOSE i \in DOMAIN G : Vec(G[i]) = v]

-----------------------------------------------------------------------------
(* the action of an operation *)
\* where the plane wave goes: R^{-T} (k + G) - k
Goes(o, ik, g) ==
    LET k == In.k24[ik]
        q == VSub(MV(RecRot(o.R), VAdd(VScale(24, g), k)), k)
    IN  << q[1] \div 24, q[2] \div 24, q[3] \div 24 >>
To(o, ik) == LET G == K(ik).G
                 at == At(G)
             IN  [i \in DOMAIN G |-> LET v == Goes(o, ik, Vec(G[i])) IN IF v \in DOMAIN at THEN at[v] ELSE 0]
Fixes(o, ik) == LittleGroupOn(24, o.R, In.k24[ik])
\* < m | {R|t} | n >
SymmElement(o, ik, to, m, n) ==
    LET k == K(ik)
        Spin(i, s) == IF NS = 1 THEN k.C[n][1][i] ELSE CAdd(CMul(o.S[s][1], k.C[n][1][i]), CMul(o.S[s][2], k.C[n][2][i]))
        \* the phase exp(-2 pi i R^{-T}q . t)
        Ph(i) == Phase(-Dot(VAdd(VScale(24, Vec(k.G[to[i]])), In.k24[ik]), T24(o)))
    IN  CSumOver(DOMAIN k.G, LAMBDA i : IF to[i] = 0 THEN CZero ELSE
            CMul(Ph(i), CSumSeq([s \in 1..NS |-> CMul(CConj(k.C[m][s][to[i]]), Spin(i, s))])))
SymmClauses(e) ==
    LET o == Op(e.sym)
        ik == e.ik
        nb == K(ik).nb
    IN  IF ~Fixes(o, ik) THEN << << "C24.not_a_symmetry_of_k", e.refused = "NotSymmetryError" >> >>
        ELSE LET to == TLCEval(To(o, ik))
                 closed == \A i \in DOMAIN to : to[i] # 0
             IN  << << "H.closed", closed >>,
                    << "C24.symm_refused", e.refused = "" >>,
                    << "C24.permutation", e.refused = "" => Len(e.rot) = Len(to) /\ \A i \in DOMAIN to : e.rot[i] = to[i] >>,
                    << "C24.symm_matrix", e.refused = "" => Len(e.M) = nb /\ \A m, n \in 1..nb : CNear(e.M[m][n], SymmElement(o, ik, to, m, n), 150) >>,
                    << "C24.symm_diagonal", e.refused = "" => Len(e.d) = nb /\ \A n \in 1..nb : CNear(e.d[n], e.M[n][n], 5) >> >>

(* spin *)
Borders(er, thr) == << 0 >> \o SelectSeq([i \in 1..Len(er) - 1 |-> i], LAMBDA i : er[i + 1] - er[i] > thr) \o << Len(er) >>
MeanE(er, a, b) == RDiv(SumSeq([i \in 1..b - a |-> er[a + i] - er[a + 1]]), b - a) + er[a + 1]
Part(k, m, n, s, t) == CSumOver(DOMAIN k.G, LAMBDA x : CMul(CConj(k.C[m][s][x]), k.C[n][t][x]))
TimesI(z) == << -z[2], z[1] >>
\* sigma_0, sigma_x, sigma_y, sigma_z
SpinElement(k, c, m, n) ==
    CASE c = 1 -> CSumSeq([s \in 1..NS |-> Part(k, m, n, s, s)])
      [] c = 2 -> CAdd(Part(k, m, n, 1, 2), Part(k, m, n, 2, 1))
      [] c = 3 -> TimesI(CSub(Part(k, m, n, 2, 1), Part(k, m, n, 1, 2)))
      [] c = 4 -> CSub(Part(k, m, n, 1, 1), Part(k, m, n, 2, 2))
SpinClauses(e) ==
    LET k == K(e.ik)
        b == Borders(k.er, e.thr)
        same == Len(e.rows) = Len(b) - 1 /\ \A i \in DOMAIN e.rows : e.rows[i].b1 = b[i] /\ e.rows[i].b2 = b[i + 1]
        nc == IF In.spinor THEN 4 ELSE 1
    IN  << << "H.threshold", \A i \in 1..Len(k.er) - 1 : Abs(k.er[i + 1] - k.er[i] - e.thr) > 1 >>,
           << "C24.groups", same >>,
           << "C24.group_energy", same => \A i \in DOMAIN e.rows : Near(e.rows[i].E, MeanE(k.er, b[i], b[i + 1]), 2) >>,
           << "C24.components", \A i \in DOMAIN e.rows : Len(e.rows[i].M) = nc >>,
           << "C24.spin_matrix", same => \A i \in DOMAIN e.rows : \A c \in DOMAIN e.rows[i].M : LET M == e.rows[i].M[c] IN
                  Len(M) = b[i + 1] - b[i] /\ \A m, n \in DOMAIN M : CNear(M[m][n], SpinElement(k, c, b[i] + m, b[i] + n), 100) >> >>

(* overlaps *)
Rnd24(a) == (2 * a + 24) \div 48
Half(i, j) == \E c \in 1..3 : (In.k24[i][c] - In.k24[j][c]) % 24 = 12
OverlapElement(i, j, m, n) ==
    LET a == K(i)
        b == K(j)
        d == VSub(In.k24[i], In.k24[j])
        g == << Rnd24(d[1]), Rnd24(d[2]), Rnd24(d[3]) >>
        \* k_i + G_a next to k_j + G_b:  G_b = G_a + g
        at == At(b.G)
        X == { x \in DOMAIN a.G : VAdd(Vec(a.G[x]), g) \in DOMAIN at }
    IN  CSumSeq([s \in 1..NS |-> CSumOver(X, LAMBDA x : CMul(CConj(a.C[m][s][x]), b.C[n][s][at[VAdd(Vec(a.G[x]), g)]]))])
OverlapClauses(e) ==
    << << "H.half", ~Half(e.i, e.j) >>,
       << "C24.overlap", Len(e.M) = K(e.i).nb /\ \A m \in DOMAIN e.M : Len(e.M[m]) = K(e.j).nb /\ \A n \in DOMAIN e.M[m] : CNear(e.M[m][n], OverlapElement(e.i, e.j, m, n), 100) >> >>

(* equality of k points *)
Seven == 10000000
\* distance of the point from this k point modulo reciprocal vectors (10^-7)
Away(e) == LET D(c) == LET d == (e.p[c] - RDiv((In.k24[e.ik][c] % 24) * (Seven \div 8), 3)) % Seven IN Mn(d, Seven - d)
           IN  Mx(D(1), Mx(D(2), D(3)))
CloseClauses(e) ==
    << << "C24.equal_k", Away(e) <= e.prec - 2 => e.out >>,
       << "C24.other_k", Away(e) >= e.prec + 2 => ~e.out >> >>

(* mean of a function of the position *)
Gmax(G, c) == CHOOSE x \in { Abs(G[i][c]) : i \in DOMAIN G } : \A i \in DOMAIN G : Abs(G[i][c]) <= x
\* pairs << a, b >> of plane waves with G_b - G_a = v
Pairs(G, at, v) == { x \in DOMAIN G : VAdd(Vec(G[x]), v) \in DOMAIN at }
\* on the points of a grid fine enough for the states no other pair shows up
NoAlias(G, v) == LET N == [c \in 1..3 |-> 2 * Gmax(G, c) + 1]
                 IN  \A x, y \in DOMAIN G : LET d == VSub(Vec(G[y]), Vec(G[x]))
                                            IN  d # v => \E c \in 1..3 : (d[c] - v[c]) % N[c] # 0
Corr(k, at, n, v) == CSumOver(Pairs(k.G, at, v), LAMBDA x : CSumSeq([s \in 1..NS |-> CMul(CConj(k.C[n][s][x]), k.C[n][s][at[VAdd(Vec(k.G[x]), v)]])]))
\* the mean of |psi|^2 cos(2 pi v r) is Re z, of |psi|^2 sin(2 pi v r) is -Im z
Term(k, at, n, t) == LET v == << t[2], t[3], t[4] >>
                         z == Corr(k, at, n, v)
                     IN  (t[1] * (IF t[5] = 0 THEN z[1] ELSE -z[2])) \div 1000
LocClauses(e) ==
    LET k == K(e.ik)
        at == TLCEval(At(k.G))
        Ok(f) == \A i \in DOMAIN f : NoAlias(k.G, << f[i][2], f[i][3], f[i][4] >>)
    IN  << << "C24.loc_count", Len(e.out) = Len(e.f) /\ \A i \in DOMAIN e.out : Len(e.out[i]) = k.nb >>,
           << "C24.localisation", \A i \in DOMAIN e.f : Ok(e.f[i]) => \A n \in 1..k.nb :
                  Near(e.out[i][n], SumSeq([j \in DOMAIN e.f[i] |-> Term(k, at, n, e.f[i][j])]), 200) >> >>
-----------------------------------------------------------------------------
Init == run \in DOMAIN Runs /\ pos = 0 /\ ops = << >> /\ kps = << >> /\ bad = {}
Group == /\ Ev.e = "group" /\ ops' = Ev.ops /\ UNCHANGED << kps, bad >>
KPoint == /\ Ev.e = "kpoint" /\ kps' = Append(kps, pos + 1) /\ UNCHANGED ops
          /\ bad' = bad \union Failing(<< << "H.k", VNear(Ev.k, VScale(1000, In.k24[Len(kps) + 1]), 2) >>, << "C24.number_of_plane_waves", Ev.ng = Len(Ev.G) >> >>)
Result == /\ Ev.e \in {"symm", "spin", "overlap", "close", "loc"} /\ UNCHANGED << ops, kps >>
          /\ bad' = bad \union Failing(CASE Ev.e = "symm" -> SymmClauses(Ev)
                                         [] Ev.e = "spin" -> SpinClauses(Ev)
                                         [] Ev.e = "overlap" -> OverlapClauses(Ev)
                                         [] Ev.e = "close" -> CloseClauses(Ev)
                                         [] Ev.e = "loc" -> LocClauses(Ev))
Error == /\ Ev.e = "error" /\ UNCHANGED << ops, kps >>
         /\ bad' = bad \union {"C24.error_" \o Ev.type}
End == /\ Ev.e \in {"end", "summary"} /\ UNCHANGED << ops, kps, bad >>
Next == /\ pos < Len(Runs[run].ev)
        /\ pos' = pos + 1 /\ run' = run
        /\ Group \/ KPoint \/ Result \/ Error \/ End
        /\ IF pos + 1 = Len(Runs[run].ev) /\ bad' # {} THEN PrintT(<< "BAD", Runs[run].id, bad' >>) ELSE TRUE
Spec == Init /\ [][Next]_vars
TypeOK == pos >= 0
=============================================================================
