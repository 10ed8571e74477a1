------------------------------- MODULE UnfoldRun -------------------------------
(***************************************************************************)
(* Histories of unfolding one band structure of a supercell:               *)
(*                                                                         *)
(*   kpoint+  (unfold | refused)*  end                                     *)
(*                                                                         *)
(* kpoint: k (1/24), energies (10^-6), plane waves, coefficients           *)
(* unfold: k point, primitive k point p (1/(24 det)) displaced by dv       *)
(*         (10^-6), threshold (10^-6), rows: energy, weight, spin          *)
(*                                                                         *)
(* Every call is judged on its own (whatever was asked before); when all   *)
(* the primitive k points that fold onto a k point have been asked for,    *)
(* their weights add up to the number of states.                           *)
(***************************************************************************)
EXTENDS Unfolding, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
VARIABLES run, pos, kps, tot, bad
vars == << run, pos, kps, tot, bad >>
In == Runs[run].in
Ev == Runs[run].ev[pos + 1]
NS == IF In.spinor THEN 2 ELSE 1
KP(i) == Runs[run].ev[kps[i]]

\* groups of levels: << first, last >>
Borders(er, thr) == << 0 >> \o SelectSeq([i \in 1..Len(er) - 1 |-> i], LAMBDA i : er[i + 1] - er[i] > thr) \o << Len(er) >>
Groups(er, thr) == LET b == Borders(er, thr) IN [i \in 1..Len(b) - 1 |-> << b[i] + 1, b[i + 1] >>]
Decided(er, thr) == \A i \in 1..Len(er) - 1 : Abs(er[i + 1] - er[i] - thr) > 2

Inner(k, m, n, s, t, X) == CSumOver(X, LAMBDA x : CMul(CConj(k.C[m][s][x]), k.C[n][t][x]))
\* trace of the projection times M, over the states of a group
TrPM(P, M, g) == CSumSeq([i \in 1..g[2] - g[1] + 1 |-> CSumSeq([j \in 1..g[2] - g[1] + 1 |-> CMul(P[i][j], M[j][i])])])
Row(k, g, X) ==
    LET all == DOMAIN k.G
        n == g[2] - g[1] + 1
        Mat(Y, s, t) == [i \in 1..n |-> [j \in 1..n |-> Inner(k, g[1] + i - 1, g[1] + j - 1, s, t, Y)]]
        P == TLCEval([i \in 1..n |-> [j \in 1..n |-> CSumSeq([s \in 1..NS |-> Inner(k, g[1] + i - 1, g[1] + j - 1, s, s, X)])]])
        uu == TLCEval(Mat(all, 1, 1))
        dd == TLCEval(Mat(all, 2, 2))
        ud == TLCEval(Mat(all, 1, 2))
        du == TLCEval(Mat(all, 2, 1))
        W == CSumSeq([i \in 1..n |-> P[i][i]])
        Sx == [i \in 1..n |-> [j \in 1..n |-> CAdd(ud[i][j], du[i][j])]]
        Sy == [i \in 1..n |-> [j \in 1..n |-> LET z == CSub(ud[i][j], du[i][j]) IN << z[2], -z[1] >>]]
        Sz == [i \in 1..n |-> [j \in 1..n |-> CSub(uu[i][j], dd[i][j])]]
    IN  << W[1] >> \o (IF In.spinor THEN << TrPM(P, Sx, g)[1], TrPM(P, Sy, g)[1], TrPM(P, Sz, g)[1] >> ELSE << >>)

MeanE(k, g) == RDiv(SumSeq([i \in 1..g[2] - g[1] + 1 |-> k.er[g[1] + i - 1] - k.er[g[1]]]), g[2] - g[1] + 1) + k.er[g[1]]
\* the states of the whole k point are orthonormal (of a physical calculation)
Weight(rows) == SumSeq([i \in DOMAIN rows |-> rows[i][2]])
\* how far the point asked for is from folding (10^-6 of supercell reciprocal vectors)
Off(dv) == LET v == VM(dv, Transp(In.M)) IN Mx(Abs(v[1]), Mx(Abs(v[2]), Abs(v[3])))
MustFold == Folds(Ev.p, In.k24[Ev.ik], In.M) /\ Off(Ev.dv) <= 4
MustRefuse == IF Folds(Ev.p, In.k24[Ev.ik], In.M) THEN Off(Ev.dv) >= 40 /\ Off(Ev.dv) < 100000 ELSE Off(Ev.dv) < 1000

UnfoldClauses ==
    LET k == KP(Ev.ik)
        gs == Groups(k.er, Ev.thr)
        X == { x \in DOMAIN k.G : Belongs(k.G[x], Ev.p, In.k24[Ev.ik], In.M) }
    IN  << << "C21.refused", ~MustRefuse >>,
           << "H.thr", Decided(k.er, Ev.thr) >>,
           << "C21.rows", MustFold => Len(Ev.rows) = Len(gs) >>,
           << "C21.columns", \A i \in DOMAIN Ev.rows : Len(Ev.rows[i]) = (IF In.spinor THEN 5 ELSE 2) >> >>
        \o IF ~(MustFold /\ Len(Ev.rows) = Len(gs) /\ \A i \in DOMAIN Ev.rows : Len(Ev.rows[i]) = (IF In.spinor THEN 5 ELSE 2)) THEN << >>
           ELSE LET R == TLCEval([i \in DOMAIN gs |-> Row(k, gs[i], X)])
                IN  << << "C21.energy", \A i \in DOMAIN gs : Near(Ev.rows[i][1], MeanE(k, gs[i]), 2) >>,
                       << "C21.weight", \A i \in DOMAIN gs : Near(Ev.rows[i][2], R[i][1], 60 * (gs[i][2] - gs[i][1] + 1)) >>,
                       << "C21.spin", \A i \in DOMAIN gs : \A c \in 2..Len(R[i]) : Near(Ev.rows[i][c + 1], R[i][c], 120 * (gs[i][2] - gs[i][1] + 1)) >> >>
Key == << Ev.ik, Class(Ev.p, In.M) >>
Covered(t, ik) == { x \in DOMAIN t : x[1] = ik }
SumClauses(t) ==
    << << "C21.same_weight", Key \in DOMAIN tot => Near(tot[Key], Weight(Ev.rows), 20) >>,
       << "C21.complete", Cardinality(Covered(t, Ev.ik)) = Abs(Det(In.M)) =>
               Near(SumOver(Covered(t, Ev.ik), LAMBDA x : t[x]), KP(Ev.ik).nb * One, 60 * KP(Ev.ik).nb) >> >>

-----------------------------------------------------------------------------
Init == run \in DOMAIN Runs /\ pos = 0 /\ kps = << >> /\ tot = << >> /\ bad = {}

KPoint == /\ Ev.e = "kpoint" /\ kps' = Append(kps, pos + 1)
          /\ UNCHANGED tot
          /\ bad' = bad \union Failing(<< << "H.k", VNear(Ev.k, VScale(1000, In.k24[Len(kps) + 1]), 2) >>, << "H.nb", Len(Ev.C) = Ev.nb >>,
                                          << "C21.level_energies", Len(Ev.er) = Len(In.E[Len(kps) + 1]) /\ \A b \in DOMAIN Ev.er : Near(Ev.er[b], In.E[Len(kps) + 1][b] - In.ef6, 3) >> >>)
Unfold == /\ Ev.e = "unfold"
          /\ UNCHANGED kps
          /\ LET t == IF MustFold THEN (Key :> (IF Key \in DOMAIN tot THEN tot[Key] ELSE Weight(Ev.rows))) @@ tot ELSE tot
             IN  /\ tot' = t
                 /\ bad' = bad \union Failing(UnfoldClauses \o (IF MustFold THEN SumClauses(t) ELSE << >>))
Refused == /\ Ev.e = "refused"
           /\ UNCHANGED << kps, tot >>
           /\ bad' = bad \union Failing(<< << "C21.accepted", ~MustFold >>, << "C21.refusal", Ev.type \in {"RuntimeError", "ValueError"} >> >>)
Error == /\ Ev.e = "error" /\ UNCHANGED << kps, tot >>
         /\ bad' = bad \union {"C21.error_" \o Ev.type}
End == /\ Ev.e = "end" /\ UNCHANGED << kps, tot, bad >>

Next == /\ pos < Len(Runs[run].ev)
        /\ pos' = pos + 1 /\ run' = run
        /\ KPoint \/ Unfold \/ Refused \/ Error \/ End
        /\ IF pos + 1 = Len(Runs[run].ev) /\ bad' # {} THEN PrintT(<< "BAD", Runs[run].id, bad' >>) ELSE TRUE
Spec == Init /\ [][Next]_vars
TypeOK == Len(kps) >= 0
=============================================================================
