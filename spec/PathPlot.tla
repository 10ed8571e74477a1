-------------------------------- MODULE PathPlot --------------------------------
(***************************************************************************)
(* The coordinate along the path of k points and the file for band plots.  *)
(*                                                                         *)
(*   kpoint+  ( line | plot | doc | subs )*  end                           *)
(*                                                                         *)
(* kpoint: k (1/N)                                                         *)
(* line:   k points asked for (none: those of the band structure), matrix  *)
(*         of the supercell (or 1), break threshold, coordinates           *)
(* plot:   blocks of the file, one per band: << coordinate, energy >>      *)
(* doc:    coordinates of the JSON file                                    *)
(* subs:   energies of the subspaces (k by k, band by band), and files     *)
(*                                                                         *)
(* Lengths are in units of 1/(1000 N) of the unit of the integer metric    *)
(* In.gstar, so that a step dk has the length 1000 sqrt(dk.gstar.dk);      *)
(* energies in 10^-6.                                                      *)
(***************************************************************************)
EXTENDS Levels, Num, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
VARIABLES run, pos, nk, line, bad
vars == << run, pos, nk, line, bad >>
In == Runs[run].in
Ev == Runs[run].ev[pos + 1]
\* the k points selected
Sel == SelectK(In.allk, In.klist, Len(In.k))
NK == Len(Sel)
Metric(v) == LET w == VM(v, In.gstar) IN Dot(w, v)
\* d is the length of a step with squared length Q
IsRoot(d, Q) == IF Q <= 2000 THEN Abs(d * d - 1000000 * Q) <= 4 * d + 40
                ELSE IF Q <= 200000 THEN LET e == RDiv(d, 10) IN Abs(e * e - 10000 * Q) <= 6 * e + 40
                ELSE LET e == RDiv(d, 100) IN e < 40000 /\ Abs(e * e - 100 * Q) <= 6 * e + 40
\* a length t (in the same units) is below / above the root of Q
Above(t, Q) == LET e == t \div 10 IN e >= 46000 \/ (Q < 214000 /\ e * e > 10000 * Q)
Undecided(t, Q) == LET e == t \div 10 IN IF e >= 46000 THEN Q > 200000 ELSE Q < 214000 /\ Abs(e * e - 10000 * Q) <= 8 * e + 50
Step(ks, M, i) == Metric(VM(VSub(ks[i + 1], ks[i]), Transp(M)))

LineClauses(ks, M, thr, c) ==
    << << "C22.number_of_coordinates", Len(c) = Len(ks) >>,
       << "C22.starts_at_zero", Len(c) > 0 => c[1] = 0 >>,
       << "H.decided", \A i \in 1..Len(ks) - 1 : ~Undecided(thr, Step(ks, M, i)) >> >>
    \o IF Len(c) # Len(ks) THEN << >> ELSE
    << << "C22.step", \A i \in 1..Len(ks) - 1 : LET Q == Step(ks, M, i) IN Above(thr, Q) => IsRoot(c[i + 1] - c[i], Q) >>,
       << "C22.break", \A i \in 1..Len(ks) - 1 : ~Above(thr, Step(ks, M, i)) => Abs(c[i + 1] - c[i]) <= 1 >> >>

\* energies of the bands of the k-th point: means of the levels
Window(k) == SubSeq(In.E[k], FirstBand(In.ibs), LastBand(In.ibe, Len(In.E[k])))
BandE(i) == LET E == Window(Sel[i])
                b == Borders(E, In.thr)
                m == Means(E, In.thr)
                Level(n) == CHOOSE l \in 1..Len(m) : b[l] <= n /\ n < b[l + 1]
            IN  [n \in DOMAIN E |-> m[Level(n)] - In.ef6]
BlockClauses(blocks, nb, En(_, _)) ==
    << << "C22.number_of_blocks", Len(blocks) = nb >>,
       << "C22.lines_per_block", \A b \in DOMAIN blocks : Len(blocks[b]) = NK >>,
       << "C22.plot_coordinate", \A b \in DOMAIN blocks : \A i \in DOMAIN blocks[b] : i <= Len(line) => Near(blocks[b][i][1], line[i], In.ktol) >>,
       << "C22.plot_energy", Len(blocks) = nb => \A b \in DOMAIN blocks : \A i \in DOMAIN blocks[b] : i <= NK => Near(blocks[b][i][2], En(i, b), 60) >> >>

Fits(file, sub) == \A b \in DOMAIN sub[1] : \A i \in 1..NK : Near(file[b][i][2], sub[i][b], 60)
SubClauses ==
    << << "C22.number_of_files", Len(Ev.files) = Len(Ev.subs) >>,
       << "C22.file_names", \A f \in DOMAIN Ev.files : Ev.files[f].name = TRUE >> >>
    \o IF \E f \in DOMAIN Ev.files : \E b \in DOMAIN Ev.files[f].blocks : Len(Ev.files[f].blocks[b]) # NK THEN << << "C22.lines_per_block", FALSE >> >>
       ELSE << << "C22.every_subspace", \A s \in DOMAIN Ev.subs : \E f \in DOMAIN Ev.files : Len(Ev.files[f].blocks) = Len(Ev.subs[s][1]) /\ Fits(Ev.files[f].blocks, Ev.subs[s]) >>,
               << "C22.every_file", \A f \in DOMAIN Ev.files : \E s \in DOMAIN Ev.subs : Len(Ev.files[f].blocks) = Len(Ev.subs[s][1]) /\ Fits(Ev.files[f].blocks, Ev.subs[s]) >>,
               << "C22.plot_coordinate", \A f \in DOMAIN Ev.files : \A b \in DOMAIN Ev.files[f].blocks : \A i \in 1..NK : Near(Ev.files[f].blocks[b][i][1], line[i], In.ktol) >> >>

-----------------------------------------------------------------------------
Init == run \in DOMAIN Runs /\ pos = 0 /\ nk = 0 /\ line = << >> /\ bad = {}

KPoint == /\ Ev.e = "kpoint" /\ nk' = nk + 1 /\ line' = line
          /\ bad' = bad \union Failing(<< << "H.k", nk < NK /\ VNear(Ev.k, VScale(10, In.k[Sel[nk + 1]]), 1) >> >>)
\* the coordinates of the path, without any argument, are the ones of the files
Line == /\ Ev.e = "line" /\ nk' = nk
        /\ line' = IF Ev.default THEN Ev.c ELSE line
        /\ bad' = bad \union Failing(<< << "H.kpoints", nk = NK >> >> \o LineClauses(Ev.ks, Ev.M, Ev.thr, Ev.c))
Plot == /\ Ev.e = "plot" /\ UNCHANGED << nk, line >>
        /\ bad' = bad \union Failing(<< << "H.line", Len(line) = NK >>, << "C22.header", Ev.head >>, << "C22.file_names", Ev.name >> >>
                                     \o BlockClauses(Ev.blocks, Len(Window(1)), LAMBDA i, b : BandE(i)[b]))
Doc == /\ Ev.e = "doc" /\ UNCHANGED << nk, line >>
       /\ bad' = bad \union Failing(<< << "C22.json", Len(Ev.c) = NK /\ \A i \in DOMAIN Ev.c : Near(Ev.c[i], line[i], 1) >>,
                                       << "C22.json_per_k", Len(Ev.ck) = NK /\ \A i \in DOMAIN Ev.ck : Near(Ev.ck[i], line[i], 1) >> >>)
Subs == /\ Ev.e = "subs" /\ UNCHANGED << nk, line >>
        /\ bad' = bad \union Failing(SubClauses)
Error == /\ Ev.e = "error" /\ UNCHANGED << nk, line >>
         /\ bad' = bad \union {"C22.error_" \o Ev.type}
End == /\ Ev.e = "end" /\ UNCHANGED << nk, line, bad >>

Next == /\ pos < Len(Runs[run].ev)
        /\ pos' = pos + 1 /\ run' = run
        /\ KPoint \/ Line \/ Plot \/ Doc \/ Subs \/ Error \/ End
        /\ IF pos + 1 = Len(Runs[run].ev) /\ bad' # {} THEN PrintT(<< "BAD", Runs[run].id, bad' >>) ELSE TRUE
Spec == Init /\ [][Next]_vars
TypeOK == nk >= 0
=============================================================================
