------------------------------- MODULE InputRun -------------------------------
(***************************************************************************)
(* Runs of the real program on requests of InputModel.                     *)
(*   error (refused) | kpoint* ; then end, with the result files present   *)
(* Scales: energies 1 micro-eV, k points 1/24000.                          *)
(***************************************************************************)
EXTENDS Num, Inputs, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
VARIABLES run, pos, nk, refused, bad
vars == << run, pos, nk, refused, bad >>
In == Runs[run].in
R == In.r
Ev == Runs[run].ev[pos + 1]

Ks == IF Channel(R.arg) = "dw" THEN In.dw ELSE In.ks
NB == IF Channel(R.arg) = "dw" THEN In.nbdw ELSE In.nb
Sel == SubSeq(Ks[nk + 1].E, From(R), To(R, NB))

Init == run \in DOMAIN Runs /\ pos = 0 /\ nk = 0 /\ refused = FALSE /\ bad = {}

Error == /\ Ev.e = "error" /\ refused' = TRUE /\ nk' = nk
         /\ bad' = bad \union Failing(<< << "C16.refused_" \o Ev.type, ~Valid(R) >> >>)
KPt == /\ Ev.e = "kpoint" /\ nk' = nk + 1 /\ refused' = refused
       /\ bad' = bad \union Failing(<< << "C16.kpoints", nk < Len(Ks) >>,
               << "C16.k", nk < Len(Ks) => VNear(Ev.k, Ks[nk + 1].k, 3) >>,
               << "C16.bands", nk < Len(Ks) => /\ Len(Ev.er) = Len(Sel)
                                               /\ \A b \in DOMAIN Sel : Near(Ev.er[b], Sel[b] - In.efsub, 3) >> >>)
End == /\ Ev.e = "end" /\ UNCHANGED << nk, refused >>
       /\ bad' = bad \union Failing(<< << "C16.accepted", refused \/ Valid(R) >>,
               << "C16.kpoints", refused \/ nk = Len(Ks) >>,
               << "C16.result_written", refused => Ev.files = << >> >>,
               << "H.results_written", (~refused /\ In.cli) => Len(Ev.files) >= 2 >> >>)
Next == /\ pos < Len(Runs[run].ev)
        /\ pos' = pos + 1 /\ run' = run
        /\ Error \/ KPt \/ End
        /\ IF pos + 1 = Len(Runs[run].ev) /\ bad' # {} THEN PrintT(<< "BAD", Runs[run].id, bad' >>) ELSE TRUE
Spec == Init /\ [][Next]_vars
TypeOK == nk >= 0
=============================================================================
