------------------------------- MODULE TextRun -------------------------------
(***************************************************************************)
(* Validation of runs of the real program on structure files.              *)
(*                                                                         *)
(* The input of a run is a file of TextModel (its lines), rendered with    *)
(* numbers of a crystal; what the program must have understood is          *)
(* Read*(lines).  One k-point event per k point, then the end.             *)
(* Scales: lattice 10^-5 Angstrom, positions 1/240000, k 1/24000, energies *)
(* 1 micro-eV.                                                             *)
(***************************************************************************)
EXTENDS Num, TextFiles, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
VARIABLES run, pos, nk, phase, bad
vars == << run, pos, nk, phase, bad >>
In == Runs[run].in
Ev == Runs[run].ev[pos + 1]
NAt == Total(In.counts)

Lines == Accident(IF In.form = "poscar" THEN WritePoscar(In.counts, In.s) ELSE WriteWin(NAt, In.nk, In.s), In.d)
Meaning == IF In.form = "poscar" THEN ReadPoscar(In.counts, In.lines) ELSE ReadWin(NAt, In.nk, In.lines)
Broken == Meaning.st = "error"

GroupClauses(e) ==
    LET got == Meaning.got
        same == Len(e.pos) = Len(got) /\ Len(e.typ) = Len(got)
    IN  << << "H.lines", In.lines = Lines >>,
           << "C15.malformed_file_accepted", ~Broken >>,
           << "C15.cell", \A i, j \in 1..3 : Near(10 * e.L[i][j], In.L[i][j], 12) >>,
           << "C15.atoms", same /\ \A a \in DOMAIN got : VNearMod(e.pos[a], In.pos[got[a]], 240000, 3) >>,
           << "C15.species", same /\ \A a, b \in DOMAIN got : (e.typ[a] = e.typ[b]) <=> (In.typ[got[a]] = In.typ[got[b]]) >> >>

KClauses(e) ==
    << << "C15.kpoint", nk < Len(In.ks) /\ VNear(e.k, In.ks[nk + 1].k, 3) >>,
       << "C15.bands", e.nb = In.nb /\ (nk < Len(In.ks) => \A b \in 1..In.nb : Near(e.er[b], In.ks[nk + 1].E[b], 2)) >> >>

Init == run \in DOMAIN Runs /\ pos = 0 /\ nk = 0 /\ phase = "start" /\ bad = {}

Group == Ev.e = "group" /\ phase = "start" /\ phase' = "read" /\ nk' = nk /\ bad' = bad \union Failing(GroupClauses(Ev))
KPt == Ev.e = "kpoint" /\ phase' = phase /\ nk' = nk + 1 /\ bad' = bad \union Failing(KClauses(Ev))
Error == Ev.e = "error" /\ phase' = "refused" /\ nk' = nk
         /\ bad' = bad \union Failing(<< << "H.lines", In.lines = Lines >>, << "C15.error_" \o Ev.type, Broken >> >>)
End == Ev.e = "end" /\ phase' = phase /\ nk' = nk
       /\ bad' = bad \union Failing(<< << "C15.kpoints", phase = "refused" \/ nk = Len(In.ks) >> >>)

Next == /\ pos < Len(Runs[run].ev)
        /\ pos' = pos + 1 /\ run' = run
        /\ Group \/ KPt \/ Error \/ End
        /\ IF pos + 1 = Len(Runs[run].ev) /\ bad' # {} THEN PrintT(<< "BAD", Runs[run].id, bad' >>) ELSE TRUE
Spec == Init /\ [][Next]_vars
TypeOK == nk >= 0 /\ phase \in {"start", "read", "refused"}
=============================================================================
