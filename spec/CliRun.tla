--------------------------------- MODULE CliRun ---------------------------------
(***************************************************************************)
(* The command with the options of CliModel, and the library call they     *)
(* mean:                                                                   *)
(*    lib, cli, end        or      list*, end                              *)
(*                                                                         *)
(* lib, cli: outcome ("ok" or the type of the error), files written with   *)
(*           their contents (digests), numbers printed (Zak, centres)      *)
(* cli also: k points, first energies, bands, symmetries of the JSON file  *)
(* list:     items, how it was expanded                                    *)
(***************************************************************************)
EXTENDS Num, Cli, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
VARIABLES run, pos, lib, bad
vars == << run, pos, lib, bad >>
In == Runs[run].in
Ev == Runs[run].ev[pos + 1]
P == [o \in Options |-> IF o \in DOMAIN In.p THEN In.p[o] ELSE << "-", "-" >>]
E == Eff(P)
Names(e) == { e.files[i][1] : i \in DOMAIN e.files }
Content(e, n) == (CHOOSE i \in DOMAIN e.files : e.files[i][1] = n)
\* a file of results as the specification names it
Kind(n) == IF n = "bands-" \o In.suffix[Suffix(E)] \o ".dat" THEN "bands" ELSE IF n = In.symname THEN "sym" ELSE n
NS == In.ns
CliClauses ==
    << << "H.library", lib # << >> >>,
       << "C23.outcome", Ev.outcome = lib.outcome >>,
       << "C23.files", Ev.outcome = "ok" => { Kind(n) : n \in Names(Ev) } = Results(E) >>,
       << "C23.contents", Ev.outcome = "ok" => \A n \in Names(Ev) \cap Names(lib) : Ev.files[Content(Ev, n)][2] = lib.files[Content(lib, n)][2] >>,
       << "H.same_files", lib.outcome = "ok" => { Kind(n) : n \in Names(lib) } = Results(E) >>,
       << "C23.printed", Ev.outcome = "ok" => Ev.printed = lib.printed >> >>
    \o IF Ev.outcome # "ok" \/ On(E, "onlysym") THEN << >> ELSE
    << << "C23.kpoints", Given(E, "isymsep") \/ Ev.nk = Len(KPoints(E, In.nk)) >>,
       << "C23.bands", Ev.nb = << FromBand(E), ToBand(E, In.nb) >> >>,
       << "C23.energies", Given(E, "isymsep") \/ (Ev.nk = Len(KPoints(E, In.nk)) /\ \A i \in 1..Ev.nk : Near(Ev.e0[i], In.E[KPoints(E, In.nk)[i]][FromBand(E)] - In.ef[E["ef"]], 3)) >>,
       << "C23.symmetries", { Ev.syms[i] : i \in DOMAIN Ev.syms } = Symmetries(E, NS) >> >>

-----------------------------------------------------------------------------
Init == run \in DOMAIN Runs /\ pos = 0 /\ lib = << >> /\ bad = {}

Lib == /\ Ev.e = "lib" /\ lib' = Ev
       /\ bad' = bad \union Failing(<< << "H.effective", \A o \in DOMAIN In.eff : In.eff[o] = E[o] >>, << "H.possible", Possible(In.code, In.spinor, E) >> >>)
Command == /\ Ev.e = "cli" /\ lib' = lib
           /\ bad' = bad \union Failing(CliClauses)
List == /\ Ev.e = "list" /\ lib' = lib
        /\ bad' = bad \union Failing(<< << "C23.list", Ev.out = Expand(Ev.items) >> >>)
Error == /\ Ev.e = "error" /\ lib' = lib
         /\ bad' = bad \union {"C23.error_" \o Ev.type}
End == /\ Ev.e = "end" /\ UNCHANGED << lib, bad >>

Next == /\ pos < Len(Runs[run].ev)
        /\ pos' = pos + 1 /\ run' = run
        /\ Lib \/ Command \/ List \/ Error \/ End
        /\ IF pos + 1 = Len(Runs[run].ev) /\ bad' # {} THEN PrintT(<< "BAD", Runs[run].id, bad' >>) ELSE TRUE
Spec == Init /\ [][Next]_vars
TypeOK == pos >= 0
=============================================================================
