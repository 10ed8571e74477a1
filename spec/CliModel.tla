-------------------------------- MODULE CliModel --------------------------------
(***************************************************************************)
(* Up to Depth options are placed on the command line, in the file or in   *)
(* both.  Checked: the meaning of an option depends on its own placement   *)
(* only; where it is given does not matter; the file counts.  The          *)
(* placements are the scenarios replayed into the command.                 *)
(***************************************************************************)
EXTENDS Cli, TLC, TLCExt, CSV, IOUtils, Json

Emit == IOEnv.EMIT
Mod1 == atoi(IOEnv.MOD1)
Mod == atoi(IOEnv.MOD)
Seed == atoi(IOEnv.SEED)
ModR == atoi(IOEnv.MODR)
Depth == atoi(IOEnv.DEPTH)

VARIABLES code, spinor, p, changed
vars == << code, spinor, p, changed >>

Init == code \in Codes /\ spinor \in BOOLEAN /\ p = Base(code, spinor) /\ changed = {}
\* options in an order, so that each combination is reached once
Order == << "code", "fwav", "fpos", "fwfk", "prefix", "ecut", "ibstart", "ibend", "kpoints", "kpnames", "refuc", "shiftuc", "isymsep", "alat", "from_sym_file", "ef", "degenthresh",
            "symmetries", "suffix", "trans_thresh", "v", "spinor", "searchcell", "onlysym", "writesym", "plotbands", "zak", "wcc", "groupkramers" >>
Num(o) == CHOOSE i \in DOMAIN Order : Order[i] = o
\* options that act on the same thing: combined more deeply, and more of them are replayed
Together == { {"writesym", "alat", "prefix"}, {"isymsep", "degenthresh", "groupkramers"}, {"refuc", "shiftuc", "kpnames", "searchcell"}, {"ibstart", "ibend", "kpoints"},
              {"from_sym_file", "alat", "trans_thresh"}, {"plotbands", "suffix", "ef", "degenthresh"}, {"zak", "wcc", "ibend", "spinor"}, {"onlysym", "writesym", "prefix", "from_sym_file"} }
Related(c) == Cardinality(c) > 1 /\ \E t \in Together : c \subseteq t
Place == /\ Cardinality(changed) < Depth \/ (Cardinality(changed) = Depth /\ Related(changed))
         /\ \E o \in Options : /\ \A c \in changed : Num(c) < Num(o)
                               /\ \E x \in Placements(o) : /\ x # p[o]
                                                           /\ p' = [p EXCEPT ![o] = x]
                               /\ changed' = changed \union {o}
                               /\ Cardinality(changed') <= Depth \/ Related(changed')
         /\ UNCHANGED << code, spinor >>
Spec == Init /\ [][Place]_vars

AllOptions == { Order[i] : i \in DOMAIN Order } = Options
FileCounts == \A o \in Options : p[o][2] # "-" => Eff(p)[o] = p[o][2]
CommandCounts == \A o \in Options : p[o][2] = "-" /\ p[o][1] # "-" => Eff(p)[o] = p[o][1]
\* moved from the command line into the file, everything means the same
AnyPlace == LET q == [o \in Options |-> IF p[o][2] = "-" THEN << "-", p[o][1] >> ELSE p[o]] IN Eff(q) = Eff(p)
OnlyItself == [][\A o \in Options : p[o] = p'[o] => Eff(p)[o] = Eff(p')[o]]_vars
LabelsNeedTheCell == Given(Eff(p), "kpnames") => SearchCell(Eff(p))
NoResultsWithoutCalculation == On(Eff(p), "onlysym") => Results(Eff(p)) \subseteq {"sym"}

Chosen == /\ Possible(code, spinor, Eff(p))
          /\ TLCFP(<< code, spinor, p, Seed >>) % (IF Cardinality(changed) <= 1 THEN Mod1 ELSE IF Related(changed) THEN (IF Cardinality(changed) <= 2 THEN ModR ELSE 2 * Mod) ELSE Mod) = 0
Emitted == IF Emit # "" /\ Chosen THEN CSVWrite("%1$s", << ToJson([code |-> code, spinor |-> spinor, n |-> Cardinality(changed), p |-> [o \in changed \union {x \in Options : p[x] # << "-", "-" >>} |-> p[o]]]) >>, Emit) ELSE TRUE
=============================================================================
