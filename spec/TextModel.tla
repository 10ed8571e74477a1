------------------------------ MODULE TextModel ------------------------------
(***************************************************************************)
(* All spellings of a small crystal in the two formats, and all accidents  *)
(* to each.  Checked: a file as written means the crystal written.  The    *)
(* spellings and accidents are the scenarios replayed into the real        *)
(* parsers; EMIT names the file they are appended to, one in MOD of them.  *)
(***************************************************************************)
EXTENDS TextFiles, TLCExt, CSV, IOUtils, Json

Shapes == { << << 2, 1 >>, 2 >>, << << 1 >>, 1 >> }          \* atoms of each species, k points
Emit == IOEnv.EMIT
Mod == atoi(IOEnv.MOD)
PMod == atoi(IOEnv.PMOD)
Seed == atoi(IOEnv.SEED)

VARIABLES form, sh, s, d, lines
vars == << form, sh, s, d, lines >>

Counts == sh[1]
NAtoms == Total(Counts)
NK == sh[2]

Init == /\ sh \in Shapes
        /\ d = << "none", "", 0 >>
        /\ \/ form = "poscar" /\ s \in PoscarSpellings /\ lines = WritePoscar(Counts, s)
           \/ form = "win" /\ s \in WinSpellings /\ lines = WriteWin(NAtoms, NK, s)

Happens == /\ d[1] = "none"
           /\ UNCHANGED << form, sh, s >>
           /\ d' \in IF form = "poscar" THEN PoscarDamages(Counts, s) ELSE WinDamages(NAtoms, NK, s)
           /\ lines' = Accident(lines, d')
           /\ lines' # lines
Next == Happens
Spec == Init /\ [][Next]_vars

Meaning == IF form = "poscar" THEN ReadPoscar(Counts, lines) ELSE ReadWin(NAtoms, NK, lines)
InOrder(n) == [i \in 1..n |-> i]

\* a file as written means the crystal written
AsWritten == d[1] = "none" =>
    /\ Meaning.st # "error" /\ Meaning.got = InOrder(NAtoms)
    /\ form = "poscar" => (Meaning.cart <=> CartesianMode(s.mode))
    /\ form = "win" => /\ Meaning.unit = s.unit
                       /\ Meaning.aunit = (CASE s.atoms = "cartang" -> "ang" [] s.atoms = "cartbohr" -> "bohr" [] OTHER -> "none")
\* no accident changes what is read without notice, except the loss of an atom's line from a block that is not counted
NoticedOrHarmless == (d[1] # "none" /\ Meaning.st # "error") =>
    \/ Meaning.got = InOrder(NAtoms)
    \/ form = "win" /\ d[1] = "drop" /\ d[2] = "atom"

\* emission: a pseudo-random selection that depends on the seed
Chosen == TLCFP(<< form, sh, s, d, Seed >>) % (IF form = "poscar" THEN PMod ELSE IF d[1] = "none" THEN Mod \div 10 ELSE Mod) = 0
Emitted == IF Emit # "" /\ Chosen THEN CSVWrite("%1$s", << ToJson([form |-> form, counts |-> Counts, nk |-> NK, s |-> s, d |-> d, lines |-> lines]) >>, Emit) ELSE TRUE
=============================================================================
