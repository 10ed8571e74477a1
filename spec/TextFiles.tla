------------------------------ MODULE TextFiles ------------------------------
(***************************************************************************)
(* The two text formats in which a crystal can be given: POSCAR and the    *)
(* .win file of Wannier90.                                                 *)
(*                                                                         *)
(* A file is a sequence of lines; a line is a record                       *)
(*     [k |-> kind, i |-> which one, n |-> how many numbers, w |-> word,   *)
(*      bad |-> TRUE if one of its numbers is not a number]                *)
(* which says what stands there and leaves out the digits.  Write*(crystal,*)
(* spelling) is the file an author writes; Damage is an accident that      *)
(* happens to one line; Read* is the meaning of a file: a reader which     *)
(* goes over the lines once, with a state, and ends with the atoms in the  *)
(* order of the file or with the state "error".                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Ln(k, i, n, w) == [k |-> k, i |-> i, n |-> n, w |-> w, bad |-> FALSE]

-----------------------------------------------------------------------------
(* POSCAR.  counts: number of atoms of each species *)

Scales == {"one", "factor", "volume"}
Modes == {"Direct", "d", "Cartesian", "c", "K", "kartesisch"}
Sels == {"none", "Selective dynamics", "s"}
Tails == {"none", "blank", "velocities"}
PoscarSpellings == [scale : Scales, mode : Modes, names : BOOLEAN, sel : Sels, tail : Tails]

Total(counts) == FoldSeq(LAMBDA a, b : a + b, 0, counts)
CartesianMode(w) == w \in {"Cartesian", "c", "K", "kartesisch", "C"}
DirectMode(w) == w \in {"Direct", "d", "D", "direct"}

WritePoscar(counts, s) ==
    << Ln("title", 0, 0, ""), Ln("scale", 0, 1, s.scale), Ln("vec", 1, 3, ""), Ln("vec", 2, 3, ""), Ln("vec", 3, 3, "") >> \o
    (IF s.names THEN << Ln("names", 0, 0, "") >> ELSE << >>) \o
    << Ln("counts", 0, Len(counts), "") >> \o
    (IF s.sel # "none" THEN << Ln("sel", 0, 0, s.sel) >> ELSE << >>) \o
    << Ln("mode", 0, 0, s.mode) >> \o
    [a \in 1..Total(counts) |-> Ln("pos", a, 3, "")] \o
    (CASE s.tail = "none" -> << >>
       [] s.tail = "blank" -> << Ln("blank", 0, 0, "") >>
       [] s.tail = "velocities" -> << Ln("blank", 0, 0, "") >> \o [a \in 1..Total(counts) |-> Ln("velocity", a, 3, "")])

\* reader: st is where it stands, got the atoms read
PoscarStart == [st |-> "title", got |-> << >>, cart |-> FALSE]
PoscarStep(total, r, l) ==
    LET go(s) == [r EXCEPT !.st = s]
        vec == l.k \in {"vec", "pos", "velocity"} /\ l.n = 3 /\ ~l.bad
        ints == l.k = "counts" /\ ~l.bad
    IN  CASE r.st = "title" -> go("scale")
          [] r.st = "scale" -> IF l.k = "scale" /\ ~l.bad THEN go("vec1") ELSE go("error")
          [] r.st = "vec1" -> IF vec THEN go("vec2") ELSE go("error")
          [] r.st = "vec2" -> IF vec THEN go("vec3") ELSE go("error")
          [] r.st = "vec3" -> IF vec THEN go("species") ELSE go("error")
          [] r.st = "species" -> IF ints THEN go("coord") ELSE go("counts")     \* a line of names
          [] r.st = "counts" -> IF ints THEN go("coord") ELSE go("error")
          [] r.st = "coord" -> IF l.k = "sel" THEN go("mode")
                               ELSE IF l.k = "mode" /\ DirectMode(l.w) THEN go("pos")
                               ELSE IF l.k = "mode" /\ CartesianMode(l.w) THEN [go("pos") EXCEPT !.cart = TRUE] ELSE go("error")
          [] r.st = "mode" -> IF l.k = "mode" /\ DirectMode(l.w) THEN go("pos")
                              ELSE IF l.k = "mode" /\ CartesianMode(l.w) THEN [go("pos") EXCEPT !.cart = TRUE] ELSE go("error")
          [] r.st = "pos" -> IF Len(r.got) = total \/ l.k = "blank" THEN r        \* the rest is not read
                             ELSE IF vec THEN [r EXCEPT !.got = Append(@, l.i)] ELSE go("error")
          [] OTHER -> r
ReadPoscar(counts, lines) ==
    LET r == FoldLeft(LAMBDA a, l : PoscarStep(Total(counts), a, l), PoscarStart, lines)
    IN  IF r.st = "pos" /\ Len(r.got) = Total(counts) THEN r ELSE [r EXCEPT !.st = "error"]

\* accidents: to which lines of which spelling each can happen so that the meaning is beyond doubt
PoscarDamages(counts, s) ==
    { << "drop", k, i >> : k \in {"scale", "mode", "counts", "title"}, i \in {0} } \union
    { << "drop", "vec", i >> : i \in 1..3 } \union
    (IF s.tail = "velocities" THEN {} ELSE { << "drop", "pos", i >> : i \in 1..Total(counts) }) \union
    { << "drop", "blank", 0 >>, << "drop", "names", 0 >>, << "drop", "sel", 0 >> } \union
    { << "garbage", k, 0 >> : k \in {"scale", "counts"} } \union
    { << op, "vec", i >> : op \in {"garbage", "short", "single"}, i \in 1..3 } \union
    { << op, "pos", i >> : op \in {"garbage", "short", "single"}, i \in 1..Total(counts) } \union
    { << "word", "mode", 0 >> }

-----------------------------------------------------------------------------
(* .win.  natoms, nk: numbers of atoms and of k points *)

Units == {"none", "ang", "bohr"}
AtomBlocks == {"frac", "cart", "cartang", "cartbohr"}
Seps == {"=", ":", " ", "tight"}
Comments == {"none", "line", "inline"}
Cases == {"lower", "mixed", "upper"}
Parts == {"head", "cell", "atoms", "kpts"}
Orders == { o \in [1..4 -> Parts] : { o[i] : i \in 1..4 } = Parts }
\* what bears on the lines; the separator between a key and its value and the case of the letters are free (Seps, Cases)
WinSpellings == [unit : Units, atoms : AtomBlocks, order : Orders, comments : Comments, extra : BOOLEAN, fermi : BOOLEAN]

BlockName(s) == IF s.atoms = "frac" THEN "atoms_frac" ELSE "atoms_cart"
HeadPart(s) == << Ln("key", 0, 1, "num_bands"), Ln("key", 0, 1, "spinors"), Ln("key", 0, 3, "mp_grid") >> \o
           (IF s.fermi THEN << Ln("key", 0, 1, "fermi_energy") >> ELSE << >>)
CellPart(s) == << Ln("begin", 0, 0, "unit_cell_cart") >> \o (IF s.unit = "none" THEN << >> ELSE << Ln("unit", 0, 0, s.unit) >>) \o
           [i \in 1..3 |-> Ln("vec", i, 3, "")] \o << Ln("end", 0, 0, "unit_cell_cart") >>
AtomsPart(natoms, s) == << Ln("begin", 0, 0, BlockName(s)) >> \o
           (CASE s.atoms = "cartang" -> << Ln("unit", 0, 0, "ang") >> [] s.atoms = "cartbohr" -> << Ln("unit", 0, 0, "bohr") >> [] OTHER -> << >>) \o
           [i \in 1..natoms |-> Ln("atom", i, 3, "")] \o << Ln("end", 0, 0, BlockName(s)) >>
KptsPart(nk) == << Ln("begin", 0, 0, "kpoints") >> \o [i \in 1..nk |-> Ln("kpt", i, 3, "")] \o << Ln("end", 0, 0, "kpoints") >>
ExtraPart == << Ln("begin", 0, 0, "projections"), Ln("other", 0, 0, ""), Ln("end", 0, 0, "projections"), Ln("key", 0, 1, "num_wann") >>

WriteWin(natoms, nk, s) ==
    LET part(p) == CASE p = "head" -> HeadPart(s) [] p = "cell" -> CellPart(s) [] p = "atoms" -> AtomsPart(natoms, s) [] p = "kpts" -> KptsPart(nk)
    IN  (IF s.comments = "none" THEN << >> ELSE << Ln("comment", 0, 0, "") >>) \o
        part(s.order[1]) \o << Ln("blank", 0, 0, "") >> \o part(s.order[2]) \o
        (IF s.extra THEN ExtraPart ELSE << >>) \o
        (IF s.comments = "none" THEN << >> ELSE << Ln("comment", 0, 0, "") >>) \o
        part(s.order[3]) \o << Ln("blank", 0, 0, "") >> \o part(s.order[4])

\* reader: inb the block it is in ("" outside), done the blocks closed, need what must come next
WinStart == [st |-> "ok", inb |-> "", cnt |-> 0, done |-> {}, got |-> << >>, keys |-> << >>, unit |-> "none", aunit |-> "none"]
WinStep(natoms, nk, r, l) ==
    LET err == [r EXCEPT !.st = "error"]
        isatoms(b) == b \in {"atoms_frac", "atoms_cart"}
        Kind(b) == IF isatoms(b) THEN "atoms" ELSE b
        num == l.n = 3 /\ ~l.bad
        named(m) == l.k = m                     \* a line of this kind
    IN  CASE r.st = "error" \/ l.k \in {"comment", "blank"} -> r
          [] r.inb = "" ->
               (CASE l.k = "begin" /\ (Kind(l.w) \in r.done) -> err
                  [] l.k = "begin" -> [r EXCEPT !.inb = l.w, !.cnt = 0]
                  [] l.k = "key" -> IF l.bad THEN err ELSE [r EXCEPT !.keys = Append(@, l.w)]
                  [] OTHER -> r)                \* lines outside the blocks mean nothing
          [] r.inb = "unit_cell_cart" ->
               (CASE l.k = "unit" /\ r.cnt = 0 -> [r EXCEPT !.unit = l.w]
                  [] r.cnt < 3 /\ l.k \in {"vec", "kpt"} /\ num -> [r EXCEPT !.cnt = @ + 1]
                  [] r.cnt = 3 /\ l.k = "end" /\ l.w = r.inb -> [r EXCEPT !.inb = "", !.done = @ \union {r.inb}]
                  [] OTHER -> err)
          [] r.inb = "kpoints" ->
               (CASE r.cnt < nk /\ l.k \in {"vec", "kpt"} /\ num -> [r EXCEPT !.cnt = @ + 1]
                  [] r.cnt = nk /\ l.k = "end" /\ l.w = r.inb -> [r EXCEPT !.inb = "", !.done = @ \union {r.inb}]
                  [] OTHER -> err)
          [] isatoms(r.inb) ->
               (CASE l.k = "unit" /\ r.inb = "atoms_cart" -> [r EXCEPT !.aunit = l.w]
                  [] l.k = "atom" /\ num -> [r EXCEPT !.got = Append(@, l.i)]
                  [] l.k = "end" /\ l.w = r.inb -> [r EXCEPT !.inb = "", !.done = @ \union {"atoms"}]
                  [] OTHER -> err)
          [] OTHER ->                           \* a block without meaning here
               IF l.k = "end" THEN [r EXCEPT !.inb = ""] ELSE r
ReadWin(natoms, nk, lines) ==
    LET r == FoldLeft(LAMBDA a, l : WinStep(natoms, nk, a, l), WinStart, lines)
        times(w) == Cardinality({ j \in DOMAIN r.keys : r.keys[j] = w })
    IN  IF /\ r.st = "ok" /\ r.inb = ""
           /\ {"unit_cell_cart", "kpoints", "atoms"} \subseteq r.done
           /\ times("num_bands") = 1 /\ times("spinors") = 1 /\ times("mp_grid") = 1 /\ times("fermi_energy") <= 1
           /\ Len(r.got) > 0
        THEN r ELSE [r EXCEPT !.st = "error"]

WinDamages(natoms, nk, s) ==
    { << "drop", "vec", i >> : i \in 1..3 } \union { << "drop", "kpt", i >> : i \in 1..nk } \union
    { << "drop", "atom", i >> : i \in 1..natoms } \union
    { << op, w, 0 >> : op \in {"dropkey", "twice", "garbage"}, w \in {"num_bands", "spinors", "mp_grid"} } \union
    (IF s.fermi THEN { << "dropkey", "fermi_energy", 0 >> } ELSE {}) \union
    { << op, "vec", i >> : op \in {"garbage", "short", "single"}, i \in 1..3 } \union
    { << op, "kpt", i >> : op \in {"garbage", "short", "single"}, i \in 1..nk } \union
    { << op, "atom", i >> : op \in {"garbage", "short", "single"}, i \in 1..natoms } \union
    { << op, w, 0 >> : op \in {"dropbegin", "dropend", "wrongend", "dropblock", "twiceblock"}, w \in {"unit_cell_cart", BlockName(s), "kpoints"} } \union
    { << "dropcomments", "", 0 >>, << "badblock", BlockName(s), 0 >> }

-----------------------------------------------------------------------------
(* what the accident does to the lines *)

Hit(l, d) == l.k = d[2] /\ l.i = d[3]
Accident(lines, d) ==
    LET op == d[1]
        map(F(_)) == [j \in DOMAIN lines |-> F(lines[j])]
        BlockOf(b) == LET from == CHOOSE j \in DOMAIN lines : lines[j].k = "begin" /\ lines[j].w = b
                          to == CHOOSE j \in DOMAIN lines : lines[j].k = "end" /\ lines[j].w = b
                      IN  << from, to >>
        key(l) == l.k = "key" /\ l.w = d[2]
    IN  CASE op = "none" -> lines
          [] op = "drop" -> SelectSeq(lines, LAMBDA l : ~Hit(l, d))
          [] op = "garbage" -> map(LAMBDA l : IF Hit(l, d) \/ key(l) THEN [l EXCEPT !.bad = TRUE] ELSE l)
          [] op = "short" -> map(LAMBDA l : IF Hit(l, d) THEN [l EXCEPT !.n = @ - 1] ELSE l)
          [] op = "single" -> map(LAMBDA l : IF Hit(l, d) THEN [l EXCEPT !.n = 1] ELSE l)
          [] op = "word" -> map(LAMBDA l : IF Hit(l, d) THEN [l EXCEPT !.w = "Fractional"] ELSE l)
          [] op = "dropkey" -> SelectSeq(lines, LAMBDA l : ~key(l))
          [] op = "twice" -> lines \o SelectSeq(lines, key)
          [] op = "dropbegin" -> SelectSeq(lines, LAMBDA l : ~(l.k = "begin" /\ l.w = d[2]))
          [] op = "dropend" -> SelectSeq(lines, LAMBDA l : ~(l.k = "end" /\ l.w = d[2]))
          [] op = "wrongend" -> map(LAMBDA l : IF l.k = "end" /\ l.w = d[2] THEN [l EXCEPT !.w = "projections"] ELSE l)
          [] op = "dropblock" -> SubSeq(lines, 1, BlockOf(d[2])[1] - 1) \o SubSeq(lines, BlockOf(d[2])[2] + 1, Len(lines))
          [] op = "twiceblock" -> lines \o SubSeq(lines, BlockOf(d[2])[1], BlockOf(d[2])[2])
          [] op = "badblock" -> map(LAMBDA l : IF l.k \in {"begin", "end"} /\ l.w = d[2] THEN [l EXCEPT !.w = "atoms_foo"] ELSE l)
          [] op = "dropcomments" -> SelectSeq(lines, LAMBDA l : l.k # "comment")
=============================================================================
