------------------------------- MODULE SymFile --------------------------------
(***************************************************************************)
(* The symmetry file (prefix.sym): written by one run, read by another.    *)
(*                                                                         *)
(*   none --found--> found --kpoint*--> --written--> written               *)
(*        --read--> read --again*--> read --end-->                         *)
(*                                                                         *)
(* found:   the operations of the crystal as the program holds them        *)
(* written: the file: Cartesian matrices and translations; the operation   *)
(*          {R|t} of the file maps a point r to R r - t                    *)
(* read:    the operations of the run that reads them from the file, its   *)
(*          operations standing in another order and in another layout     *)
(* Scales: matrices and characters 10^-5, lengths 10^-4 Angstrom,          *)
(* translations 1/24000, k points 1/24000, energies micro-eV,              *)
(* multiplicities 10^-4.                                                   *)
(***************************************************************************)
EXTENDS Num, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
VARIABLES run, pos, phase, ops, kpos, nk, bad
vars == << run, pos, phase, ops, kpos, nk, bad >>
In == Runs[run].in
Ev == Runs[run].ev[pos + 1]

\* the operations as pairs of an integer matrix and a translation
Same(o, p) == o.R = p.R /\ VNearMod(o.t, p.t, 24000, 3)
Index(o, list) == LET hits == { j \in DOMAIN list : Same(o, list[j]) } IN IF Cardinality(hits) = 1 THEN CHOOSE j \in hits : TRUE ELSE 0

\* sum over rows: v in units of the lattice vectors (scale s) -> Cartesian, 10^-4 Angstrom
Cart(L, v100000) == [c \in 1..3 |-> SumSeq([i \in 1..3 |-> MulFx(v100000[i], L[i][c])])]
Apply(Rc, a) == [c \in 1..3 |-> SumSeq([j \in 1..3 |-> MulFx(Rc[c][j], a[j])])]
Shifts == { << i, j, k >> : i, j, k \in -1..1 }

\* f: an operation of the file; o: {R|t} of the crystal in lattice units
Rotates(L, f, o) == \A i \in 1..3 : VNear(Apply(f.Rc, L[i]), Cart(L, [m \in 1..3 |-> One * o.R[m][i]]), In.tol)
Translates(L, f, o) == LET v == [i \in 1..3 |-> RDiv(25 * o.t[i], 6)]
                       IN  \E n \in Shifts : VNear(VNeg(f.t), Cart(L, [i \in 1..3 |-> v[i] + One * n[i]]), In.tol)
FileClauses(e) ==
    LET L == In.L
        n == Len(e.ops)
        who == TLCEval([j \in 1..n |-> { i \in DOMAIN ops : Rotates(L, e.ops[j], ops[i]) }])
    IN  << << "C18.count", e.n = Len(ops) /\ n = Len(ops) >>,
           << "C18.rotation", \A j \in 1..n : who[j] # {} >>,
           << "C18.translation", \A j \in 1..n : \E i \in who[j] : Translates(L, e.ops[j], ops[i]) >>,
           << "C18.each_once", \A i \in DOMAIN ops : Cardinality({ j \in 1..n : i \in who[j] /\ Translates(L, e.ops[j], ops[i]) }) = 1 >> >>

FoundClauses(e) == << << "H.lattice", \A i, j \in 1..3 : Near(e.L[i][j], In.L[i][j], 3) >>,
                      << "C18.distinct", \A o \in DOMAIN e.ops : Index(e.ops[o], e.ops) = o >> >>

ReadClauses(e) ==
    << << "C18.read_count", Len(e.ops) = Len(ops) >>,
       << "C18.read_operations", \A i \in DOMAIN ops : Index(ops[i], e.ops) # 0 >>,
       << "C18.read_crystal", e.num = In.sg /\ \A i, j \in 1..3 : Near(e.L[i][j], In.L[i][j], 3) >>,
       << "C18.read_numbering", In.labelled => \A i \in DOMAIN ops : LET j == Index(ops[i], e.ops) IN j # 0 => e.ops[j].ind = ops[i].ind >> >>

\* multiplicities << name, re, im >>; what is not listed is (nearly) zero
Mult(s, name) == LET h == { i \in DOMAIN s : s[i][1] = name } IN IF h = {} THEN CZero ELSE LET i == CHOOSE x \in h : TRUE IN << s[i][2], s[i][3] >>
SameIrreps(a, b) == \A name \in { a[i][1] : i \in DOMAIN a } \union { b[i][1] : i \in DOMAIN b } : CNear(Mult(a, name), Mult(b, name), 25)

\* the k point of the run that reads, against that of the run that wrote; ops is then the list read, In.. the first
AgainClauses(e, f, first, second) ==
    LET op1(i) == CHOOSE o \in DOMAIN first : first[o].ind = i
        op2(i) == CHOOSE o \in DOMAIN second : second[o].ind = i
        map == TLCEval([i \in DOMAIN f.lg |-> LET j == Index(first[op1(f.lg[i])], second)
                                                  hit == { m \in DOMAIN e.lg : j # 0 /\ e.lg[m] = second[j].ind }
                                              IN  IF Cardinality(hit) = 1 THEN CHOOSE m \in hit : TRUE ELSE 0])
        ok == Len(e.lg) = Len(f.lg) /\ \A i \in DOMAIN map : map[i] # 0
        S(i) == op1(f.lg[i])
    IN  << << "C18.little_group", ok >>,
           << "C18.levels", e.deg = f.deg /\ e.er = f.er >>,
           << "C18.characters", (ok /\ e.deg = f.deg) => \A l \in DOMAIN f.deg : \A i \in DOMAIN f.lg : CNear(e.ch[l][map[i]], f.ch[l][i], 3 + 3 * f.deg[l]) >>,
           \* the signs of the spinor matrices are chosen up to a homomorphism to {1,-1}: labels are compared where the choice is the same
           << "C18.irreps", (\A i \in DOMAIN first : LET j == Index(first[i], second) IN j # 0 => first[i].sign = second[j].sign) =>
                            Len(e.irr) = Len(f.irr) /\ \A l \in DOMAIN f.irr : SameIrreps(e.irr[l], f.irr[l]) >> >>

-----------------------------------------------------------------------------
Init == run \in DOMAIN Runs /\ pos = 0 /\ phase = "none" /\ ops = << >> /\ kpos = << >> /\ nk = 0 /\ bad = {}

Found == /\ Ev.e = "group" /\ phase = "none" /\ phase' = "found" /\ ops' = Ev.ops
         /\ UNCHANGED << kpos, nk >>
         /\ bad' = bad \union Failing(FoundClauses(Ev))
KPoint == /\ Ev.e = "kpoint" /\ phase = "found" /\ kpos' = Append(kpos, pos + 1)
          /\ UNCHANGED << phase, ops, nk, bad >>
Written == /\ Ev.e = "file" /\ phase \in {"found", "written"} /\ phase' = "written"
           /\ UNCHANGED << ops, kpos, nk >>
           /\ bad' = bad \union Failing(FileClauses(Ev))
Read == /\ Ev.e = "group" /\ phase \in {"written", "read"} /\ phase' = "read" /\ nk' = 0
        /\ ops' = ops /\ kpos' = kpos
        /\ bad' = bad \union Failing(ReadClauses(Ev))
LastGroup == CHOOSE p \in 1..pos : Runs[run].ev[p].e = "group" /\ \A q \in p + 1..pos : Runs[run].ev[q].e # "group"
Again == /\ Ev.e = "kpoint" /\ phase = "read" /\ nk' = nk + 1
         /\ UNCHANGED << phase, ops, kpos >>
         /\ bad' = bad \union IF nk < Len(kpos) THEN Failing(AgainClauses(Ev, Runs[run].ev[kpos[nk + 1]], ops, Runs[run].ev[LastGroup].ops)) ELSE {"C18.kpoints"}
End == /\ Ev.e = "end" /\ UNCHANGED << phase, ops, kpos, nk >>
       /\ bad' = bad \union Failing(<< << "C18.kpoints", phase = "read" /\ nk = Len(kpos) >> >>)
Error == /\ Ev.e = "error" /\ UNCHANGED << phase, ops, kpos, nk >>
         /\ bad' = bad \union { "C18.error_" \o Ev.type }

Next == /\ pos < Len(Runs[run].ev)
        /\ pos' = pos + 1 /\ run' = run
        /\ Found \/ KPoint \/ Written \/ Read \/ Again \/ End \/ Error
        /\ IF pos + 1 = Len(Runs[run].ev) /\ bad' # {} THEN PrintT(<< "BAD", Runs[run].id, bad' >>) ELSE TRUE
Spec == Init /\ [][Next]_vars
TypeOK == nk >= 0 /\ phase \in {"none", "found", "written", "read"}
=============================================================================
