------------------------------ MODULE Outputs ------------------------------
(***************************************************************************)
(* What the command leaves behind.                                         *)
(*                                                                         *)
(*   computing --group--> computing --kpoint*--> computing --summary-->    *)
(*   computed --document*--> computed                                      *)
(*                                                                         *)
(* A run of the command first computes (events group, kpoint, summary: the *)
(* band structure object behind the run), then writes documents.  Every    *)
(* document is a view of the computed state, in a format of limited        *)
(* precision; the clauses state, per document, which view.  `written' is   *)
(* the set of documents so far; at the end it must be the complete set.    *)
(*                                                                         *)
(* Scales: energies 1 micro-eV, characters and axes 10^-5, translations    *)
(* and k points 1/24000, positions 1/24000 (computed: 1/240000), refUC     *)
(* 10^-4, lattice 10^-4 Angstrom, multiplicities 10^-4.                    *)
(***************************************************************************)
EXTENDS Num, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
Focus == IOEnv.FOCUS
Is(p) == Focus = p
BIG == 2000000000

VARIABLES run, pos, phase, gpos, kpos, written, bad
vars == << run, pos, phase, gpos, kpos, written, bad >>

In == Runs[run].in
Ev == Runs[run].ev[pos + 1]
G == Runs[run].ev[gpos]
NK == Len(kpos)
K(i) == Runs[run].ev[kpos[i]]
Spin == In.spinor

-----------------------------------------------------------------------------
(* views of the computed state *)

\* fixed-point linear algebra; refUC has scale 10^4
RefMV(M, v) == [i \in 1..3 |-> SumSeq([j \in 1..3 |-> MulFx(10 * M[i][j], v[j])])]
RefTMV(M, v) == [i \in 1..3 |-> SumSeq([j \in 1..3 |-> MulFx(10 * M[j][i], v[j])])]
SizeRef(M) == SumSeq([i \in 1..3 |-> SumSeq([j \in 1..3 |-> Abs(M[i][j])])]) \div 10000 + 1
Coincide(g) == /\ \A i, j \in 1..3 : g.ref[i][j] = (IF i = j THEN 10000 ELSE 0)
               /\ g.shift = << 0, 0, 0 >>
Transposed(M) == [i \in 1..3 |-> [j \in 1..3 |-> M[j][i]]]
MNear(A, B, tol) == \A i, j \in 1..3 : Near(A[i][j], B[i][j], tol)

\* U A = B U for the integer matrices A, B and U of scale 10^4
Conjugate(U, A, B) == MNear([i \in 1..3 |-> [j \in 1..3 |-> SumSeq([m \in 1..3 |-> U[i][m] * A[m][j]])]],
                            [i \in 1..3 |-> [j \in 1..3 |-> SumSeq([m \in 1..3 |-> B[i][m] * U[m][j]])]], 30)
\* U tref = t - s + R s, everything 1/24000
RefTranslation(g, o, tref, tol, modulo) ==
    LET want == VAdd(o.t, VSub(MV(o.R, g.shift), g.shift))
        have == RefMV(g.ref, tref)
    IN  IF modulo THEN \A i \in 1..3 : NearMod(have[i], want[i], 24000, tol) ELSE VNear(have, want, tol)

\* the matrix printed as gk: action on k, inverse transpose
GkOf(R) == Transp(InvU(R))

\* levels at k point i, as << energy, degeneracy >>
Lev(i) == [l \in DOMAIN K(i).deg |-> l]
First(i, l) == 1 + SumSeq([m \in 1..(l - 1) |-> K(i).deg[m]])
HasIrr(i) == "irr" \in DOMAIN K(i)
CharNear(a, b, tol) == Len(a) = Len(b) /\ \A j \in DOMAIN a : CNear(a[j], b[j], tol)
SeqNear(a, b, tol) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Near(a[j], b[j], tol)
IrrNear(a, b, tol) == Len(a) = Len(b) /\ \A j \in DOMAIN a : a[j][1] = b[j][1] /\ Near(a[j][2], b[j][2], tol) /\ Near(a[j][3], b[j][3], tol)
Real(ch, tol) == \A l \in DOMAIN ch : \A j \in DOMAIN ch[l] : Abs(ch[l][j][2]) <= tol

\* totals
OddAt(i) == IF K(i).ninv = -1 THEN 0 ELSE K(i).ninv
Odd == SumSeq([i \in 1..NK |-> OddAt(i)])
Counted(n) == IF Spin THEN n \div 2 ELSE n
Top(i) == K(i).em[Len(K(i).em)]
GapAt(i) == IF K(i).up = BIG THEN BIG ELSE K(i).up - Top(i)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
GapDir == MinOf({ GapAt(i) : i \in 1..NK })
MinUp == MinOf({ K(i).up : i \in 1..NK })
GapInd == IF MinUp = BIG THEN BIG ELSE MinUp - MaxOf({ Top(i) : i \in 1..NK })

\* labels in the output of k point i
Labelled == In.haslabels

-----------------------------------------------------------------------------
(* documents *)

\* ops reported: the ones selected, in the order of the group
Selected == IF In.symsel = << >> THEN G.ops
            ELSE SelectSeq(G.ops, LAMBDA o : o.ind \in ToSet(In.symsel))

SymOp(d, o) ==
    /\ d.ind = o.ind /\ d.R = o.R /\ d.inv = o.inv
    /\ \A j \in 1..3 : NearMod(d.t[j], o.t[j], 24000, 3)
SymAxis(d, o) == VNear(d.ax, o.ax, 1) /\ d.angs = o.angs

SymReport(d) ==
    << << "C17.sym.lattice", MNear(d.L, G.L, 1) >>,
       << "C17.sym.lattice_reference", LET U == Transposed(G.ref)
             IN \A i, j \in 1..3 : Near(d.Lref[i][j], SumSeq([m \in 1..3 |-> MulFx(10 * U[i][m], G.L[m][j])]), 2 + SizeRef(G.ref)) >>,
       << "C17.sym.atoms", d.typ = G.typ /\ Len(d.pos) = Len(G.pos) /\ Len(d.posref) = Len(G.pos)
             /\ \A i \in DOMAIN d.pos : \A j \in 1..3 : Near(10 * d.pos[i][j], G.pos[i][j], 20) >>,
       << "C17.sym.atoms_reference", (Len(d.posref) = Len(G.pos)) => \A i \in DOMAIN d.posref :
             VNear(RefMV(G.ref, d.posref[i]), VSub(<< RDiv(G.pos[i][1], 10), RDiv(G.pos[i][2], 10), RDiv(G.pos[i][3], 10) >>, G.shift), 3 + 2 * SizeRef(G.ref)) >>,
       << "C17.sym.group", d.name = G.name /\ d.num = G.num /\ d.order = Len(G.ops) >>,
       << "C17.sym.transformation", MNear(d.refT, Transposed(G.ref), 1) /\ VNear(d.shift, G.shift, 1) >>,
       << "C17.sym.operations", Len(d.ops) = Len(G.ops) /\ \A i \in DOMAIN d.ops : SymOp(d.ops[i], G.ops[i]) >>,
       << "C17.sym.axes", Len(d.ops) = Len(G.ops) => \A i \in DOMAIN d.ops : SymAxis(d.ops[i], G.ops[i]) >>,
       << "C17.sym.action_on_k", Len(d.ops) = Len(G.ops) => \A i \in DOMAIN d.ops : d.ops[i].gk = MScale(1000, GkOf(G.ops[i].R)) >>,
       << "C17.sym.spinor", Len(d.ops) = Len(G.ops) => \A i \in DOMAIN d.ops :
             IF ~Spin THEN d.ops[i].S = << >> /\ d.ops[i].Sref = << >>
             ELSE \A a, b \in 1..2 : /\ CNear(CScale(100, d.ops[i].S[a][b]), G.ops[i].S[a][b], 52)
                                     /\ d.ops[i].ref => CNear(CScale(100 * G.ops[i].sign, d.ops[i].Sref[a][b]), G.ops[i].S[a][b], 52) >>,
       << "C17.sym.reference_cell", Len(d.ops) = Len(G.ops) => \A i \in DOMAIN d.ops :
             LET o == d.ops[i]
             IN  /\ o.ref = ~Coincide(G)
                 /\ o.ref => /\ Conjugate(G.ref, o.Rref, G.ops[i].R)
                             /\ RefTranslation(G, G.ops[i], o.tref, 3 + 2 * SizeRef(G.ref), TRUE)
                             /\ o.gkref = MScale(1000, GkOf(o.Rref)) >> >>

KReport(d, i) ==
    LET k == K(i)
        im == ~Real(k.ch, 9)        \* imaginary parts are printed if any exceeds 10^-4
        Ch(a, b, l) == Len(a) = Len(b) /\ \A j \in DOMAIN a : /\ Near(a[j][1], b[j][1], 7)
                                                              /\ im => Near(a[j][2], b[j][2], 7)
                                                              /\ (Real(k.ch, 12) /\ ~im) => Near(a[j][2], 0, 12)
    IN << << "C17.report.k", d.ik0 = k.ik0 /\ VNear(d.k, k.k, 2) /\ VNear(d.kref, k.kref, 2) >>,
          << "C17.report.number_of_states", d.nb = k.nb >>,
          << "C17.report.little_group", d.lg = k.lg >>,
          << "C17.report.number_of_levels", Len(d.lev) = Len(k.deg) >>,
          << "C17.report.levels", Len(d.lev) = Len(k.deg) => \A l \in DOMAIN d.lev : d.lev[l].d = k.deg[l] /\ Near(d.lev[l].e, k.em[l], 52) >>,
          << "C17.report.characters", Len(d.lev) = Len(k.deg) => \A l \in DOMAIN d.lev :
                Ch(d.lev[l].ch, k.ch[l], l) /\ Ch(d.lev[l].chr, k.chr[l], l) >>,
          << "C17.report.irreps", Len(d.lev) = Len(k.deg) => \A l \in DOMAIN d.lev :
                IF HasIrr(i) THEN ~d.lev[l].none /\ IrrNear(d.lev[l].irr, k.irr[l], 3) ELSE d.lev[l].none >>,
          << "C17.report.labelled", HasIrr(i) = Labelled >> >>

Report17(d) ==
    << << "C17.report.number_of_kpoints", Len(d.kp) = NK >> >> \o
    FlattenSeq([i \in 1..(IF Len(d.kp) = NK THEN NK ELSE 0) |-> KReport(d.kp[i], i)])
Report12(d) ==
    << << "C12.printed_kpoints", Len(d.kp) = NK >>,
       << "C12.printed_kpoint", Len(d.kp) = NK => \A i \in 1..NK :
             IF K(i).ninv = -1 THEN ~d.kp[i].inv /\ d.kp[i].odd = -1
             ELSE d.kp[i].inv /\ d.kp[i].odd = Counted(K(i).ninv) /\ d.kp[i].pairs = Spin >>,
       << "C12.printed_total", d.total = Counted(Odd) /\ d.pairs = Spin >>,
       << "C12.printed_Z2", d.z2 = (Odd \div 2) % 2 >>,
       << "C12.printed_Z4", d.z4 = (Odd \div 2) % 4 >> >>
Report13(d) ==
    << << "C13.printed_direct", Near(d.gd, GapDir, 3) >>,
       << "C13.printed_indirect", Near(d.gi, GapInd, 3) >>,
       << "C13.printed_kpoint_gaps", Len(d.kp) = NK /\ \A i \in DOMAIN d.kp : IF GapAt(i) = BIG THEN d.kp[i].gap = BIG
                                                                               ELSE Near(d.kp[i].gap, GapAt(i), 3) >> >>

Trace(d) ==
    << << "C17.trace.header", d.nb = K(1).nb /\ d.soc = (IF Spin THEN 1 ELSE 0) /\ d.nsym = Len(G.ops) /\ Len(d.ops) = Len(G.ops) >>,
       << "C17.trace.operations", Len(d.ops) = Len(G.ops) => \A i \in DOMAIN d.ops : d.ops[i].R = G.ops[i].R /\ VNear(d.ops[i].t, G.ops[i].t, 2) >>,
       << "C17.trace.spinor", (Spin /\ Len(d.ops) = Len(G.ops)) => \A i \in DOMAIN d.ops : Len(d.ops[i].S) = 4 /\ \A a, b \in 1..2 :
             CNear(d.ops[i].S[2 * (a - 1) + b], G.ops[i].S[a][b], 2) >>,
       << "C17.trace.kpoints", d.nk = NK /\ Len(d.k) = NK /\ Len(d.kp) = NK /\ \A i \in DOMAIN d.k : VNear(d.k[i], K(i).k, 2) >>,
       << "C17.trace.little_groups", Len(d.kp) = NK => \A i \in 1..NK : d.kp[i].order = Len(K(i).lg) /\ d.kp[i].lg = K(i).lg >>,
       << "C17.trace.number_of_levels", Len(d.kp) = NK => \A i \in 1..NK : Len(d.kp[i].lev) = Len(K(i).deg) >>,
       << "C17.trace.levels", Len(d.kp) = NK => \A i \in 1..NK : \A l \in 1..Mn(Len(d.kp[i].lev), Len(K(i).deg)) :
             LET x == d.kp[i].lev[l] IN x.ib = First(i, l) /\ x.d = K(i).deg[l] /\ Near(x.e, K(i).em[l], 52) /\ CharNear(x.ch, K(i).ch[l], 2) >> >>

\* operations in the reference cell, as for the tables
Template(d) ==
    << << "C17.template.header", d.num = G.num /\ d.name = G.name /\ d.nsym = Len(G.ops) /\ d.spinor = Spin /\ Len(d.ops) = Len(G.ops) >>,
       << "C17.template.operations", Len(d.ops) = Len(G.ops) => \A i \in DOMAIN d.ops :
             Conjugate(G.ref, d.ops[i].R, G.ops[i].R) /\ RefTranslation(G, G.ops[i], d.ops[i].t, 3 + SizeRef(G.ref), FALSE) >>,
       << "C17.template.spinor", (Spin /\ Len(d.ops) = Len(G.ops)) => \A i \in DOMAIN d.ops : Len(d.ops[i].S) = 4 /\ \A a, b \in 1..2 :
             CNear(d.ops[i].S[2 * (a - 1) + b], G.ops[i].S[a][b], 6) >> >>

\* one line per level: energy and the names of the irreps
AllLevels == FlattenSeq([i \in 1..NK |-> [l \in 1..Len(K(i).deg) |-> << i, l >>]])
RECURSIVE Joined(_, _)
Joined(irr, j) == IF j > Len(irr) THEN "" ELSE irr[j][1] \o Joined(irr, j + 1)
IrrepsDat(d) ==
    << << "C17.irrepsdat.number_of_levels", Len(d.lines) = Len(AllLevels) >>,
       << "C17.irrepsdat.lines", Len(d.lines) = Len(AllLevels) => \A n \in DOMAIN AllLevels :
             LET i == AllLevels[n][1]
                 l == AllLevels[n][2]
             IN  Near(d.lines[n][1], K(i).em[l], 2) /\ HasIrr(i) => d.lines[n][2] = Joined(K(i).irr[l], 1) >> >>

JK(d, i) ==
    LET k == K(i)
    IN << << "C17.json.kpoint_label", d.name = (IF Labelled THEN In.outlabels[i] ELSE "") >>,
          << "C17.json.little_group", d.lg = k.lg >>,
          << "C17.json.energies", SeqNear(d.em, k.em, 1) /\ SeqNear(d.er, k.er, 1) /\ d.deg = k.deg >>,
          << "C17.json.characters", /\ Len(d.ch) = Len(k.ch) /\ Len(d.chr) = Len(k.chr)
                                    /\ \A l \in DOMAIN d.ch : CharNear(d.ch[l], k.ch[l], 1) /\ CharNear(d.chr[l], k.chr[l], 1) >>,
          << "C17.json.same_characters", LET dif == { Mx(Abs(k.ch[l][j][1] - k.chr[l][j][1]), Abs(k.ch[l][j][2] - k.chr[l][j][2])) : l \in DOMAIN k.ch, j \in DOMAIN k.lg }
                                         IN  /\ (\A x \in dif : x <= 6) => d.same
                                             /\ (\E x \in dif : x >= 12) => ~d.same >>,
          << "C17.json.irreps", IF HasIrr(i) THEN ~d.none /\ Len(d.irr) = Len(k.irr) /\ \A l \in DOMAIN d.irr : IrrNear(d.irr[l], k.irr[l], 1)
                                ELSE d.none >> >>
Json17(d) ==
    LET s == d.subs[1]
    IN << << "C17.json.group", d.name = G.name /\ d.num = G.num /\ d.spinor = Spin /\ d.order = Len(G.ops) /\ d.match = Coincide(G) >>,
          << "C17.json.selected_operations", Len(d.ops) = Len(Selected) >>,
          << "C17.json.operations", Len(d.ops) = Len(Selected) => \A i \in DOMAIN d.ops :
                LET a == d.ops[i]
                    o == Selected[i]
                IN  /\ a.ind = o.ind /\ a.R = o.R /\ a.inv = o.inv /\ a.sign = o.sign
                    /\ VNear(a.t, o.t, 1) /\ VNear(a.ax, o.ax, 1) /\ Near(a.ang, o.ang, 2) /\ a.angs = o.angs
                    /\ Conjugate(G.ref, a.Rref, o.R) /\ RefTranslation(G, o, a.tref, 2 + SizeRef(G.ref), FALSE) >>,
          << "C17.json.whole", ~d.sep /\ Len(d.subs) = 1 >>,
          << "C17.json.number_of_kpoints", Len(s.kp) = NK /\ Len(s.line) = NK >>,
          << "C17.json.line", Len(s.kp) = NK /\ Len(s.line) = NK => \A i \in 1..NK : s.kp[i].line = s.line[i] >> >>
       \o FlattenSeq([i \in 1..(IF Len(s.kp) = NK THEN NK ELSE 0) |-> JK(s.kp[i], i)])
Json12(d) ==
    << << "C12.json_total", d.subs[1].odd = Counted(Odd) /\ d.subs[1].pairs = Spin >>,
       << "C12.json_Z4", Spin => d.subs[1].z4 = (Odd \div 2) % 4 >> >>
Json13(d) ==
    << << "C13.json_direct", Near(d.subs[1].gd, GapDir, 3) >>,
       << "C13.json_indirect", Near(d.subs[1].gi, GapInd, 3) >> >>

Clauses(d) ==
    CASE d.e = "symreport" -> IF Is("C17") THEN SymReport(d) ELSE << >>
      [] d.e = "report"    -> (IF Is("C17") THEN Report17(d) ELSE IF Is("C12") THEN Report12(d) ELSE Report13(d))
      [] d.e = "trace"     -> IF Is("C17") THEN Trace(d) ELSE << >>
      [] d.e = "template"  -> IF Is("C17") THEN Template(d) ELSE << >>
      [] d.e = "irrepsdat" -> IF Is("C17") THEN IrrepsDat(d) ELSE << >>
      [] d.e = "json"      -> (IF Is("C17") THEN Json17(d) ELSE IF Is("C12") THEN Json12(d) ELSE Json13(d))

Complete == { "symreport", "report", "trace", "template", "json" } \union (IF In.haslabels THEN { "irrepsdat" } ELSE {})

-----------------------------------------------------------------------------
(* the machine *)

Init == /\ run \in DOMAIN Runs
        /\ pos = 0 /\ phase = "computing" /\ gpos = 0 /\ kpos = << >> /\ written = {} /\ bad = {}

Order(ok) == IF ok THEN {} ELSE { Focus \o ".out_of_order" }

GroupStep == /\ Ev.e = "group"
             /\ gpos' = pos + 1
             /\ bad' = bad \union Order(phase = "computing" /\ gpos = 0)
             /\ UNCHANGED << phase, kpos, written >>
KPointStep == /\ Ev.e = "kpoint"
              /\ kpos' = Append(kpos, pos + 1)
              /\ bad' = bad \union Order(phase = "computing" /\ gpos # 0)
              /\ UNCHANGED << phase, gpos, written >>
SummaryStep == /\ Ev.e = "summary"
               /\ phase' = "computed"
               /\ bad' = bad \union Order(phase = "computing" /\ kpos # << >>)
               /\ UNCHANGED << gpos, kpos, written >>
DocumentStep == /\ Ev.e \in Complete \union { "irrepsdat" }
                /\ written' = written \union { Ev.e }
                /\ bad' = bad \union Order(phase = "computed" /\ Ev.e \notin written)
                              \union Failing(Clauses(Ev))
                              \union (IF Ev.e \in Complete THEN {} ELSE { Focus \o ".unlabelled_irrepsdat" })
                /\ UNCHANGED << phase, gpos, kpos >>
ErrorStep == /\ Ev.e = "error"
             /\ bad' = bad \union { Focus \o ".error_" \o Ev.where \o "_" \o Ev.type }
             /\ phase' = "failed"
             /\ UNCHANGED << gpos, kpos, written >>

Next == /\ pos < Len(Runs[run].ev)
        /\ pos' = pos + 1
        /\ run' = run
        /\ GroupStep \/ KPointStep \/ SummaryStep \/ DocumentStep \/ ErrorStep
        /\ LET last == pos + 1 = Len(Runs[run].ev)
               b == bad' \union (IF last /\ phase' # "failed" /\ written' # Complete THEN { Focus \o ".missing_document" } ELSE {})
           IN  IF last /\ b # {} THEN PrintT(<< "BAD", Runs[run].id, b >>) ELSE TRUE

Spec == Init /\ [][Next]_vars
TypeOK == phase \in {"computing", "computed", "failed"} /\ written \subseteq (Complete \union { "irrepsdat" })
=============================================================================
