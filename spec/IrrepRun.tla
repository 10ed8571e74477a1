------------------------------ MODULE IrrepRun ------------------------------
(***************************************************************************)
(* Trace specification of a calculation of irreps.                         *)
(*                                                                         *)
(* The system is a pipeline                                                *)
(*                                                                         *)
(*   start --group--> ready --kpoint*--> ready --summary--> done           *)
(*                                                                         *)
(* whose state is the group found, the k points still to come, and the     *)
(* running totals (inversion-odd states, band edges, gaps).  A recorded    *)
(* run of the implementation is a sequence of events; every event must be  *)
(* the one the model allows next, and every value in it the one the model  *)
(* computes from the input and the state.  Values that differ add the name *)
(* of the violated clause to `bad'; the machine never gets stuck, so each  *)
(* run is judged completely.                                               *)
(*                                                                         *)
(* Runs come from the file named by RUNS (JSON), FOCUS selects the clauses *)
(* (of one property) to evaluate.                                          *)
(***************************************************************************)
EXTENDS Bloch, Levels, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
Focus == IOEnv.FOCUS
Is(p) == Focus = p
BIG == 2000000000

VARIABLES run,      \* index of the recorded run
          pos,      \* events consumed
          phase,    \* "start" | "ready" | "done" | "failed"
          acc,      \* running totals
          bad       \* names of the violated clauses
vars == << run, pos, phase, acc, bad >>

In == Runs[run].in
Ev == Runs[run].ev[pos + 1]
Group == Runs[run].ev[acc.gpos]                 \* the group event consumed

-----------------------------------------------------------------------------
(* C01: the operations *)

T240(o) == << RDiv(o.t[1], 100), RDiv(o.t[2], 100), RDiv(o.t[3], 100) >>
T24(o) == << RDiv(o.t[1], 1000), RDiv(o.t[2], 1000), RDiv(o.t[3], 1000) >>
OnGrid(o) == VNear(o.t, VScale(100, T240(o)), 5)
OpsReported(g) == { << g.ops[i].R, VMod(T240(g.ops[i]), 240) >> : i \in DOMAIN g.ops }

\* the operations of the tables, taken to the cell of the calculation by the transformation with
\* which the crystal was made (a proof that the crystal is of the type In.sg)
WitnessOps ==
    LET d == Det(In.wref)
        Over(M) == [i \in 1..3 |-> [j \in 1..3 |-> M[i][j] \div d]]
    IN  { LET R == Over(MM(In.wref, MM(In.table[i].R, Adj(In.wref))))
          IN  << << << R[1][1], R[1][2], R[1][3] >>, << R[2][1], R[2][2], R[2][3] >>, << R[3][1], R[3][2], R[3][3] >> >>,
                 VMod(VScale(10, VSub(VAdd(MV(In.wref, In.table[i].t), In.wshift), MV(R, In.wshift))), 240) >>
          : i \in DOMAIN In.table }

C01(g) == LET true == SymOps(In)
          IN << << "C01.integer_rotations", \A i \in DOMAIN g.ops : g.ops[i].Rint >>,
                << "C01.translations", \A i \in DOMAIN g.ops : OnGrid(g.ops[i]) >>,
                << "C01.nothing_missing", true \subseteq OpsReported(g) >>,
                << "C01.nothing_extra", OpsReported(g) \subseteq true >>,
                << "C01.each_once", Len(g.ops) = Cardinality(true) /\ g.order = Cardinality(true) >>,
                << "C01.indices", { g.ops[i].ind : i \in DOMAIN g.ops } = 1..Cardinality(true) >>,
                << "C01.number", g.num = In.sg >>,
                << "H.witness", In.cells > 1 \/ WitnessOps = true >> >>

-----------------------------------------------------------------------------
(* C02: descriptors of the operations *)

Rodrigues(a, c, s) ==
    LET K(i, j) == MulFx(One - c, MulFx(a[i], a[j]))
        E(x) == MulFx(s, x)
    IN  << << c + K(1, 1), K(1, 2) - E(a[3]), K(1, 3) + E(a[2]) >>,
           << K(2, 1) + E(a[3]), c + K(2, 2), K(2, 3) - E(a[1]) >>,
           << K(3, 1) - E(a[2]), K(3, 2) + E(a[1]), c + K(3, 3) >> >>
FDot(v, w) == MulFx(v[1], w[1]) + MulFx(v[2], w[2]) + MulFx(v[3], w[3])

OpClauses(o, L, spinor) ==
    LET n12 == RDiv(o.ang, 10000)                        \* angle in units of pi/12
        c == Cos576(24 * n12)
        s == Sin576(24 * n12)
        ch == Cos576(12 * n12)
        sh == Sin576(12 * n12)
        P == IF o.inv THEN MScale(-1, o.R) ELSE o.R
        C == Rodrigues(o.ax, c, s)
        S == << << << ch, -MulFx(sh, o.ax[3]) >>, << -MulFx(sh, o.ax[2]), -MulFx(sh, o.ax[1]) >> >>,
                << << MulFx(sh, o.ax[2]), -MulFx(sh, o.ax[1]) >>, << ch, MulFx(sh, o.ax[3]) >> >> >>
    IN  << << "C02.inversion_flag", o.inv <=> (Det(o.R) = -1) >>,
           << "C02.angle_value", Near(o.ang, 10000 * n12, 30) >>,
           << "C02.unit_axis", n12 % 24 = 0 \/ Near(FDot(o.ax, o.ax), One, 20) >>,
           << "C02.axis_angle_rotation",
              \* the Cartesian rotation takes lattice vector j to sum_i P_ij l_i
              \A j \in 1..3 : \A x \in 1..3 :
                 Near(FDot(C[x], L[j]), L[1][x] * P[1][j] + L[2][x] * P[2][j] + L[3][x] * P[3][j], 60) >>,
           << "C02.printed_angle", NearMod(o.angs * 1000, o.ang, 240000, 30) >>,
           << "C02.spinor_matrix", ~spinor \/ M2Near(o.S, S, 20) \/ M2Near(M2Neg(o.S), S, 20) >> >>

C02(g) == << << "C02.some", Len(g.ops) > 0 >> >> \o FlattenSeq([i \in DOMAIN g.ops |-> OpClauses(g.ops[i], g.L, In.spinor)])

-----------------------------------------------------------------------------
(* C03: transformation to the reference cell.                              *)
(* ref: columns are the reference vectors in the basis of the calculation, *)
(* in units 1/10000; shift in 1/24000; In.tt: tolerance, in 1/240000.      *)

Ident == MScale(10000, Id3)
Matches(o, tb, ref, shift) ==
    /\ LET a == MM(o.R, ref)
           b == MM(ref, tb.R)
       IN  \A i, j \in 1..3 : Near(a[i][j], b[i][j], 3)
    /\ VNearMod(MV(ref, tb.t), VScale(10, VAdd(VSub(o.t, shift), MV(o.R, shift))), 240000, In.tt)

Prim6(letter) ==
    CASE letter = "P" -> << <<6, 0, 0>>, <<0, 6, 0>>, <<0, 0, 6>> >>
      [] letter = "C" -> << <<3, -3, 0>>, <<3, 3, 0>>, <<0, 0, 6>> >>
      [] letter = "A" -> << <<6, 0, 0>>, <<0, 3, -3>>, <<0, 3, 3>> >>
      [] letter = "I" -> << <<-3, 3, 3>>, <<3, -3, 3>>, <<3, 3, -3>> >>
      [] letter = "F" -> << <<0, 3, 3>>, <<3, 0, 3>>, <<3, 3, 0>> >>
      [] letter = "R" -> << <<4, -2, -2>>, <<2, 2, -4>>, <<2, 2, 2>> >>

\* the columns of ref span a conventional cell of the lattice: the primitive vectors of the
\* centring, expressed in the cell of the calculation, are a basis of its lattice
SpansConventional(ref, letter) ==
    LET M == MM(ref, Prim6(letter))            \* units 1/60000
        N == [i \in 1..3 |-> << RDiv(M[i][1], 60000), RDiv(M[i][2], 60000), RDiv(M[i][3], 60000) >>]
    IN  /\ \A i, j \in 1..3 : Near(M[i][j], 60000 * N[i][j], 60)
        /\ Abs(Det(<< N[1], N[2], N[3] >>)) = 1

WantRef == IF In.hasref THEN Transp(In.gref) ELSE Ident
WantShift == IF In.hasshift THEN In.gshift ELSE << 0, 0, 0 >>
Given == In.hasref \/ In.hasshift
TakenAsGiven == Given \/ ~In.search

\* (ref, shift) maps the operations onto those of the table, one to one
MapsOnto(ops, ref, shift) ==
    /\ Cardinality(ops) = Len(In.table)
    /\ Det(MScale(1, << << ref[1][1] \div 100, ref[1][2] \div 100, ref[1][3] \div 100 >>,
                        << ref[2][1] \div 100, ref[2][2] \div 100, ref[2][3] \div 100 >>,
                        << ref[3][1] \div 100, ref[3][2] \div 100, ref[3][3] \div 100 >> >>)) # 0
    /\ \A o \in ops : \E i \in DOMAIN In.table : Matches(o, In.table[i], ref, shift)

GroupOps(g) == { [R |-> g.ops[i].R, t |-> g.ops[i].t] : i \in DOMAIN g.ops }
TrueOps == { [R |-> o[1], t |-> VScale(100, o[2])] : o \in SymOps(In) }

InTableOrder(g) == /\ Len(g.ops) = Len(In.table)
                   /\ \A i \in DOMAIN g.ops : /\ g.ops[i].ind = i
                                              /\ Matches(g.ops[i], In.table[i], g.ref, g.shift)

MatEq(A, B, tol) == \A i, j \in 1..3 : Near(A[i][j], B[i][j], tol)

C03(g) ==
    IF TakenAsGiven
    THEN << << "C03.given_matrix", MatEq(g.ref, WantRef, 2) >>,
            << "C03.given_shift", VNear(g.shift, WantShift, 3) >>,
            << "C03.indices", \A i \in DOMAIN g.ops : g.ops[i].ind = i >>,
            << "C03.table_order", MapsOnto(GroupOps(g), WantRef, WantShift) => InTableOrder(g) >>,
            << "C03.refused", In.search => MapsOnto(GroupOps(g), WantRef, WantShift) >>,
            << "C03.unmatched_signs", MapsOnto(GroupOps(g), WantRef, WantShift) \/ \A i \in DOMAIN g.ops : g.ops[i].sign = 1 >> >>
    ELSE << << "C03.spans_conventional_cell", SpansConventional(g.ref, In.letter) >>,
            << "C03.table_order", InTableOrder(g) >> >>

\* the calculation must be refused because of the transformation
RefuseTransf == In.search /\ Given /\ ~MapsOnto(TrueOps, WantRef, WantShift)

-----------------------------------------------------------------------------
(* C04: signs of the spinor matrices *)

Matched(g) == InTableOrder(g)

C04(g) ==
    LET n == Len(g.ops)
        sg(i) == IF g.ops[i].sign = -1 THEN -1 ELSE 1
        \* S_i S_j = +- S_k : the sign, 0 if neither
        Cocycle(A, B) == IF M2Near(A, B, 40) THEN 1 ELSE IF M2Near(A, M2Neg(B), 40) THEN -1 ELSE 0
        idx == [i \in 1..n |-> [j \in 1..n |-> LET R == MM(g.ops[i].R, g.ops[j].R)
                                               IN  CHOOSE k \in 1..n : g.ops[k].R = R]]
    IN  IF ~In.spinor
        THEN << << "C04.scalar_signs", \A i \in 1..n : g.ops[i].sign = 1 >> >>
        ELSE << << "C04.is_sign", \A i \in 1..n : g.ops[i].sign \in {1, -1} >>,
                << "C04.trace", \A i \in 1..n : CNear(CScale(sg(i), M2Trace(g.ops[i].S)), M2Trace(In.table[i].S), 20) >>,
                << "C04.multiplication", \A i, j \in 1..n :
                     LET k == idx[i][j]
                         c1 == Cocycle(M2Mul(g.ops[i].S, g.ops[j].S), g.ops[k].S)
                         c2 == Cocycle(M2Mul(In.table[i].S, In.table[j].S), In.table[k].S)
                     IN  c1 # 0 /\ c2 # 0 /\ sg(i) * sg(j) * c1 = sg(k) * c2 >> >>

-----------------------------------------------------------------------------
(* k points *)

KSel == SelectK(In.allk, In.klist, Len(In.ks))
B0 == FirstBand(In.ibs)
B1 == LastBand(In.ibe, In.nb)
NSel == NumBands(In.ibs, In.ibe, In.nb)
Window(kin) == [i \in 1..NSel |-> kin.E[B0 + i - 1] - In.efsub]
Upper(kin) == IF B1 < Len(kin.E) THEN kin.E[B1 + 1] - In.efsub ELSE BIG
\* In.nb is the largest number of bands of a k point; one with fewer than requested may be refused
ShortBands == \E i \in DOMAIN KSel : Len(In.ks[KSel[i]].E) < B1

\* multiplets of the level made of selected bands f..l (counted from 1), complete or not
MultsIn(kin, f, l) == { i \in DOMAIN kin.mult : LET m == kin.mult[i]
                                                IN  m.b0 >= B0 + f - 1 /\ m.b0 + m.n - 1 <= B0 + l - 1 }
Complete(kin, f, l) == SumOver(MultsIn(kin, f, l), LAMBDA i : kin.mult[i].n) = l - f + 1

LittleInds(g, k24) == SelectSeq([i \in DOMAIN g.ops |-> i], LAMBDA i : InLittleGroup(g.ops[i].R, k24))

\* trace of operation (R, t24, S) over the level
LevelTrace(kin, sphere, ms, R, t24, S) ==
    CSumOver(ms, LAMBDA i : MultTrace(sphere, In.gstar, kin.k24, In.q2cut, kin.mult[i], R, t24, S, In.spinor))

\* the table's operation in the cell of the calculation: its exact translation, in 1/24
TabTrans(g, o, tb) ==
    LET x == VAdd(MV(g.ref, tb.t), VScale(10, VSub(g.shift, MV(o.R, g.shift))))     \* units 1/240000
    IN  << RDiv(x[1], 10000), RDiv(x[2], 10000), RDiv(x[3], 10000) >>

SignS(o) == IF o.sign = -1 THEN M2Neg(o.S) ELSE o.S

\* trace of the table's operation over the level.  For shells the spin trace is the table's
RefTrace(g, kin, sphere, ms, i) ==
    LET o == g.ops[i]
        tb == In.table[i]
        t == TabTrans(g, o, tb)
    IN  CSumOver(ms, LAMBDA j : MultTrace(sphere, In.gstar, kin.k24, In.q2cut, kin.mult[j], o.R, t,
                                          IF kin.mult[j].kind = "shell" THEN tb.S ELSE SignS(o), In.spinor))

CellsCoincide(g) == MatEq(g.ref, Ident, 0) /\ g.shift = << 0, 0, 0 >>

C06(e, g, kin) ==
    LET lg == SelectSeq([i \in DOMAIN g.ops |-> i], LAMBDA i : LittleGroupOn(In.kden, g.ops[i].R, kin.k24))
        kr == VM(kin.k24, g.ref)                \* units 1/(10000 kden)
        u == (10 * In.kden) \div 24
    IN << << "C06.little_group", { g.ops[i].ind : i \in ToSet(lg) } = ToSet(e.lg) >>,
          << "C06.once_ascending", \A i \in 1..(Len(e.lg) - 1) : e.lg[i] < e.lg[i + 1] >>,
          << "C06.k", VNear(e.k, VScale(24000 \div In.kden, kin.k24), 3) >>,
          << "C06.k_reference", VNear(VScale(u, e.kref), kr, 4 * u) >>,
          << "C06.one_character_each", \A i \in DOMAIN e.ch : Len(e.ch[i]) = Len(e.lg) /\ Len(e.chr[i]) = Len(e.lg) >> >>

\* ---- plane waves and coefficients
C07(e, g, kin) ==
    LET q(i) == VAdd(VScale(24, e.G[i]), kin.k24)
        ng == Len(e.G)
        ns == IF In.spinor THEN 2 ELSE 1
        at == [x \in ToSet(kin.G) |-> CHOOSE i \in DOMAIN kin.G : kin.G[i] = x]
        Paired(b) ==
            LET C == kin.C[B0 + b - 1]
                W == e.wf[b]
                \* reference wave: the largest of the first spin component kept, else of the second
                kept == { << s, i >> : s \in 1..ns, i \in 1..ng }
                Size(p) == LET z == C[p[1]][at[e.G[p[2]]]] IN Abs(z[1]) + Abs(z[2])
                ref == CHOOSE p \in kept : \A r \in kept : Size(r) <= Size(p)
                c0 == C[ref[1]][at[e.G[ref[2]]]]
                w0 == W[ref[1]][ref[2]]
                Prod(a, b2) == << a[1] * b2[1] - a[2] * b2[2], a[1] * b2[2] + a[2] * b2[1] >>
                tol == ((30 * (Abs(c0[1]) + Abs(c0[2]) + Abs(w0[1]) + Abs(w0[2]))) \div 10) + 100
            IN  /\ CNear(Prod(w0, << c0[1], -c0[2] >>), << Abs(Prod(w0, << c0[1], -c0[2] >>)[1]), 0 >>, tol)
                /\ \A p \in kept : CNear(Prod(W[p[1]][p[2]], c0), Prod(w0, C[p[1]][at[e.G[p[2]]]]), tol)
        Normed(b) == Near(SumSeq([s \in 1..ns |-> SumSeq([i \in 1..ng |->
                            (e.wf[b][s][i][1] * e.wf[b][s][i][1] + e.wf[b][s][i][2] * e.wf[b][s][i][2]) \div 1000])]), One, 100 + ng)
        inside == { i \in 1..ng : 2 * QForm(In.gstar, q(i)) < In.q2cut }
    IN << << "C07.plane_waves", { q(i) : i \in 1..ng } = Sphere(In.gstar, kin.k24, In.q2cut) >>,
          << "C07.each_once", Cardinality({ e.G[i] : i \in 1..ng }) = ng >>,
          << "C07.bands", Len(e.wf) = NSel /\ \A b \in 1..Len(e.wf) : Len(e.wf[b]) = ns /\ \A s \in 1..ns : Len(e.wf[b][s]) = ng >>,
          << "C07.coefficients", /\ \A i \in 1..ng : e.G[i] \in DOMAIN at
                                 /\ \A b \in 1..Len(e.wf) : Paired(b) >>,
          << "C07.normalised", \A b \in 1..Len(e.wf) : Normed(b) >> >>

C08(e, g, kin) ==
    LET E == Window(kin)
        bd == Borders(E, In.thr)
        sphere == Sphere(In.gstar, kin.k24, In.q2cut)
        tol(l) == 25 + 3 * (bd[l + 1] - bd[l])
        lg == LittleInds(g, kin.k24)
        matched == In.judgeref /\ ~CellsCoincide(g) /\ InTableOrder(g)
        L == { l \in 1..(Len(bd) - 1) : Complete(kin, bd[l], bd[l + 1] - 1) }
        Ms(l) == MultsIn(kin, bd[l], bd[l + 1] - 1)
        shape == Len(e.ch) = Len(bd) - 1 /\ Len(e.chr) = Len(bd) - 1 /\ \A l \in DOMAIN e.ch : Len(e.ch[l]) = Len(lg) /\ Len(e.chr[l]) = Len(lg)
    IN << << "C08.shape", shape >>,
          << "C08.character", shape => \A l \in L : \A i \in DOMAIN lg : LET o == g.ops[lg[i]]
                IN CNear(e.ch[l][i], LevelTrace(kin, sphere, Ms(l), o.R, T24(o), o.S), tol(l)) >>,
          << "C08.character_refcell", (shape /\ matched) => \A l \in L : \A i \in DOMAIN lg :
                CNear(e.chr[l][i], RefTrace(g, kin, sphere, Ms(l), lg[i]), tol(l)) >>,
          << "C08.same_if_cells_coincide", (shape /\ CellsCoincide(g)) => e.chr = e.ch >> >>

\* ---- irreps.  Multiplicities recorded at scale 10^4
LabelOf(i) == In.labels[i]
KTab(name) == In.tk[CHOOSE j \in DOMAIN In.tk : In.tk[j].name = name]
Known(name) == \E j \in DOMAIN In.tk : In.tk[j].name = name
\* ktab (1/24 of the reference cell) = k24 modulo the reciprocal lattice of the calculation:
\* ref^T k and ktab differ by ref^T times integers
SameK(g, ktab, k24) ==
    LET d == Det(<< << RDiv(g.ref[1][1], 10000), RDiv(g.ref[1][2], 10000), RDiv(g.ref[1][3], 10000) >>,
                    << RDiv(g.ref[2][1], 10000), RDiv(g.ref[2][2], 10000), RDiv(g.ref[2][3], 10000) >>,
                    << RDiv(g.ref[3][1], 10000), RDiv(g.ref[3][2], 10000), RDiv(g.ref[3][3], 10000) >> >>)
        N == << << RDiv(g.ref[1][1], 10000), RDiv(g.ref[1][2], 10000), RDiv(g.ref[1][3], 10000) >>,
                << RDiv(g.ref[2][1], 10000), RDiv(g.ref[2][2], 10000), RDiv(g.ref[2][3], 10000) >>,
                << RDiv(g.ref[3][1], 10000), RDiv(g.ref[3][2], 10000), RDiv(g.ref[3][3], 10000) >> >>
        \* x N = ktab  =>  x d = ktab Adj(N)
        x == VM(ktab, Adj(N))
    IN  VMod(VSub(x, VScale(d, k24)), 24 * Abs(d)) = << 0, 0, 0 >>
LabelsOK(g) == \A i \in DOMAIN KSel : Known(LabelOf(i)) /\ SameK(g, KTab(LabelOf(i)).k, In.ks[KSel[i]].k24)

C09(e, g, kin, label) ==
    LET E == Window(kin)
        bd == Borders(E, In.thr)
        sphere == Sphere(In.gstar, kin.k24, In.q2cut)
        lg == LittleInds(g, kin.k24)
        n == Len(lg)
        tk == KTab(label)
        \* position of operation i in the table's list
        At(i) == CHOOSE p \in DOMAIN tk.isym : tk.isym[p] = i
        Names(x) == { x[j][1] : j \in DOMAIN x }
        LevelOK(l) ==
            LET ms == MultsIn(kin, bd[l], bd[l + 1] - 1)
                tr == [i \in 1..n |-> RefTrace(g, kin, sphere, ms, lg[i])]
                Mult(ir) == LET z == CSumSeq([i \in 1..n |-> CMul(ir.ch[At(lg[i])], CConj(tr[i]))])
                            IN  << RDiv(z[1], 10 * n), RDiv(z[2], 10 * n) >>      \* scale 10^4
                shells == \A i \in ms : kin.mult[i].kind = "shell"
                found == e.irr[l]
                Rep(name) == LET j == CHOOSE j \in DOMAIN found : found[j][1] = name IN << found[j][2], found[j][3] >>
                irset == { tk.irr[j] : j \in DOMAIN tk.irr }
            IN  /\ Cardinality(Names(found)) = Len(found)
                /\ Names(found) \subseteq { ir.name : ir \in irset }
                /\ \A ir \in irset :
                      LET m == Mult(ir)
                          size == Mx(Abs(m[1]), Abs(m[2]))
                      IN  /\ size >= 25 => ir.name \in Names(found)
                          /\ size <= 4 => ir.name \notin Names(found)
                          /\ ir.name \in Names(found) => CNear(Rep(ir.name), m, 12)
                          \* a complete level is a representation: whole multiplicities
                          /\ shells => /\ Near(m[1], 10000 * RDiv(m[1], 10000), 12)
                                       /\ Near(m[2], 0, 12) /\ m[1] > -20
                /\ shells => SumOver(irset, LAMBDA ir : ir.dim * RDiv(Mult(ir)[1], 10000)) = bd[l + 1] - bd[l]
    IN << << "C09.little_group_of_table", ToSet(lg) = ToSet(tk.isym) >>,
          << "C09.identified", "irr" \in DOMAIN e /\ Len(e.irr) = Len(bd) - 1 >>,
          << "C09.multiplicities", (ToSet(lg) = ToSet(tk.isym) /\ "irr" \in DOMAIN e /\ Len(e.irr) = Len(bd) - 1) =>
                \A l \in { x \in 1..(Len(bd) - 1) : Complete(kin, bd[x], bd[x + 1] - 1) } : LevelOK(l) >> >>

C10(e, kin) ==
    LET E == Window(kin)
        NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], tol)
    IN << << "C10.degeneracies", e.deg = Degeneracies(E, In.thr) >>,
          << "C10.energies", NearSeq(e.er, E, 1) >>,
          << "C10.level_means", NearSeq(e.em, Means(E, In.thr), 2) >>,
          << "C10.next_band", Near(e.up, Upper(kin), 1) >>,
          << "C10.number_of_bands", e.nb = NSel >> >>

C11(e, kin, want) ==
    LET E == Window(kin)
        NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], tol)
    IN << << "C11.k_index", e.ik0 = want >>,
          << "C11.k_vector", VNear(e.k, VScale(1000, kin.k24), 3) >>,
          << "C11.number_of_bands", e.nb = NSel /\ Len(e.er) = NSel >>,
          << "C11.bands", NearSeq(e.er, E, 1) >>,
          << "C11.wave_functions", ("wf" \in DOMAIN e) =>
                 LET c == C07(e, Group, kin) IN \A i \in DOMAIN c : c[i][2] >> >>

\* inversion about the origin, if it belongs to the little group
InvIn(g, k24) == \E i \in DOMAIN g.ops : /\ g.ops[i].R = MinusId3
                                         /\ VNear(g.ops[i].t, << 0, 0, 0 >>, 0)
                                         /\ InLittleGroup(g.ops[i].R, k24)
\* inversion with a translation so small that it may count as none
InvNear(g) == \E i \in DOMAIN g.ops : /\ g.ops[i].R = MinusId3
                                      /\ VNear(g.ops[i].t, << 0, 0, 0 >>, 10)
OddTwice(g, kin) ==     \* 2 * One * (number of odd states) according to the model
    LET sphere == Sphere(In.gstar, kin.k24, In.q2cut)
        i == CHOOSE j \in DOMAIN g.ops : g.ops[j].R = MinusId3
        ms == MultsIn(kin, 1, NSel)
    IN  One * NSel - LevelTrace(kin, sphere, ms, MinusId3, << 0, 0, 0 >>, g.ops[i].S)[1]

C12(e, g, kin) ==
    << << "C12.inversion_at_origin", IF InvIn(g, kin.k24) THEN e.ninv >= 0 ELSE e.ninv = -1 >>,
       << "C12.odd_states", (InvIn(g, kin.k24) /\ Complete(kin, 1, NSel)) =>
             Near(2 * One * e.ninv, OddTwice(g, kin), One + 200) >>,
       << "C12.whole", (InvIn(g, kin.k24) /\ Complete(kin, 1, NSel) /\ \A i \in MultsIn(kin, 1, NSel) : kin.mult[i].kind = "shell") =>
             Near(2 * One * e.ninv, OddTwice(g, kin), 300) >> >>

C13(e, kin) ==
    LET E == Window(kin)
        m == Means(E, In.thr)
    IN << << "C13.next_band", Near(e.up, Upper(kin), 1) >>,
          << "C13.highest_level", Near(e.em[Len(e.em)], m[Len(m)], 2) >> >>

-----------------------------------------------------------------------------
(* the machine *)

Acc0 == [gpos |-> 0, k |-> 0, odd |-> 0, maxlow |-> -BIG, minup |-> BIG, dir |-> BIG, first |-> 0]

Init == /\ run \in DOMAIN Runs
        /\ pos = 0
        /\ phase = "start"
        /\ acc = Acc0
        /\ bad = {}

Clauses(c) == Failing(c)

GroupStep ==
    /\ Ev.e = "group"
    /\ phase' = IF In.ks # << >> /\ ShortBands THEN "failed" ELSE "ready"
    /\ acc' = [Acc0 EXCEPT !.gpos = pos + 1]
    /\ bad' = bad \union
         (IF phase # "start" THEN { Focus \o ".group_out_of_order" } ELSE {}) \union
         (IF In.ks # << >> /\ NSel <= 0 THEN { Focus \o ".empty_selection_accepted" } ELSE {}) \union
         Clauses(CASE Is("C01") -> C01(Ev) [] Is("C02") -> C02(Ev) [] Is("C03") -> C03(Ev)
                   [] Is("C04") -> IF Matched(Ev) THEN C04(Ev) ELSE << << "C04.matched", FALSE >> >>
                   [] OTHER -> << >>)

KPointStep ==
    /\ Ev.e = "kpoint"
    /\ phase' = phase
    /\ IF phase # "ready" \/ acc.k >= Len(KSel)
       THEN /\ bad' = bad \union { Focus \o ".unexpected_kpoint" }
            /\ acc' = [acc EXCEPT !.k = @ + 1]
       ELSE LET want == KSel[acc.k + 1]
                kin == In.ks[want]
                up == Upper(kin)
                E == Window(kin)
                m == Means(E, In.thr)
                top == m[Len(m)]
            IN  /\ acc' = [acc EXCEPT !.k = @ + 1,
                                      !.odd = @ + (IF Is("C12") /\ Ev.ninv > 0 THEN Ev.ninv ELSE 0),
                                      !.maxlow = Mx(@, top),
                                      !.minup = Mn(@, up),
                                      !.dir = IF up = BIG THEN @ ELSE Mn(@, up - top)]
                /\ bad' = bad \union Clauses(
                     CASE Is("C06") -> C06(Ev, Group, kin)
                       [] Is("C07") -> C07(Ev, Group, kin)
                       [] Is("C08") -> C08(Ev, Group, kin)
                       [] Is("C09") -> IF LabelsOK(Group) THEN C09(Ev, Group, kin, LabelOf(acc.k + 1)) ELSE << >>
                       [] Is("C10") -> C10(Ev, kin)
                       [] Is("C11") -> C11(Ev, kin, want)
                       [] Is("C12") -> C12(Ev, Group, kin)
                       [] Is("C13") -> C13(Ev, kin)
                       [] OTHER -> << >>)

GapInd == IF acc.minup = BIG THEN BIG ELSE acc.minup - acc.maxlow

SummaryStep ==
    /\ Ev.e = "summary"
    /\ phase' = "done"
    /\ acc' = acc
    /\ bad' = bad \union
         Clauses(<< << Focus \o ".number_of_kpoints", Ev.nk = Len(KSel) /\ acc.k = Len(KSel) >> >> \o
           (CASE Is("C10") -> << << "C10.fermi", Near(Ev.ef, In.efsub, 1) >> >>
              [] Is("C12") -> << << "C12.total", Ev.odd = acc.odd >> >>
              [] Is("C13") -> << << "C13.direct_gap", Near(Ev.gd, acc.dir, 3) >>,
                                 << "C13.indirect_gap", Near(Ev.gi, GapInd, 3) >> >>
              [] OTHER -> << >>))

\* the caller's own list of k points after the call
ListStep ==
    /\ Ev.e = "list"
    /\ UNCHANGED << phase, acc >>
    /\ bad' = bad \union Clauses(<< << "C11.list_unchanged", Ev.after = Ev.before >> >>)

ErrorStep ==
    /\ Ev.e = "error"
    /\ phase' = IF Ev.where = "identify" THEN phase ELSE "failed"
    /\ acc' = acc
    /\ LET expected == \/ Ev.where = "init" /\ Is("C03") /\ RefuseTransf
                       \/ Ev.where = "init" /\ In.ks # << >> /\ (NSel <= 0 \/ ShortBands)
                       \/ Ev.where = "identify" /\ Is("C09") /\ phase = "ready" /\ ~LabelsOK(Group)
       IN  bad' = bad \union (IF expected THEN {} ELSE { Focus \o ".error_" \o Ev.where \o "_" \o Ev.type })

\* identification succeeded
AcceptedStep ==
    /\ Ev.e = "accepted"
    /\ UNCHANGED << phase, acc >>
    /\ bad' = bad \union (IF Is("C09") /\ ~LabelsOK(Group) THEN { "C09.wrong_label_accepted" } ELSE {})

\* the same states, from another code: the events must agree with those of the first code
\* the atoms of each species; how species are numbered does not matter
SpeciesClasses(x) == { { VMod(<< RDiv(x.pos[i][1], 1000), RDiv(x.pos[i][2], 1000), RDiv(x.pos[i][3], 1000) >>, 240) :
                           i \in { j \in DOMAIN x.typ : x.typ[j] = s } } : s \in ToSet(x.typ) }
\* spinor matrices are defined up to a sign; that of the reference cell is fixed by the tables
NearChars(a, b, lg, ga, gb, refcell) ==
    LET eps(i) == IF refcell /\ InTableOrder(ga) /\ ~CellsCoincide(ga) THEN 1
                  ELSE IF M2Near(ga.ops[lg[i]].S, gb.ops[lg[i]].S, 40) THEN 1 ELSE -1
    IN  /\ Len(a) = Len(b)
        /\ \A l \in DOMAIN a : /\ Len(a[l]) = Len(lg) /\ Len(b[l]) = Len(lg)
                              /\ \A i \in DOMAIN lg : CNear(a[l][i], CScale(eps(i), b[l][i]), 30)
\* an origin that is searched for may be any of those that match the tables: files order the atoms differently,
\* and another origin may permute the irreps
SameOrigin(ga, gb) == VNear(ga.shift, gb.shift, 3) \/ TakenAsGiven
SameCode(a, b, ga, gb) ==
    CASE a.e = "group" ->
         << << "C14.lattice", MatEq(a.L, b.L, 3) >>,
            << "C14.atoms", Len(a.pos) = Len(b.pos) /\ SpeciesClasses(a) = SpeciesClasses(b) >>,
            << "C14.group", a.num = b.num /\ Len(a.ops) = Len(b.ops) >>,
            << "C14.operations", { << a.ops[i].R, VMod(T240(a.ops[i]), 240) >> : i \in DOMAIN a.ops } =
                                 { << b.ops[i].R, VMod(T240(b.ops[i]), 240) >> : i \in DOMAIN b.ops } >>,
            << "C14.cell", MatEq(a.ref, b.ref, 2) >> >>
      [] a.e = "kpoint" ->
         << << "C14.k", a.ik0 = b.ik0 /\ VNear(a.k, b.k, 3) /\ VNear(a.kref, b.kref, 6) >>,
            << "C14.plane_waves", ToSet(a.G) = ToSet(b.G) >>,
            << "C14.energies", Len(a.er) = Len(b.er) /\ \A i \in DOMAIN a.er : Near(a.er[i], b.er[i], 2) >>,
            << "C14.next_band", Near(a.up, b.up, 2) >>,
            << "C14.degeneracies", a.deg = b.deg >>,
            << "C14.little_group", a.lg = b.lg >>,
            << "C14.characters", a.lg = b.lg => /\ NearChars(a.ch, b.ch, a.lg, ga, gb, FALSE)
                                                /\ SameOrigin(ga, gb) => NearChars(a.chr, b.chr, a.lg, ga, gb, TRUE) >>,
            << "C14.inversion", a.ninv = b.ninv >>,
            << "C14.irreps", ("irr" \in DOMAIN a) = ("irr" \in DOMAIN b) /\
                 (("irr" \in DOMAIN a /\ "irr" \in DOMAIN b /\ SameOrigin(ga, gb)) =>
                   /\ Len(a.irr) = Len(b.irr)
                   /\ \A l \in DOMAIN a.irr : /\ { x[1] : x \in ToSet(a.irr[l]) } = { x[1] : x \in ToSet(b.irr[l]) }
                                              /\ \A x \in ToSet(a.irr[l]) : \A y \in ToSet(b.irr[l]) :
                                                    x[1] = y[1] => Near(x[2], y[2], 12) /\ Near(x[3], y[3], 12)) >> >>
      [] a.e = "summary" ->
         << << "C14.totals", a.odd = b.odd /\ a.nk = b.nk >>,
            << "C14.gaps", Near(a.gd, b.gd, 3) /\ Near(a.gi, b.gi, 3) >>,
            << "C14.fermi", Near(a.ef, b.ef, 2) >> >>
      [] OTHER -> << >>

\* C14 runs hold the events of one code after the other; "code" starts the next one
CodeStep ==
    /\ Ev.e = "code"
    /\ phase' = "start"
    /\ acc' = [Acc0 EXCEPT !.first = pos + 1, !.gpos = 0]
    /\ bad' = bad

CompareStep ==
    /\ Is("C14") /\ Ev.e \in {"group", "kpoint", "summary"}
    /\ phase' = "ready"
    /\ acc' = IF Ev.e = "group" THEN [acc EXCEPT !.gpos = pos + 1] ELSE acc
    /\ LET off == pos + 1 - acc.first           \* position within the code's events
           base == Runs[run].ev[1 + off]        \* the same event of the first code
       IN  bad' = bad \union
             (IF Runs[run].ev[1 + off].e # Ev.e THEN { "C14.events" }
              ELSE Clauses(SameCode(base, Ev, Runs[run].ev[2], IF Ev.e = "group" THEN Ev ELSE Group))) \union
             \* the first code is checked against the model itself
             (IF acc.first = 1 /\ Ev.e = "kpoint"
              THEN Clauses(C10(Ev, In.ks[KSel[off - 1]])) ELSE {})

Next ==
    /\ pos < Len(Runs[run].ev)
    /\ pos' = pos + 1
    /\ run' = run
    /\ IF Is("C14") /\ Ev.e # "error" THEN CodeStep \/ CompareStep
       ELSE \/ GroupStep \/ KPointStep \/ SummaryStep
            \/ ListStep \/ ErrorStep \/ AcceptedStep
    /\ IF pos + 1 = Len(Runs[run].ev) /\ (bad' # {} \/ phase' \notin {"done", "failed", "ready"})
       THEN PrintT(<< "BAD", Runs[run].id, bad' >>) ELSE TRUE

Spec == Init /\ [][Next]_vars

TypeOK == /\ pos \in 0..Len(Runs[run].ev)
          /\ phase \in {"start", "ready", "done", "failed"}
          /\ acc.k >= 0 /\ acc.odd >= 0
\* totals only grow with the k points consumed
GapsOrdered == (phase = "done" /\ ~Is("C14") /\ acc.minup # BIG /\ acc.dir # BIG) => GapInd <= acc.dir
=============================================================================
