------------------------------ MODULE Crystal ------------------------------
(***************************************************************************)
(* The symmetry group of a crystal, from first principles.                 *)
(*                                                                         *)
(* A crystal is a record                                                   *)
(*   gstar : integer metric of the reciprocal lattice (any common factor)  *)
(*   pos   : atomic positions on the grid 1/240 of the cell                *)
(*   typ   : species of each atom                                          *)
(* An operation is << R, t >>: x -> R x + t, R an integer matrix in the    *)
(* lattice basis, t on the grid 1/240 modulo 240.                          *)
(***************************************************************************)
EXTENDS Num

\* metric of the direct lattice, up to the factor Det(gstar)
DirectMetric(cr) == Adj(cr.gstar)

\* integer vectors of squared length len: |v_i|^2 <= len * (g^-1)_ii
VectorsOfLength(g, gstar, len) ==
    LET d == Det(gstar)
        \* g = Adj(gstar) = d * inverse(gstar), so inverse(g) = gstar / d
        Bound(i) == CHOOSE b \in 0..20 : /\ (b + 1) * (b + 1) * d > len * gstar[i][i]
                                         /\ b * b * d <= len * gstar[i][i]
    IN  { v \in ((-Bound(1)..Bound(1)) \X (-Bound(2)..Bound(2)) \X (-Bound(3)..Bound(3))) :
              Dot(v, MV(g, v)) = len }

\* the point group of the lattice: integer matrices R with R^T g R = g
Holohedry(cr) ==
    LET g == DirectMetric(cr)
        V1 == VectorsOfLength(g, cr.gstar, g[1][1])
        V2 == IF g[2][2] = g[1][1] THEN V1 ELSE VectorsOfLength(g, cr.gstar, g[2][2])
        V3 == IF g[3][3] = g[2][2] THEN V2
              ELSE IF g[3][3] = g[1][1] THEN V1 ELSE VectorsOfLength(g, cr.gstar, g[3][3])
        Pairs == { p \in V1 \X V2 : Dot(p[1], MV(g, p[2])) = g[1][2] }
    IN  { Transp(<< q[1][1], q[1][2], q[2] >>) :
            q \in { x \in Pairs \X V3 : /\ Dot(x[1][1], MV(g, x[2])) = g[1][3]
                                        /\ Dot(x[1][2], MV(g, x[2])) = g[2][3] } }

SymOps(cr) ==
    LET n == Len(cr.pos)
        atoms == { << cr.pos[i][1], cr.pos[i][2], cr.pos[i][3], cr.typ[i] >> : i \in 1..n }
        Image(R, t, a) == LET w == MV(R, << a[1], a[2], a[3] >>)
                          IN  << (w[1] + t[1]) % 240, (w[2] + t[2]) % 240, (w[3] + t[3]) % 240, a[4] >>
        Count(s) == Cardinality({ i \in 1..n : cr.typ[i] = s })
        rare == CHOOSE s \in { cr.typ[i] : i \in 1..n } :
                    \A r \in { cr.typ[i] : i \in 1..n } : Count(s) <= Count(r)
        base == CHOOSE a \in atoms : a[4] = rare
        rares == { a \in atoms : a[4] = rare }
        Trans(R) == { t \in { VMod(VSub(<< a[1], a[2], a[3] >>, MV(R, << base[1], base[2], base[3] >>)), 240) : a \in rares } :
                        \A a \in atoms : Image(R, t, a) \in atoms }
    IN  UNION { { << R, t >> : t \in Trans(R) } : R \in Holohedry(cr) }

\* lattice translations of the crystal inside the cell given (1 for a primitive cell)
PureTranslations(ops) == { o[2] : o \in { x \in ops : x[1] = Id3 } }

-----------------------------------------------------------------------------
(* reciprocal space; k on the grid 1/24 *)

\* the operation takes q to R^{-T} q
RecRot(R) == Transp(InvU(R))
\* (k on the grid 1/den)
LittleGroupOn(den, R, k) == VMod(VSub(MV(RecRot(R), k), k), den) = << 0, 0, 0 >>
InLittleGroup(R, k24) == LittleGroupOn(24, R, k24)
\* kinetic energy of the plane wave q = 24 (k + G), up to a constant factor
QForm(gstar, q) == Dot(q, MV(gstar, q))

\* all plane waves q = 24 (k+G) with 2 QForm(q) < q2cut
Sphere(gstar, k24, q2cut) ==
    LET d == Det(gstar)
        gi == Adj(gstar)        \* d * inverse(gstar)
        \* (k+G)_i^2 <= QForm / 576 * inverse(gstar)_ii
        lim(i) == (q2cut \div 1152 + 1) * gi[i][i]
        Bound(i) == CHOOSE b \in 0..60 : /\ (b + 1) * (b + 1) * d > lim(i)
                                         /\ b * b * d <= lim(i)
        Rng(i) == (-Bound(i) - k24[i] \div 24 - 1)..(Bound(i) - k24[i] \div 24 + 1)
    IN  { q \in { VAdd(VScale(24, G), k24) : G \in Rng(1) \X Rng(2) \X Rng(3) } : 2 * QForm(gstar, q) < q2cut }
=============================================================================
