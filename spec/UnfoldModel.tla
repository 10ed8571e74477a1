------------------------------ MODULE UnfoldModel ------------------------------
(***************************************************************************)
(* Supercells are built row by row.  Checked for those of one to MaxD      *)
(* primitive cells: as many primitive k points fold onto a supercell k     *)
(* point as there are primitive cells in the supercell, and each plane     *)
(* wave of the supercell belongs to exactly one of them, the one it was    *)
(* made of.  The supercells are the scenarios replayed into the program.   *)
(***************************************************************************)
EXTENDS Unfolding, TLC, TLCExt, CSV, IOUtils, Json

Emit == IOEnv.EMIT
Mod == atoi(IOEnv.MOD)
Seed == atoi(IOEnv.SEED)
MaxD == atoi(IOEnv.MAXD)
Rows == { << a, b, c >> : a, b, c \in -1..2 }
VARIABLES rows, K
vars == << rows, K >>
Ks == { <<0, 0, 0>>, <<12, 0, 8>>, <<5, -7, 31>> }

Init == rows = << >> /\ K \in Ks
AddRow == /\ Len(rows) < 3
          /\ \E r \in Rows : /\ rows' = Append(rows, r)
                             /\ K' = K
                             /\ Len(rows) = 2 => TLCFP(<< rows', K, Seed >>) % Mod = 0
Spec == Init /\ [][AddRow]_vars

Complete == Len(rows) = 3 /\ Det(rows) # 0 /\ Abs(Det(rows)) <= MaxD
Cube(n) == { << a, b, c >> : a, b, c \in 0..n - 1 }
\* made of the supercell's reciprocal lattice vectors
Makers(M) == Cube(Abs(Det(M)))
Points(M) == { Class(Prim(VAdd(VScale(24, G), K), M), M) : G \in Makers(M) }
AsManyAsCells == Complete => Cardinality(Points(rows)) = Abs(Det(rows))
AllFold == Complete => \A p \in Points(rows) : Folds(p, K, rows)
BelongsToOne == Complete => \A P \in {Points(rows)} :
                            \A G \in Makers(rows) : \A p \in P : Belongs(G, p, K, rows) <=> p = Class(Prim(VAdd(VScale(24, G), K), rows), rows)
\* no other k point folds: the classes of the half-way points do not
NoOthers == Complete => \A p \in Points(rows) : ~Folds(VAdd(p, <<1, 0, 0>>), K, rows) \/ Class(VAdd(p, <<1, 0, 0>>), rows) \in Points(rows)
Emitted == IF Emit # "" /\ Complete THEN CSVWrite("%1$s", << ToJson([M |-> rows, K |-> K]) >>, Emit) ELSE TRUE
=============================================================================
