-------------------------------- MODULE Unfolding --------------------------------
(***************************************************************************)
(* Supercells and the k points of the primitive zone that fold onto one k  *)
(* point of the zone of the supercell, in integers.                        *)
(*                                                                         *)
(*   M       rows: lattice vectors of the supercell in primitive ones      *)
(*   K       k point of the supercell zone, in 1/24                        *)
(*   p       k point of the primitive zone, in 1/(24 det M)                *)
(*   G       integer vector: plane wave K + G of the supercell             *)
(*                                                                         *)
(* A primitive reciprocal vector q has supercell coordinates q M^T.        *)
(***************************************************************************)
EXTENDS Num

DetM(M) == Det(M)
\* primitive coordinates of supercell coordinates x, times det M
Prim(x, M) == VM(x, Adj(Transp(M)))
\* p folds onto K: p M^T - K is an integer vector   (p in 1/(24 D), K in 1/24)
Folds(p, K, M) == LET D == Det(M)
                      v == VSub(VM(p, Transp(M)), VScale(D, K))
                  IN  \A c \in 1..3 : v[c] % (24 * Abs(D)) = 0
\* plane wave K + G belongs to p: its primitive coordinates differ from p by an integer vector
Belongs(G, p, K, M) == LET D == Det(M)
                           v == VSub(Prim(VAdd(VScale(24, G), K), M), p)
                       IN  \A c \in 1..3 : v[c] % (24 * Abs(D)) = 0
\* the class of p modulo primitive reciprocal lattice vectors
Class(p, M) == VMod(p, 24 * Abs(Det(M)))
=============================================================================
