---------------------------- MODULE TableCheck ----------------------------
(***************************************************************************)
(* The tables of irreps, as the program reads them (C05).                  *)
(*                                                                         *)
(* A run is one table: event "table" (the operations), then one event      *)
(* "kpoint" per k point (little group, irreps, characters), in the order   *)
(* of the file, then possibly "reread" events (lines written by the        *)
(* program and parsed again) and "end".                                    *)
(* In.ops, In.kps: the file, read independently of the program.            *)
(*                                                                         *)
(* The state keeps the multiplication table computed from the operations:  *)
(* mul[a][b] the index of the product modulo lattice translations,         *)
(* lat[a][b] the lattice translation left over (1/24), eps[a][b] the sign  *)
(* of S_a S_b = eps S_ab.  The representation matrices of the little group *)
(* at k multiply as                                                        *)
(*     D(a) D(b) = eps exp(-2 pi i k.lat) D(ab)                            *)
(* (Bloch functions get exp(-ik.t) under a translation t, as in Bloch.tla) *)
(* and the characters of an irreducible D obey, with b' = c b c^-1,        *)
(*     |G|/d chi(a) chi(b) = Sum_c  phi(c,b) w(a,b') chi(a b')             *)
(***************************************************************************)
EXTENDS Num, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
Focus == IOEnv.FOCUS

VARIABLES run, pos, phase, mul, lat, eps, nk, bad
vars == << run, pos, phase, mul, lat, eps, nk, bad >>

In == Runs[run].in
Ev == Runs[run].ev[pos + 1]
N == Len(In.ops)

\* pure translations of the lattice, 1/24 of the conventional cell
Centring(letter) ==
    CASE letter = "P" -> { << 0, 0, 0 >> }
      [] letter = "C" -> { << 0, 0, 0 >>, << 12, 12, 0 >> }
      [] letter = "A" -> { << 0, 0, 0 >>, << 0, 12, 12 >> }
      [] letter = "I" -> { << 0, 0, 0 >>, << 12, 12, 12 >> }
      [] letter = "F" -> { << 0, 0, 0 >>, << 0, 12, 12 >>, << 12, 0, 12 >>, << 12, 12, 0 >> }
      [] letter = "R" -> { << 0, 0, 0 >>, << 16, 8, 8 >>, << 8, 16, 16 >> }
IsLattice(v) == VMod(v, 24) \in Centring(In.letter)
\* reciprocal lattice vectors of that lattice, in 1/24 of the conventional reciprocal cell
IsReciprocal(q) == /\ VMod(q, 24) = << 0, 0, 0 >>
                   /\ \A c \in Centring(In.letter) : (Dot(q, c) \div 24) % 24 = 0

\* operations as the program read them
Ops == Runs[run].ev[1].ops

\* product of operations i and j
Prod(o, p) == [R |-> MM(o.R, p.R), t |-> VAdd(MV(o.R, p.t), o.t)]
IsProd(i, j, k) == LET x == Prod(Ops[i], Ops[j])
                   IN  Ops[k].R = x.R /\ IsLattice(VSub(x.t, Ops[k].t))
Closed == \A i, j \in 1..Len(Ops) : \E k \in 1..Len(Ops) : IsProd(i, j, k)
\* S_i S_j = +- S_k
SpinSign(i, j, k) == LET A == M2Mul(Ops[i].S, Ops[j].S)
                     IN  IF M2Near(A, Ops[k].S, 15) THEN 1 ELSE IF M2Near(A, M2Neg(Ops[k].S), 15) THEN -1 ELSE 0
Unimodular(S) == LET d == CSub(CMul(S[1][1], S[2][2]), CMul(S[1][2], S[2][1])) IN CNear(d, COne, 12)
UnitaryS(S) == M2Near(M2Mul(S, << << CConj(S[1][1]), CConj(S[2][1]) >>, << CConj(S[1][2]), CConj(S[2][2]) >> >>),
                      << << COne, CZero >>, << CZero, COne >> >>, 12)

TableClauses(e) ==
    << << "C05.header", e.num = In.num /\ e.nsym = N /\ Len(e.ops) = N /\ e.spinor = In.spinor /\ e.name = In.name >>,
       << "C05.operations_of_file", \A i \in 1..Mn(N, Len(e.ops)) : e.ops[i].R = In.ops[i].R /\ e.ops[i].t = In.ops[i].t >>,
       << "C05.spinor_matrices_of_file", \A i \in 1..Mn(N, Len(e.ops)) : M2Near(e.ops[i].S, In.ops[i].S, 1) >>,
       << "C05.each_operation_once", \A i, j \in DOMAIN e.ops : i = j \/ e.ops[i].R # e.ops[j].R >>,
       << "C05.identity_first", e.ops[1].R = Id3 /\ e.ops[1].t = << 0, 0, 0 >> >>,
       << "C05.closed", Closed >>,
       << "C05.spinor_unitary", \A i \in DOMAIN e.ops : Unimodular(e.ops[i].S) /\ UnitaryS(e.ops[i].S) >>,
       << "C05.no_spin_no_matrix", In.spinor \/ \A i \in DOMAIN e.ops : M2Near(e.ops[i].S, << << COne, CZero >>, << CZero, COne >> >>, 0) >> >>
SpinClauses == << << "C05.spinor_matrices_multiply", \A i, j \in 1..N : eps'[i][j] # 0 >> >>

-----------------------------------------------------------------------------
(* a k point *)

\* phase (1/576) with which D(i) D(j) = w D(ij)
W(k, i, j) == (IF eps[i][j] = -1 THEN 288 ELSE 0) - Dot(k, lat[i][j])

CMulPhase(n, z) == CMul(Phase(n), z)

KClauses(e, f) ==        \* f: the k point of the file
    LET G == e.isym
        n == Len(G)
        at == TLCEval([i \in 1..N |-> IF \E p \in 1..n : G[p] = i THEN CHOOSE p \in 1..n : G[p] = i ELSE 0])
        full == TLCEval({ i \in 1..N : IsReciprocal(VSub(MV(Transp(InvU(Ops[i].R)), e.k), e.k)) })
        rightgroup == { G[i] : i \in 1..n } = full /\ Cardinality(full) = n
        irr == e.irr
        Ch(r, i) == irr[r].ch[at[i]]            \* character of operation i
        Inner(r, s) == CSumSeq([p \in 1..n |-> CMul(irr[r].ch[p], CConj(irr[s].ch[p]))])
        shape == \A r \in DOMAIN irr : Len(irr[r].ch) = n
        \* for a, b: |G| chi(a) chi(b) = d Sum_c ...
        Law(r, a, b) ==
            LET inv == TLCEval([c \in 1..N |-> CHOOSE x \in 1..N : mul[c][x] = 1])
                Term(c) == LET cb == mul[c][b]
                               b1 == mul[cb][inv[c]]            \* c b c^-1
                           IN  CMulPhase(W(e.k, c, b) - W(e.k, b1, c) + W(e.k, a, b1), Ch(r, mul[a][b1]))
                s == CSumOver(full, Term)
            IN  CNear(CScale(n, CMul(Ch(r, a), Ch(r, b))), CScale(irr[r].dim, s), n * irr[r].dim * (8 + 4 * irr[r].dim))
        As == { i \in full : In.astep = 1 \/ n <= 16 \/ (at[i] % In.astep) = 1 \/ at[i] <= 3 }
    IN << << "C05.kpoint_of_file", e.name = f.name /\ e.k = f.k >>,
          << "C05.little_group_of_file", G = f.isym >>,
          << "C05.irreps_of_file", Len(irr) = Len(f.irr) /\ \A r \in 1..Mn(Len(irr), Len(f.irr)) :
                irr[r].name = f.irr[r].name /\ irr[r].dim = f.irr[r].dim >>,
          << "C05.characters_of_file", shape /\ \A r \in 1..Mn(Len(irr), Len(f.irr)) : Len(f.irr[r].ch) = n /\ \A p \in 1..n : CNear(irr[r].ch[p], f.irr[r].ch[p], 1) >>,
          << "C05.names_differ", Cardinality({ irr[r].name : r \in DOMAIN irr }) = Len(irr) >>,
          << "C05.full_little_group", rightgroup >>,
          << "C05.dimension_is_character_of_identity", (rightgroup /\ shape) => \A r \in DOMAIN irr : CNear(Ch(r, 1), << One * irr[r].dim, 0 >>, 2) >>,
          << "C05.complete", SumSeq([r \in DOMAIN irr |-> irr[r].dim * irr[r].dim]) = n >> >>
       \o (IF ~shape THEN << >> ELSE
           << << "C05.orthonormal", \A r, s \in DOMAIN irr : r <= s =>
                 CNear(Inner(r, s), << IF r = s THEN n * One ELSE 0, 0 >>, n * (4 + 4 * irr[r].dim + 4 * irr[s].dim)) >> >>)
       \o (IF ~(shape /\ rightgroup /\ phase = "group") THEN << >> ELSE
           [r \in DOMAIN irr |-> << "C05.multiplication:" \o e.name \o ":" \o irr[r].name,
                 \A a \in As : \A b \in full : Law(r, a, b) >>])

-----------------------------------------------------------------------------
Init == run \in DOMAIN Runs /\ pos = 0 /\ phase = "start" /\ mul = << >> /\ lat = << >> /\ eps = << >> /\ nk = 0 /\ bad = {}

TableStep ==
    /\ Ev.e = "table"
    /\ nk' = 0
    /\ LET c == Failing(TableClauses(Ev))
           good == Len(Ev.ops) = N /\ Closed
           M == IF good THEN [i \in 1..N |-> [j \in 1..N |-> CHOOSE k \in 1..N : IsProd(i, j, k)]] ELSE << >>
       IN  /\ mul' = M
           /\ lat' = IF good THEN [i \in 1..N |-> [j \in 1..N |-> VSub(Prod(Ops[i], Ops[j]).t, Ops[mul'[i][j]].t)]] ELSE << >>
           /\ eps' = IF ~good THEN << >> ELSE [i \in 1..N |-> [j \in 1..N |-> IF In.spinor THEN SpinSign(i, j, mul'[i][j]) ELSE 1]]
           /\ phase' = IF good THEN "group" ELSE "nogroup"
           /\ bad' = bad \union c \union (IF good THEN Failing(SpinClauses) ELSE {})

KPointStep ==
    /\ Ev.e = "kpoint"
    /\ nk' = nk + 1
    /\ UNCHANGED << phase, mul, lat, eps >>
    /\ bad' = bad \union (IF nk + 1 > Len(In.kps) \/ phase = "start" THEN { "C05.kpoints" } ELSE Failing(KClauses(Ev, In.kps[nk + 1])))

\* a line written by the program and parsed again; the same table spelled differently
RereadStep ==
    /\ Ev.e = "reread"
    /\ UNCHANGED << phase, mul, lat, eps, nk >>
    /\ bad' = bad \union Failing(<< << "C05.written_and_read_again", Ev.same >> >>)

EndStep ==
    /\ Ev.e = "end"
    /\ phase' = "done"
    /\ UNCHANGED << mul, lat, eps, nk >>
    /\ bad' = bad \union Failing(<< << "C05.kpoints", nk = Len(In.kps) >> >>)

\* a table file whose header contradicts the request
RefuseStep ==
    /\ Ev.e = "error"
    /\ phase' = "done"
    /\ UNCHANGED << mul, lat, eps, nk >>
    /\ bad' = bad \union (IF In.refuse THEN {} ELSE { "C05.error_" \o Ev.type })

Next == /\ pos < Len(Runs[run].ev)
        /\ pos' = pos + 1
        /\ run' = run
        /\ TableStep \/ KPointStep \/ RereadStep \/ EndStep \/ RefuseStep
        /\ LET last == pos + 1 = Len(Runs[run].ev)
               b == bad' \union (IF last /\ phase' # "done" THEN { "C05.incomplete" } ELSE {})
                         \union (IF last /\ In.refuse /\ Ev.e # "error" THEN { "C05.contradiction_accepted" } ELSE {})
           IN  IF last /\ b # {} THEN PrintT(<< "BAD", Runs[run].id, b >>) ELSE TRUE
Spec == Init /\ [][Next]_vars
TypeOK == nk >= 0 /\ phase \in {"start", "group", "nogroup", "done"}
=============================================================================
