------------------------------ MODULE Separation ------------------------------
(***************************************************************************)
(* Separation of a band structure by the eigenvalues of symmetry           *)
(* operations, one after the other.                                        *)
(*                                                                         *)
(*   start --group--> group --kpoint*--> --step*--> separated --doc?--screen?--end  *)
(*                                                                         *)
(* kpoint: the states before separation (coefficients of the plane waves)  *)
(* step:   an operation, with or without grouping of Kramers pairs, and    *)
(*         the subspaces after it: a key (the eigenvalues of the           *)
(*         operations so far) and the states of every k point              *)
(* doc:    what the JSON output says of the subspaces                      *)
(*                                                                         *)
(* Operations act on states as in Bloch.tla:                               *)
(*   ({R|t} psi)(R^{-T} q) = exp(-2 pi i R^{-T}q . t) S psi(q)             *)
(***************************************************************************)
EXTENDS Crystal, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
VARIABLES run, pos, ops, nk, parts, keys, phase, bad
vars == << run, pos, ops, nk, parts, keys, phase, bad >>
In == Runs[run].in
Ev == Runs[run].ev[pos + 1]
\* k points are the events 2 .. nk + 1
K(ik) == Runs[run].ev[ik + 1]
NS == IF In.spinor THEN 2 ELSE 1

Op(ops_, i) == ops_[CHOOSE j \in DOMAIN ops_ : ops_[j].ind = i]
T24(o) == [c \in 1..3 |-> RDiv(o.t[c], 1000)]

\* the plane wave that goes to the j-th one, and the phase it takes on the way; 0: none does
From(o, ik) ==
    LET k == In.ks[ik].k24
        G == K(ik).G
        at == [g \in { << G[i][1], G[i][2], G[i][3] >> : i \in DOMAIN G } |-> CHOOSE i \in DOMAIN G : << G[i][1], G[i][2], G[i][3] >> = g]
        RT == Transp(o.R)
    IN  [j \in DOMAIN G |->
            LET q == VSub(MV(RT, VAdd(VScale(24, G[j]), k)), k)
                g == << q[1] \div 24, q[2] \div 24, q[3] \div 24 >>
            IN  IF VMod(q, 24) = << 0, 0, 0 >> /\ g \in DOMAIN at THEN at[g] ELSE 0]
Ph(o, ik, j) == Phase(-Dot(VAdd(VScale(24, K(ik).G[j]), In.ks[ik].k24), T24(o)))

\* the image of a state: psi[s][i] (s = spin, i = plane wave)
Image(o, ik, from, psi) ==
    [s \in 1..NS |-> [j \in DOMAIN from |->
        LET i == from[j]
            x == IF i = 0 THEN CZero ELSE IF NS = 1 THEN psi[1][i] ELSE CAdd(CMul(o.S[s][1], psi[1][i]), CMul(o.S[s][2], psi[2][i]))
        IN  CMul(Ph(o, ik, j), x)]]
\* the image under the inverse operation
Back(o, ik, from, psi) ==
    LET to == TLCEval([i \in DOMAIN from |-> LET h == { j \in DOMAIN from : from[j] = i } IN IF h = {} THEN 0 ELSE CHOOSE j \in h : TRUE])
    IN  [s \in 1..NS |-> [i \in DOMAIN to |->
            LET j == to[i]
                c == IF j = 0 THEN CZero ELSE CConj(Ph(o, ik, j))
                x == IF j = 0 THEN CZero ELSE IF NS = 1 THEN psi[1][j] ELSE CAdd(CMul(CConj(o.S[1][s]), psi[1][j]), CMul(CConj(o.S[2][s]), psi[2][j]))
            IN  CMul(c, x)]]

Inner(a, b) == CSumSeq([s \in 1..NS |-> CSumSeq([i \in DOMAIN a[s] |-> CMul(CConj(a[s][i]), b[s][i])])])
Near2(a, b, tol) == \A s \in 1..NS : \A i \in DOMAIN a[s] : CNear(a[s][i], b[s][i], tol)
AbsSq(z) == MulFx(z[1], z[1]) + MulFx(z[2], z[2])

-----------------------------------------------------------------------------
(* eigenvalues an operation can have, in units of 1/6912 of a turn *)
RECURSIVE Power(_, _)
\* o^n as a record R, t (on the grid 1/24, not reduced), S
Times(a, b) == [R |-> MM(a.R, b.R), t |-> VAdd(MV(a.R, b.t), a.t), S |-> M2Mul(a.S, b.S)]
Power(o, n) == IF n = 1 THEN o ELSE Times(Power(o, n - 1), o)
Lift(o) == [R |-> o.R, t |-> T24(o), S |-> o.S]
OrderOf(o) == CHOOSE n \in {1, 2, 3, 4, 6} : Power(Lift(o), n).R = Id3 /\ \A m \in 1..n - 1 : Power(Lift(o), m).R # Id3
Angles(o, ik) ==
    LET n == OrderOf(o)
        p == Power(Lift(o), n)
        base == (-Dot(In.ks[ik].k24, p.t) + IF In.spinor /\ p.S[1][1][1] < 0 THEN 288 ELSE 0) % 576
    IN  { (base * (12 \div n) + m * (6912 \div n)) % 6912 : m \in 0..n - 1 }
CosA(a) == Cos576(RDiv(a, 12))
Far(a, b, kr) == IF kr THEN \/ a = b \/ (a + b) % 6912 = 0 \/ Abs(CosA(a) - CosA(b)) > 13000
                 ELSE a = b \/ LET d == (a - b) % 6912 IN d > 143 /\ d < 6912 - 143
Separable(o, kr, n) == LET A == TLCEval(UNION { Angles(o, ik) : ik \in 1..n }) IN \A a, b \in A : Far(a, b, kr)
Commute(a, b, n) ==
    LET ab == Times(Lift(a), Lift(b))
        ba == Times(Lift(b), Lift(a))
        d == VSub(ab.t, ba.t)
    IN  /\ ab.R = ba.R /\ (In.spinor => M2Near(ab.S, ba.S, 20)) /\ VMod(d, 24) = << 0, 0, 0 >>
        /\ \A ik \in 1..n : Dot(d, In.ks[ik].k24) % 576 = 0
Fixes(o, n) == \A ik \in 1..n : LittleGroupOn(24, o.R, In.ks[ik].k24)
Judged(o, kr, before, ops_, n) ==
    Fixes(o, n) /\ Separable(o, kr, n) /\ \A i \in DOMAIN before : Commute(o, Op(ops_, before[i]), n)

-----------------------------------------------------------------------------
At(p, ik) == LET h == { i \in DOMAIN p.kps : p.kps[i].ik = ik } IN IF h = {} THEN << >> ELSE p.kps[CHOOSE i \in h : TRUE].C
Energies(p, ik) == LET h == { i \in DOMAIN p.kps : p.kps[i].ik = ik } IN IF h = {} THEN << >> ELSE p.kps[CHOOSE i \in h : TRUE].E
\* all states of the k point, part after part
AllOf(ps, ik) == FoldLeft(LAMBDA a, p : a \o At(p, ik), << >>, ps)
Level(e, n) == CHOOSE l \in DOMAIN e.deg : SumSeq([i \in 1..l |-> e.deg[i]]) >= n /\ SumSeq([i \in 1..l - 1 |-> e.deg[i]]) < n
First(e, l) == 1 + SumSeq([i \in 1..l - 1 |-> e.deg[i]])
InSpan(states, psi) == Near(SumSeq([i \in DOMAIN states |-> AbsSq(Inner(states[i], psi))]), One, 300)
Prefix(p) == SubSeq(p.key, 1, Len(p.key) - 1)
KeyNear(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : CNear(a[i], b[i], 1)

Eigen(o, kr, ik, p) ==
    LET from == TLCEval(From(o, ik))
        lam == p.key[Len(p.key)]
    IN  \A n \in DOMAIN At(p, ik) :
            LET psi == At(p, ik)[n]
                img == Image(o, ik, from, psi)
            IN  IF ~kr THEN Near2(img, [s \in 1..NS |-> [i \in DOMAIN psi[s] |-> CMul(lam, psi[s][i])]], 300)
                ELSE LET inv == TLCEval(Back(o, ik, from, psi))
                     IN  Near2([s \in 1..NS |-> [i \in DOMAIN psi[s] |-> CAdd(img[s][i], inv[s][i])]],
                               [s \in 1..NS |-> [i \in DOMAIN psi[s] |-> CScale(2, << MulFx(lam[1], psi[s][i][1]), MulFx(lam[1], psi[s][i][2]) >>)]], 400)

LevelStates(ik, l) == [i \in 1..K(ik).deg[l] |-> K(ik).C[First(K(ik), l) + i - 1]]
\* a state is printed with what is known of the level it comes from
RowNear(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : CNear(a[i], b[i], 2)
LabelNear(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i][1] = b[i][1] /\ Near(a[i][2], b[i][2], 2) /\ Near(a[i][3], b[i][3], 2)
Carries(p, m, k, l) == RowNear(p.ch[m], k.ch[l]) /\ RowNear(p.chr[m], k.chr[l]) /\ LabelNear(p.irr[m], k.irr[l])

StepClauses(e, o, old) ==
    LET new == e.parts
        n == nk
    IN  << << "C19.eigenstates", \A x \in DOMAIN new : \A ik \in 1..n : Eigen(o, e.kr, ik, new[x]) >>,
           << "C19.distinct", \A x, y \in DOMAIN new : (x # y /\ KeyNear(Prefix(new[x]), Prefix(new[y]))) =>
                  LET a == new[x].key[Len(new[x].key)]
                      b == new[y].key[Len(new[y].key)]
                  IN  Abs(a[1] - b[1]) > 5000 \/ (~e.kr /\ Abs(a[2] - b[2]) > 5000) >>,
           << "C19.complete", \A ik \in 1..n : Len(AllOf(new, ik)) = K(ik).nb >>,
           << "C19.orthonormal", \A ik \in 1..n : LET s == TLCEval(AllOf(new, ik)) IN
                  \A a, b \in DOMAIN s : a <= b => CNear(Inner(s[a], s[b]), IF a = b THEN COne ELSE CZero, 300) >>,
           << "C19.level", \A x \in DOMAIN new : \A ik \in 1..n : \A m \in DOMAIN At(new[x], ik) :
                  \E l \in DOMAIN K(ik).deg : /\ Near(Energies(new[x], ik)[m], K(ik).em[l], 2)
                                              /\ InSpan([i \in 1..K(ik).deg[l] |-> K(ik).C[First(K(ik), l) + i - 1]], At(new[x], ik)[m]) >>,
           << "C19.characters", \A x \in DOMAIN new : \A j \in DOMAIN new[x].kps : LET p == new[x].kps[j] IN
                  /\ Len(p.ch) = Len(p.E) /\ Len(p.chr) = Len(p.E) /\ Len(p.irr) = Len(p.E) /\ Len(p.C) = Len(p.E)
                  /\ \A m \in DOMAIN p.E : \E l \in DOMAIN K(p.ik).deg : Carries(p, m, K(p.ik), l) /\ InSpan(LevelStates(p.ik, l), p.C[m]) >>,
           << "C19.ascending", \A x \in DOMAIN new : \A ik \in 1..n : LET E == Energies(new[x], ik) IN \A m \in 1..Len(E) - 1 : E[m] <= E[m + 1] >>,
           << "C19.kpoints", \A x \in DOMAIN new : \A i, j \in DOMAIN new[x].kps : i < j => new[x].kps[i].ik < new[x].kps[j].ik >>,
           << "C19.refines", old # << >> => \A x \in DOMAIN new : \E y \in DOMAIN old : KeyNear(Prefix(new[x]), old[y].key) >>,
           << "C19.refined", old # << >> => \A y \in DOMAIN old : LET mine == SelectSeq(new, LAMBDA p : KeyNear(Prefix(p), old[y].key)) IN
                  \A ik \in 1..n : LET s == AllOf(mine, ik) IN
                      Len(s) = Len(At(old[y], ik)) /\ \A m \in DOMAIN s : InSpan(At(old[y], ik), s[m]) >> >>

KeyNear2(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : CNear(a[i], b[i], 100)
SeqNear(a, b, tol) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Near(a[j], b[j], tol)
SameSpectrum(d, p, tol) == Len(d.kps) = Len(p.kps) /\ \A i \in DOMAIN p.kps : SeqNear(d.kps[i].E, p.kps[i].E, tol)
\* characters and irreps of the states, as written
Written(d, p, tol) ==
    /\ Len(d.kps) = Len(p.kps)
    /\ \A i \in DOMAIN p.kps :
        LET a == d.kps[i]
            b == p.kps[i]
            Rows(x, y) == Len(x) = Len(y) /\ \A m \in DOMAIN y : Len(x[m]) = Len(y[m]) /\ \A c \in DOMAIN y[m] : CNear(x[m][c], y[m][c], tol)
        IN  /\ Rows(a.ch, b.ch) /\ Rows(a.chr, b.chr)
            /\ Len(a.irr) = Len(b.irr) /\ \A m \in DOMAIN b.irr : LET u == a.irr[m] v == b.irr[m] IN
                   Len(u) = Len(v) /\ \A c \in DOMAIN v : u[c][1] = v[c][1] /\ Near(u[c][2], v[c][2], 3) /\ Near(u[c][3], v[c][3], 3)
DocClauses(e, cur) ==
    << << "C19.doc_steps", e.syms = keys >>,
       << "C19.doc_subspaces", Len(e.parts) = Len(cur) >>,
       << "C19.doc_eigenvalues", \A x \in DOMAIN cur : \E y \in DOMAIN e.parts : KeyNear2(e.parts[y].key, cur[x].key) /\ SameSpectrum(e.parts[y], cur[x], 2) >>,
       << "C19.doc_characters", \A x \in DOMAIN cur : \E y \in DOMAIN e.parts : KeyNear2(e.parts[y].key, cur[x].key) /\ Written(e.parts[y], cur[x], 3) >> >>
\* what is printed of each subspace
ScreenClauses(e, cur) ==
    << << "C19.printed_subspaces", Len(e.parts) = Len(cur) /\ \A y \in DOMAIN e.parts : e.parts[y].syms = keys >>,
       << "C19.printed_eigenvalues", \A x \in DOMAIN cur : \E y \in DOMAIN e.parts : KeyNear2(e.parts[y].key, cur[x].key) /\ SameSpectrum(e.parts[y], cur[x], 60) >>,
       << "C19.printed_states", \A y \in DOMAIN e.parts : \A i \in DOMAIN e.parts[y].kps : e.parts[y].kps[i].nb = Len(e.parts[y].kps[i].E) >>,
       << "C19.printed_kpoints", \A x \in DOMAIN cur : \E y \in DOMAIN e.parts : KeyNear2(e.parts[y].key, cur[x].key)
              /\ Len(e.parts[y].kps) = Len(cur[x].kps) /\ \A i \in DOMAIN cur[x].kps : VNear(e.parts[y].kps[i].k, VScale(1000, In.ks[cur[x].kps[i].ik].k24), 3) >>,
       << "C19.printed_characters", \A x \in DOMAIN cur : \E y \in DOMAIN e.parts : KeyNear2(e.parts[y].key, cur[x].key) /\ Written(e.parts[y], cur[x], 14) >> >>
-----------------------------------------------------------------------------
Init == run \in DOMAIN Runs /\ pos = 0 /\ ops = << >> /\ nk = 0 /\ parts = << >> /\ keys = << >> /\ phase = "start" /\ bad = {}

Group == /\ Ev.e = "group" /\ phase = "start" /\ phase' = "group" /\ ops' = Ev.ops
         /\ UNCHANGED << nk, parts, keys, bad >>
KPoint == /\ Ev.e = "kpoint" /\ phase = "group" /\ nk' = nk + 1
          /\ UNCHANGED << ops, parts, keys, phase >>
          /\ bad' = bad \union Failing(<< << "H.k", VNear(Ev.k, VScale(1000, In.ks[nk + 1].k24), 2) >>, << "H.coefficients", Len(Ev.C) = Ev.nb >> >>)
Step == /\ Ev.e = "step" /\ phase \in {"group", "separated"}
        /\ LET o == Op(ops, Ev.sym) IN
               IF Judged(o, Ev.kr, keys, ops, nk)
               THEN /\ phase' = "separated" /\ parts' = Ev.parts
                    /\ bad' = bad \union Failing(StepClauses(Ev, o, parts))
               ELSE phase' = "unjudged" /\ UNCHANGED << parts, bad >>
        /\ keys' = Append(keys, Ev.sym)
        /\ UNCHANGED << ops, nk >>
\* separating does not work: only where it is not asked to
Refused == /\ Ev.e = "error" /\ Ev.where = "separate" /\ phase \in {"group", "separated"}
           /\ phase' = "unjudged"
           /\ bad' = bad \union Failing(<< << "C19.error_" \o Ev.type, ~Judged(Op(ops, Ev.sym), Ev.kr, keys, ops, nk) >> >>)
           /\ UNCHANGED << ops, nk, parts, keys >>
Doc == /\ Ev.e = "doc" /\ phase = "separated"
       /\ UNCHANGED << ops, nk, parts, keys, phase >>
       /\ bad' = bad \union Failing(DocClauses(Ev, parts))
Screen == /\ Ev.e = "screen" /\ phase = "separated"
          /\ UNCHANGED << ops, nk, parts, keys, phase >>
          /\ bad' = bad \union Failing(ScreenClauses(Ev, parts))
DocError == /\ Ev.e = "error" /\ Ev.where = "cli" /\ phase = "separated"
            /\ UNCHANGED << ops, nk, parts, keys, phase >>
            /\ bad' = bad \union {"C19.doc_error_" \o Ev.type}
Unjudged == /\ phase = "unjudged" /\ UNCHANGED << ops, nk, parts, keys, phase, bad >>
Error == /\ Ev.e = "error" /\ Ev.where \notin {"separate", "cli"} /\ phase # "unjudged"
         /\ UNCHANGED << ops, nk, parts, keys, phase >>
         /\ bad' = bad \union {"H.error_" \o Ev.type}
End == /\ Ev.e = "end" /\ phase # "unjudged" /\ UNCHANGED << ops, nk, parts, keys, phase >>
       /\ bad' = bad \union Failing(<< << "H.end", phase = "separated" >> >>)

Next == /\ pos < Len(Runs[run].ev)
        /\ pos' = pos + 1 /\ run' = run
        /\ Group \/ KPoint \/ Step \/ Refused \/ Doc \/ Screen \/ DocError \/ Unjudged \/ Error \/ End
        /\ IF pos + 1 = Len(Runs[run].ev) /\ bad' # {} THEN PrintT(<< "BAD", Runs[run].id, bad' >>) ELSE TRUE
Spec == Init /\ [][Next]_vars
TypeOK == nk >= 0 /\ phase \in {"start", "group", "separated", "unjudged"}
\* subspaces come with as many eigenvalues as operations
KeyLengths == phase = "separated" => \A x \in DOMAIN parts : Len(parts[x].key) = Len(keys)
=============================================================================
