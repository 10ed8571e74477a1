------------------------------- MODULE Levels -------------------------------
(***************************************************************************)
(* Bands, energy levels, selections and gaps.  Energies are integers       *)
(* (micro-eV).  Used as the oracle of the trace specification and, in      *)
(* MCLevels, as a model of its own.                                        *)
(***************************************************************************)
EXTENDS Num

\* bands requested: IBstart, IBend as the user gives them (0: not given)
FirstBand(ibs) == IF ibs <= 0 THEN 1 ELSE ibs
LastBand(ibe, nb) == IF ibe <= 0 \/ ibe > nb THEN nb ELSE ibe
NumBands(ibs, ibe, nb) == LastBand(ibe, nb) - FirstBand(ibs) + 1

\* k points requested: a sequence of indices (any order, repetitions, out of range)
SelectK(all, list, nk) == IF all THEN [i \in 1..nk |-> i]
                          ELSE SelectSeq(list, LAMBDA k : k >= 1 /\ k <= nk)

\* first bands (1-based) of the levels of the energies E, in order, closed by Len(E)+1
Borders(E, thr) == SelectSeq([i \in 1..(Len(E) + 1) |-> i],
                             LAMBDA i : i = 1 \/ i = Len(E) + 1 \/ E[i] - E[i - 1] > thr)
Degeneracies(E, thr) == LET b == Borders(E, thr) IN [i \in 1..(Len(b) - 1) |-> b[i + 1] - b[i]]
\* a mean of integers, rounded
Means(E, thr) == LET b == Borders(E, thr)
                 IN  [i \in 1..(Len(b) - 1) |-> LET n == b[i + 1] - b[i]
                                                    e0 == E[b[i]]
                                                IN  e0 + RDiv(SumSeq([j \in 1..n |-> E[b[i] + j - 1] - e0]), n)]
=============================================================================
