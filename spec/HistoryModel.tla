------------------------------ MODULE HistoryModel ------------------------------
(***************************************************************************)
(* All histories of calls up to Full calls, of which a seeded selection is *)
(* continued by one call at a time up to Longest calls.  Checked: a result *)
(* is determined by what changes it, and only by that.  The histories are  *)
(* the scenarios replayed.                                                 *)
(***************************************************************************)
EXTENDS History, SequencesExt, TLC, TLCExt, CSV, IOUtils, Json

Emit == IOEnv.EMIT
Mod == atoi(IOEnv.MOD)
Branch == atoi(IOEnv.BRANCH)
Weights == << "main", "main", "identify", "separate", "sub", "main", "sub", "other", "separate", "sub" >>
Full == atoi(IOEnv.FULL)
Longest == atoi(IOEnv.LONGEST)
Seed == atoi(IOEnv.SEED)

\* one: the separations that give only one subspace
VARIABLES st, hist, one
vars == << st, hist, one >>
Init == st = Start /\ hist = << >> /\ one \in {{}, Separations}
Draw(h, n, m) == TLCFP(<< h, Seed, n >>) % m
\* a call of the kind drawn
OneCall == LET kind == Weights[Draw(hist, 1, Len(Weights)) + 1]
               of == { c \in Calls(st) : c[1] = kind }
               from == IF of = {} THEN Calls(st) ELSE of
               q == SetToSeq(from)
           IN q[Draw(hist, 2, Len(q)) + 1]
Go(c) == hist' = Append(hist, c) /\ st' = After(st, c, c[2] \in one) /\ one' = one
Next == \/ /\ Len(hist) < Full
           /\ \E c \in Calls(st) : Go(c)
        \/ /\ Len(hist) >= Full /\ Len(hist) < Longest
           /\ Len(hist) = Full => Draw(hist, 0, Branch) = 0
           /\ Go(OneCall)
Spec == Init /\ [][Next]_vars

RECURSIVE Fold(_, _)
Fold(s, h) == IF h = << >> THEN s ELSE Fold(After(s, Head(h), Head(h)[2] \in one), Tail(h))
\* the state is what the identifications and separations of the history make of it
Effective == SelectSeq(hist, LAMBDA c : c[1] \in {"identify", "separate"})
OnlyThese == Fold(Start, Effective) = st
\* queries change nothing
Queries == [][hist'[Len(hist')][1] \in {"main", "sub", "other"} => st' = st]_vars
\* a call twice in a row has the same key
Twice == \A c \in Calls(st) : c[1] # "separate" /\ c[1] # "identify" => Key(After(st, c, FALSE), c) = Key(st, c)
\* subspaces keep what they had
Kept == [][hist'[Len(hist')][1] # "separate" /\ one = {} => st'.sub = st.sub]_vars
\* pairs of calls, the continued histories at their end
Chosen == \/ Len(hist) = 2 /\ Draw(hist, 7, Mod) = 0
          \/ Len(hist) = Longest
Emitted == IF Emit # "" /\ one = {} /\ Chosen THEN CSVWrite("%1$s", << ToJson([h |-> hist]) >>, Emit) ELSE TRUE
=============================================================================
