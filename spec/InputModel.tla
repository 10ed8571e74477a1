------------------------------ MODULE InputModel ------------------------------
(***************************************************************************)
(* A valid request is changed in one attribute after the other, up to      *)
(* Depth of them.  Checked: what is changed back is what it was; refusing  *)
(* has a reason among the changed attributes; a reason disappears only     *)
(* when an attribute it depends on changes.  The requests are the          *)
(* scenarios replayed into the program.                                    *)
(***************************************************************************)
EXTENDS Inputs, TLC, TLCExt, CSV, IOUtils, Json

Emit == IOEnv.EMIT
Mod == atoi(IOEnv.MOD)
Seed == atoi(IOEnv.SEED)
Depth == atoi(IOEnv.DEPTH)

VARIABLES r, changed
vars == << r, changed >>

Init == \E c \in Codes, s \in BOOLEAN : r = Base(c, s) /\ changed = {}
Change == /\ Cardinality(changed) < Depth
          /\ \E f \in Fields \ changed : \E v \in Values(r.code, f) :
                /\ v # r[f]
                /\ r' = [r EXCEPT ![f] = v]
                /\ Possible(r')
                /\ changed' = changed \union {f}
Spec == Init /\ [][Change]_vars

DependsOn(reason) == CASE reason = "code" -> {"name"} [] reason = "fermi" -> {"ef"} [] reason = "bands" -> {"sel"} [] reason = "labels" -> {"labels"}
                       [] reason = "cutoff" -> {"cut"} [] reason = "spinor" -> {"arg"} [] reason = "channel" -> {"arg", "file"} [] reason = "file" -> {"file"}
BaseIsValid == changed = {} => Valid(r)
ChangedAsNoted == changed = { f \in Fields : r[f] # Base(r.code, r.spinor)[f] }
HasACause == \A x \in Reasons(r) : DependsOn(x) \cap changed # {}
OnlyByItsAttribute == [][\A x \in Reasons(r) \ Reasons(r') : \E f \in DependsOn(x) : r[f] # r'[f]]_vars
\* of the single changes all are replayed, of the others one in Mod
Chosen == Cardinality(changed) <= 1 \/ TLCFP(<< r, Seed >>) % Mod = 0
Emitted == IF Emit # "" /\ Chosen THEN CSVWrite("%1$s", << ToJson([r |-> r, n |-> Cardinality(changed)]) >>, Emit) ELSE TRUE
=============================================================================
