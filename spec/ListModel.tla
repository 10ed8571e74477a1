------------------------------- MODULE ListModel -------------------------------
(***************************************************************************)
(* Lists of numbers and ranges are written item by item.  Checked: the     *)
(* expansion of a longer list extends the one of the shorter; a range      *)
(* means the numbers written one by one.                                   *)
(***************************************************************************)
EXTENDS Cli, TLC, TLCExt, CSV, IOUtils, Json, SequencesExt

Emit == IOEnv.EMIT
Mod == atoi(IOEnv.MOD)
Seed == atoi(IOEnv.SEED)
Nums == {1, 2, 3, 9, 10, 11, 99, 101}
Items == { << n >> : n \in Nums } \union { << a, b >> : a, b \in Nums }
VARIABLE items
Init == items = << >>
Add == Len(items) < 3 /\ \E x \in Items : items' = Append(items, x)
Spec == Init /\ [][Add]_items
Extends == [][IsPrefix(Expand(items), Expand(items'))]_items
Ascending == \A x \in Items : Len(x) = 2 /\ x[1] <= x[2] => Expand(<< x >>) = Expand([i \in 1..(x[2] - x[1] + 1) |-> << x[1] + i - 1 >>])
AllOne == Len(items) = 0 => Ascending
Emitted == IF Emit # "" /\ items # << >> /\ (Len(items) = 1 \/ TLCFP(<< items, Seed >>) % Mod = 0) THEN CSVWrite("%1$s", << ToJson([items |-> items]) >>, Emit) ELSE TRUE
=============================================================================
