------------------------------- MODULE Inputs --------------------------------
(***************************************************************************)
(* Which requests for a calculation make sense.                            *)
(*                                                                         *)
(* A request is a record of attributes: what is asked (name of the code,   *)
(* Fermi energy, bands, labels of k points, cutoff, the argument that says *)
(* which spins) and in which condition the files are.  Valid(r) says       *)
(* whether the request is consistent and supported; a request that is not  *)
(* must be refused, and nothing written; one that is must be carried out   *)
(* on the states it selects.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Codes == {"vasp", "abinit", "espresso", "wannier90"}
Names == {"same", "upper", "unknown"}
Efs == {"auto", "number", "integer", "word", "empty"}
Sels == {"all", "part", "over", "zero", "empty", "beyond"}
LabelSets == {"none", "right", "unknown", "other", "few", "lowercase"}
Cuts(code) == IF code = "wannier90" THEN {"full", "lower", "none"} ELSE {"none", "full", "lower", "higher", "negative"}
Args(code) == CASE code = "vasp" -> {"right", "wrong", "none"}
                [] code = "espresso" -> {"none", "up", "dw", "UP", "Down", "left"}
                [] OTHER -> {"std"}
Files(code) ==
    CASE code = "vasp" -> {"ok", "lattice_same", "lattice_near", "lattice_far", "lattice_rotated", "double", "ispin2", "truncated", "npw_off", "no_wavecar", "no_poscar"}
      [] code = "abinit" -> {"ok", "v8.6.3", "v9.6.2", "v10.0.1", "headform57", "nsppol2", "istwfk_all", "istwfk_one", "occopt9", "nspinor4", "bantot", "block_npw", "block_nspinor", "block_nband", "paw", "truncated", "absent"}
      [] code = "espresso" -> {"ok", "polarised", "uppercase", "gamma_only", "both", "no_wfc", "truncated", "absent"}
      [] code = "wannier90" -> {"ok", "eig_short", "eig_long", "eig_korder", "eig_border", "eig_text", "unk_k", "unk_nb", "unk_absent", "unk_otherspin", "truncated", "absent"}

Base(code, spinor) == [code |-> code, spinor |-> spinor, name |-> "same", ef |-> "number", sel |-> "part", labels |-> "right",
                       cut |-> IF code = "wannier90" THEN "full" ELSE "none",
                       arg |-> CASE code = "vasp" -> "right" [] code = "espresso" -> "none" [] OTHER -> "std", file |-> "ok"]
Fields == {"name", "ef", "sel", "labels", "cut", "arg", "file"}
Values(code, f) == CASE f = "name" -> Names [] f = "ef" -> Efs [] f = "sel" -> Sels [] f = "labels" -> LabelSets
                     [] f = "cut" -> Cuts(code) [] f = "arg" -> Args(code) [] f = "file" -> Files(code)
\* a spin-polarised calculation has no spinors
Possible(r) == r.file = "polarised" => ~r.spinor

Harmless == {"ok", "lattice_same", "v8.6.3", "v9.6.2", "v10.0.1", "paw", "uppercase", "polarised"}
Channel(a) == CASE a \in {"up", "UP"} -> "up" [] a \in {"dw", "Down"} -> "dw" [] OTHER -> "none"

\* the reasons for which a request is refused
Reasons(r) ==
    (IF r.name = "unknown" THEN {"code"} ELSE {}) \union
    (IF r.ef \in {"word", "empty"} THEN {"fermi"} ELSE {}) \union
    (IF r.sel \in {"empty", "beyond"} THEN {"bands"} ELSE {}) \union
    (IF r.labels \in {"unknown", "other", "few", "lowercase"} THEN {"labels"} ELSE {}) \union
    (IF r.code = "wannier90" /\ r.cut = "none" THEN {"cutoff"} ELSE {}) \union
    (IF r.code = "vasp" /\ r.arg # "right" THEN {"spinor"} ELSE {}) \union
    (IF r.code = "espresso" /\ (r.file = "polarised") # (Channel(r.arg) # "none") THEN {"channel"} ELSE {}) \union
    (IF r.code = "espresso" /\ r.arg = "left" THEN {"channel"} ELSE {}) \union
    (IF r.file \notin Harmless THEN {"file"} ELSE {})
Valid(r) == Reasons(r) = {}

\* the bands selected, of nb
From(r) == IF r.sel \in {"part", "over"} THEN 2 ELSE 1
To(r, nb) == IF r.sel = "part" THEN nb - 1 ELSE nb
=============================================================================
