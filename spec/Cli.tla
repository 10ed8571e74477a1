---------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* Options of the command, given on the command line or in a configuration *)
(* file, and what they mean.                                               *)
(*                                                                         *)
(* A placement gives for every option << cmd, conf >>: the value on the    *)
(* command line and the one in the file, "-" if it is not given there.     *)
(* Values are names; the runs give them a meaning (numbers, labels, ...).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Codes == {"vasp", "abinit", "espresso", "wannier90"}
FileOptions(code) == CASE code = "vasp" -> {"fwav", "fpos"} [] code = "abinit" -> {"fwfk"} [] OTHER -> {"prefix"}
Flags == {"spinor", "searchcell", "onlysym", "writesym", "plotbands", "zak", "wcc", "groupkramers"}
Options == Flags \union {"code", "fwav", "fpos", "fwfk", "prefix", "ecut", "ibstart", "ibend", "kpoints", "kpnames", "refuc", "shiftuc", "isymsep", "alat",
                         "from_sym_file", "ef", "degenthresh", "symmetries", "suffix", "trans_thresh", "v"}
\* values on the command line
Cmd(o) == CASE o \in Flags -> {"on"}
            [] o = "code" -> {"right", "wrong"}
            [] o \in {"fwav", "fpos", "fwfk"} -> {"right", "wrong"}
            [] o = "prefix" -> {"right", "wrong"}
            [] o = "ecut" -> {"low", "full", "negative"}
            [] o = "ibstart" -> {"one", "two", "zero"}
            [] o = "ibend" -> {"four", "zero", "over"}
            [] o = "kpoints" -> {"second", "range", "swap"}
            [] o = "ef" -> {"auto", "num"}
            [] o = "degenthresh" -> {"wide", "tight"}
            [] o = "symmetries" -> {"some", "range"}
            [] o = "suffix" -> {"x", "my-name"}
            [] o = "isymsep" -> {"one", "two"}
            [] o = "v" -> {"more"}
            [] OTHER -> {"given"}                 \* kpnames refuc shiftuc alat from_sym_file trans_thresh
\* values in the file
Conf(o) == CASE o \in Flags -> {"on", "off"}
             [] o = "ef" -> {"auto", "num", "text"}
             [] o = "v" -> {"none", "more"}
             [] OTHER -> Cmd(o)
Default(o) == CASE o = "code" -> "vasp" [] o = "groupkramers" -> "on" [] o \in Flags -> "off" [] OTHER -> "-"
Placements(o) == { << a, b >> : a \in Cmd(o) \union {"-"}, b \in Conf(o) \union {"-"} }

\* everything that is necessary is on the command line, the rest nowhere
Base(code, spinor) == [o \in Options |->
    << IF o = "code" \/ o \in FileOptions(code) THEN "right"
       ELSE IF o = "spinor" /\ code = "vasp" /\ spinor THEN "on"
       ELSE IF o = "ecut" /\ code = "wannier90" THEN "full" ELSE "-", "-" >>]

\* the file counts, then the command line, then the default
Value(p, o) == IF p[o][2] # "-" THEN p[o][2] ELSE IF p[o][1] # "-" THEN p[o][1] ELSE Default(o)
Eff(p) == [o \in Options |-> Value(p, o)]
On(e, o) == e[o] = "on"
Given(e, o) == e[o] # "-"

\* the calculation is possible, and the options do not exclude each other
Possible(code, spinor, e) ==
    /\ e["code"] = "right" \/ (e["code"] = "vasp" /\ code = "vasp")
    /\ \A o \in FileOptions(code) : e[o] = "right"
    /\ code = "vasp" => (On(e, "spinor") <=> spinor)
    /\ code = "wannier90" => e["ecut"] \in {"full", "low"}
    /\ Cardinality({ o \in {"zak", "wcc", "plotbands"} : On(e, o) }) <= 1
    /\ Given(e, "isymsep") => ~On(e, "zak") /\ ~On(e, "wcc") /\ ~On(e, "plotbands")
    /\ On(e, "writesym") => e["prefix"] = "right"
    /\ e["prefix"] = "wrong" => code \notin {"espresso", "wannier90"}

\* what the library is asked for
SearchCell(e) == On(e, "searchcell") \/ Given(e, "kpnames")
SaveStates(e) == Given(e, "isymsep") \/ On(e, "zak") \/ On(e, "wcc")
\* files written by a run that succeeds
Results(e) == (IF On(e, "writesym") THEN {"sym"} ELSE {}) \union
              (IF On(e, "onlysym") THEN {} ELSE
                 {"irreptable-template", "trace.txt", "irrep-output.json"} \union
                 (IF Given(e, "kpnames") THEN {"irreps.dat"} ELSE {}) \union
                 (IF On(e, "plotbands") THEN {"bands"} ELSE {}))
Suffix(e) == IF Given(e, "suffix") THEN e["suffix"] ELSE "tognuplot"

\* lists of numbers and ranges:  << n >> or << first, last >>
RECURSIVE Expand(_)
Expand(items) == IF items = << >> THEN << >>
                 ELSE LET x == Head(items)
                      IN  (IF Len(x) = 1 THEN x ELSE [i \in 1..(IF x[2] < x[1] THEN 0 ELSE x[2] - x[1] + 1) |-> x[1] + i - 1]) \o Expand(Tail(items))
KPoints(e, nk) == CASE e["kpoints"] = "second" -> Expand(<< << 2 >> >>)
                    [] e["kpoints"] = "range" -> Expand(<< << 1 >>, << 2, nk >> >>)
                    [] e["kpoints"] = "swap" -> Expand(<< << nk >>, << 1 >> >>)
                    [] OTHER -> Expand(<< << 1, nk >> >>)
FromBand(e) == IF e["ibstart"] = "two" THEN 2 ELSE 1
ToBand(e, nb) == IF e["ibend"] = "four" THEN 4 ELSE nb
Symmetries(e, ns) == CASE e["symmetries"] = "some" -> {1}
                       [] e["symmetries"] = "range" -> 1..(IF ns < 3 THEN ns ELSE 3)
                       [] OTHER -> 1..ns
=============================================================================
