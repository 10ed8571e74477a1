--------------------------------- MODULE History ---------------------------------
(***************************************************************************)
(* A calculation as an object: what of it can change, and what its methods *)
(* may depend on.                                                          *)
(*                                                                         *)
(* st.lab   how the irreps were identified last: "none", "names" (labels   *)
(*          of the k points), "spoilt" (an identification failed)          *)
(* st.sub   << >>, or << s, lab, one >>: subspaces made by separation s,   *)
(*          the labels that the calculation had at that time, and whether  *)
(*          there is only one subspace (which may be the calculation       *)
(*          itself, so that its labels are open after an identification)   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Start == [lab |-> "none", sub |-> << >>]
\* calls whose result tells the irreps
OfLabels == {"characters", "irrepsfile", "json", "jsonnames"}
\* calls whose result does not
Others == {"trace", "plotfile", "line", "supercell", "gaps", "inversions", "zak", "wcc", "symfile", "template", "groupjson", "groupshow", "groupfew", "spin", "spinwide", "unfold", "localisation", "overlaps", "little", "symdefault", "raw"}
OfSub == {"characters", "json", "plotfile", "gaps", "zak", "wcc", "spin", "line", "raw"}
Separations == {"one", "onefree", "two"}
Identifications == {"none", "names", "wrong"}

Calls(st) ==
    { << "main", c >> : c \in OfLabels \union Others } \union
    { << "identify", n >> : n \in Identifications } \union
    { << "separate", s >> : s \in Separations } \union
    { << "other", x >> : x \in {"twin", "alien", "same"} } \union
    (IF st.sub = << >> THEN {} ELSE { << "sub", c >> : c \in OfSub })

After(st, c, one) ==
    CASE c[1] = "identify" ->
           LET new == IF c[2] = "wrong" THEN "spoilt" ELSE c[2]
           IN [st EXCEPT !.lab = new, !.sub = IF @ # << >> /\ @[3] /\ @[2] # new THEN << @[1], "spoilt", TRUE >> ELSE @]
      [] c[1] = "separate" -> [st EXCEPT !.sub = << c[2], st.lab, one >>]
      [] OTHER -> st

\* a result is determined by its key alone
Key(st, c) ==
    CASE c[1] = "main" -> << "main", c[2], IF c[2] \in OfLabels THEN st.lab ELSE "any" >>
      [] c[1] = "identify" -> << "identify", c[2], "any" >>
      [] c[1] = "separate" -> << "separate", c[2], "any" >>
      [] c[1] = "sub" -> << st.sub[1], c[2], IF c[2] \in OfLabels THEN st.sub[2] ELSE "any" >>
      [] c[1] = "other" -> << "other", c[2], "any" >>
\* after a failed identification the labels are not determined until the next one
Determined(st, c) == Key(st, c)[3] # "spoilt"
=============================================================================
