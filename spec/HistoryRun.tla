------------------------------- MODULE HistoryRun -------------------------------
(***************************************************************************)
(* A history of calls on one object.                                       *)
(*    new?, (ref)*, (call)*, end                                           *)
(* ref:   key, out: what the call delivers for an object of its own, in a  *)
(*        process of its own, to which only the labels of the key were     *)
(*        given before                                                     *)
(* call:  c = << on, call >>, out: what it delivered, one: whether the     *)
(*        separation c gives only one subspace                             *)
(* out:   class of what was returned, printed and written                  *)
(***************************************************************************)
EXTENDS History, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
VARIABLES run, pos, st, ref, bad
vars == << run, pos, st, ref, bad >>
In == Runs[run].in
Ev == Runs[run].ev[pos + 1]
Failing(cs) == { cs[i][1] : i \in { j \in DOMAIN cs : ~cs[j][2] } }

Init == run \in DOMAIN Runs /\ pos = 0 /\ st = Start /\ ref = << >> /\ bad = {}
Ref == /\ Ev.e = "ref" /\ st' = st
       /\ ref' = Append(ref, << Ev.key, Ev.out >>)
       /\ bad' = bad
Known == { ref[i] : i \in DOMAIN ref }
Call == /\ Ev.e = "call" /\ ref' = ref
        /\ st' = After(st, Ev.c, Ev.one)
        /\ bad' = bad \union Failing(<<
              << "H.possible", Ev.c \in Calls(st) >>,
              << "H.reference", Determined(st, Ev.c) => \E x \in Known : x[1] = Key(st, Ev.c) >>,
              << "C25." \o Ev.c[1] \o "_" \o Ev.c[2], Determined(st, Ev.c) => \A x \in Known : x[1] = Key(st, Ev.c) => x[2] = Ev.out >>,
              << "C25.input_altered", Ev.kept >> >>)
Error == /\ Ev.e = "error" /\ UNCHANGED << st, ref >>
         /\ bad' = bad \union {"C25.error_" \o Ev.type}
End == /\ Ev.e = "end" /\ UNCHANGED << st, ref, bad >>
Next == /\ pos < Len(Runs[run].ev)
        /\ pos' = pos + 1 /\ run' = run
        /\ Ref \/ Call \/ Error \/ End
        /\ IF pos + 1 = Len(Runs[run].ev) /\ bad' # {} THEN PrintT(<< "BAD", Runs[run].id, bad' >>) ELSE TRUE
Spec == Init /\ [][Next]_vars
TypeOK == pos >= 0
=============================================================================
