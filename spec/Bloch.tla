------------------------------- MODULE Bloch -------------------------------
(***************************************************************************)
(* How a space-group operation acts on Bloch states given by plane-wave    *)
(* coefficients, and the traces that follow.                               *)
(*                                                                         *)
(* {R|t} takes the plane wave exp(i q r) to exp(-i q'.t) exp(i q' r) with  *)
(* q' = R^{-T} q, and a spinor to S times it.                              *)
(*                                                                         *)
(* The bands of a k point come in multiplets                               *)
(*   shell   : all plane waves of energy Q (x spin), in an unknown basis;  *)
(*             the trace needs no knowledge of that basis                  *)
(*   generic : one state, small Gaussian-integer coefficients              *)
(*             coef = << <<G1, G2, G3, spin, re, im>>, ... >>              *)
(***************************************************************************)
EXTENDS Crystal

\* Sum over the waves of the shell left invariant of exp(-2 pi i q.t / 576)
ShellTrace(sphere, gstar, Q, R, t24) ==
    LET RR == RecRot(R)
    IN  CSumOver({ q \in sphere : QForm(gstar, q) = Q /\ MV(RR, q) = q },
                 LAMBDA q : Phase(-Dot(q, t24)))

\* coefficients that survive the cutoff: set of << q, spin, re, im >>
Support(gstar, k24, q2cut, coef) ==
    { c \in { << VAdd(VScale(24, << coef[i][1], coef[i][2], coef[i][3] >>), k24), coef[i][4], coef[i][5], coef[i][6] >> :
                i \in DOMAIN coef } : 2 * QForm(gstar, c[1]) < q2cut }

Norm2(sup) == SumOver(sup, LAMBDA c : c[3] * c[3] + c[4] * c[4])

\* <psi| {R|t} S |psi> / <psi|psi>
GenericTrace(sup, R, t24, S, spinor) ==
    LET RR == RecRot(R)
        Term(p) ==      \* p = << c, c' >> with q' = RR q
            LET c == p[1]
                d == p[2]
                \* conj(d) * c, exact
                re == d[3] * c[3] + d[4] * c[4]
                im == d[3] * c[4] - d[4] * c[3]
                ph == Phase(-Dot(d[1], t24))
                z == IF spinor THEN CMul(S[d[2] + 1][c[2] + 1], ph) ELSE ph
            IN  << re * z[1] - im * z[2], re * z[2] + im * z[1] >>
        pairs == { p \in sup \X sup : p[2][1] = MV(RR, p[1][1]) /\ (spinor \/ p[1][2] = p[2][2]) }
    IN  CDiv(CSumOver(pairs, Term), Norm2(sup))

\* trace of {R|t} with spinor matrix S (trace trS) on a multiplet
MultTrace(sphere, gstar, k24, q2cut, m, R, t24, S, spinor) ==
    IF m.kind = "shell"
    THEN LET z == ShellTrace(sphere, gstar, m.Q, R, t24)
         IN  IF spinor THEN CMul(z, M2Trace(S)) ELSE z
    ELSE GenericTrace(Support(gstar, k24, q2cut, m.coef), R, t24, S, spinor)
=============================================================================
