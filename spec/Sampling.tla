------------------------------- MODULE Sampling -----------------------------
(***************************************************************************)
(* How the population of one generation is sampled under constraints:      *)
(* rounds of sampling, each for the points that are still missing.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Unlimited == -1

(* need: points still missing; kept: points so far, in order; rejected:    *)
(* those that violated the constraints                                     *)
StartSampling(lambda) == [need |-> lambda, round |-> 0, kept |-> <<>>, rejected |-> <<>>]

(* Whether the next round regards the constraints *)
Constrained(st, budget) == budget = Unlimited \/ st.round < budget

(* Points that are accepted: pts[i] with ok[i] *)
Accepted(pts, ok, want) ==
    LET RECURSIVE A(_)
        A(i) == IF i = 0 THEN <<>>
                ELSE IF ok[i] = want THEN Append(A(i - 1), pts[i]) ELSE A(i - 1)
    IN A(Len(pts))

(* A round with the points pts (as many as needed) and verdicts ok *)
ConstrainedRound(st, pts, ok) ==
    LET acc == Accepted(pts, ok, TRUE)
    IN [need |-> st.need - Len(acc), round |-> st.round + 1,
        kept |-> st.kept \o acc, rejected |-> st.rejected \o Accepted(pts, ok, FALSE)]

FreeRound(st, pts) == [st EXCEPT !.need = 0, !.round = @ + 1, !.kept = @ \o pts]
=============================================================================
