------------------------------- MODULE Options ------------------------------
(***************************************************************************)
(* The options of a run: a builder whose state is a record with one field  *)
(* per option, and the decision whether and as what it builds.             *)
(*                                                                         *)
(* Values: floating point options and the mean are binary64 numbers (see   *)
(* Float64), integer options are decimal text (they exceed TLC's integers) *)
(* except for the population size.  Unset optional values are "" or <<>>.  *)
(***************************************************************************)
EXTENDS CMAParams, TLC

(* Options that are set by name, and what they are before they are set.    *)
Unset(k) == CASE k \in {"fun_target", "tol_x"} -> <<>>
              [] OTHER -> ""

(* CMAESOptions::new(mean, sigma) *)
NewOptions(mean, sigma) ==
    [set_mean |-> mean, set_sigma |-> sigma,
     pop |-> DefaultPopulation(Len(mean)), popSet |-> FALSE,
     mode |-> "min", weights |-> "negative", pupd |-> FALSE,
     cm |-> FOne, tol_fun |-> F("1e-12"), tol_fun_rel |-> FZero, tol_fun_hist |-> F("1e-12"),
     tol_x_up |-> F("1e8"), tol_cond |-> F("1e14"),
     fun_target |-> <<>>, tol_x |-> <<>>,
     max_evals |-> "", max_gens |-> "", max_time |-> "", tol_stag |-> "", seed |-> "",
     print |-> "", plot |-> "", max_resamples |-> "10", bounds |-> ""]

(* One call of a method (or assignment of a field).  Each option is        *)
(* independent of the others: the last call for it counts.                 *)
SetOption(o, k, v) ==
    IF k = "pop" THEN [o EXCEPT !.pop = v, !.popSet = TRUE] ELSE [o EXCEPT ![k] = v]

RECURSIVE SetAll(_, _, _)
SetAll(o, calls, i) ==
    IF i > Len(calls) THEN o ELSE SetAll(SetOption(o, calls[i].k, calls[i].v), calls, i + 1)

(* ------------------------------- building ------------------------------ *)
ValidStepSize(s) == FIsNormal(s) /\ FGt(s, FZero)
ValidCm(c)       == FIsNormal(c) /\ FGt(c, FZero) /\ FLe(c, FOne)

Errors(o) ==
         (IF Len(o.set_mean) = 0 THEN {"Dimensions"} ELSE {})
    \cup (IF o.pop < 2 THEN {"PopulationSize"} ELSE {})
    \cup (IF ValidStepSize(o.set_sigma) THEN {} ELSE {"InitialStepSize"})
    \cup (IF ValidCm(o.cm) THEN {} ELSE {"Cm"})

(* What the parameters of the built run report. *)
SomeText(t) == IF t = "" THEN "None" ELSE "Some(" \o t \o ")"
TolXOf(o)   == IF o.tol_x = <<>> THEN DefaultTolX(o.set_sigma) ELSE o.tol_x
TolStagOf(o) ==
    IF o.tol_stag # "" THEN o.tol_stag
    ELSE ToString(DefaultTolStagnation(Len(o.set_mean), o.pop))
=============================================================================
