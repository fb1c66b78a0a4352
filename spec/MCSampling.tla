------------------------------ MODULE MCSampling ----------------------------
(***************************************************************************)
(* All ways in which constraints can accept and reject the points of a     *)
(* generation.  Points are numbered in the order of sampling.  Every       *)
(* complete behaviour is written out and replayed in the real code.        *)
(***************************************************************************)
EXTENDS Sampling, FiniteSets, TLC, Emit

CONSTANTS Lambdas, Budgets, MaxRounds, OutFile

MCBudgets == {0, 1, 2, 3, Unlimited}

VARIABLES lambda, budget, st, drawn, script
vars == <<lambda, budget, st, drawn, script>>

(* script: the verdicts in the order in which the constraints are asked    *)
Init ==
    /\ lambda \in Lambdas /\ budget \in Budgets
    /\ st = StartSampling(lambda) /\ drawn = 0 /\ script = <<>>

Pts == [i \in 1..st.need |-> drawn + i]

Draw ==
    /\ st.need > 0 /\ st.round < MaxRounds
    /\ IF Constrained(st, budget)
       THEN \E ok \in [1..st.need -> BOOLEAN] :
               /\ st' = ConstrainedRound(st, Pts, ok)
               /\ script' = script \o ok
       ELSE /\ st' = FreeRound(st, Pts) /\ UNCHANGED script
    /\ drawn' = drawn + st.need
    /\ UNCHANGED <<lambda, budget>>
Done == st.need = 0 /\ UNCHANGED vars
Next == Draw \/ Done
Spec == Init /\ [][Next]_vars

(* The statement of the property, over the whole history *)
Verdict(p) == script[p]     \* points that were tested are numbered without gaps
Population == Len(st.kept) + st.need = lambda
InOrder == \A i \in 1..(Len(st.kept) - 1) : st.kept[i] < st.kept[i + 1]
Respected == \A i \in 1..Len(st.kept) : st.kept[i] <= Len(script) => Verdict(st.kept[i])
OnlyForced ==     \* a point that was not tested is only used when the budget is spent
    \A i \in 1..Len(st.kept) : st.kept[i] > Len(script) => budget # Unlimited /\ st.round > budget
NothingLost == \A p \in 1..Len(script) : Verdict(p) <=> \E i \in 1..Len(st.kept) : st.kept[i] = p
Once == Cardinality({st.kept[i] : i \in 1..Len(st.kept)}) = Len(st.kept)
Tested == Len(script) <= (IF budget = Unlimited THEN MaxRounds ELSE budget) * lambda
NoBudget == budget = 0 => script = <<>>

Emitted ==
    st.need = 0 =>
        EmitJson(OutFile, [lambda |-> lambda, budget |-> budget, script |-> script, kept |-> st.kept])
=============================================================================
