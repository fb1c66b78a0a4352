------------------------------- MODULE LongTrace -----------------------------
(***************************************************************************)
(* Validates very long runs: tens of thousands of generations, beyond the  *)
(* 20000 generations that the histories keep.  A trace has the values of   *)
(* all evaluations; the reported reasons and counts are compared with      *)
(* those of CMARun at the generations listed in the trace (every so many,  *)
(* and those before and after each change of what is reported).            *)
(***************************************************************************)
EXTENDS CMARun, CMAParams, TLC, Json, Emit

CONSTANTS TraceFile, ViolationFile, Checked, Known

Traces == ndJsonDeserialize(TraceFile)
TDist(a, b) == FAbs(FSub(a, b))
TMid(a, b)  == FDiv(FAdd(a, b), F("2"))
TShare(w)   == (w * 3) \div 10

VARIABLES tid, i        \* the trace, the number of samples checked
vars == <<tid, i>>

(* The best and the median value of every generation *)
Ranks == TLCEval([t \in 1..Len(Traces) |->
            TLCEval([g \in 1..Len(Traces[t].vals) |->
                FRank(Traces[t].vals[g], Traces[t].mode = "min")])])
Bests == TLCEval([t \in 1..Len(Traces) |->
            TLCEval([g \in 1..Len(Traces[t].vals) |-> Traces[t].vals[g][Ranks[t][g][1]]])])
Meds  == TLCEval([t \in 1..Len(Traces) |->
            TLCEval([g \in 1..Len(Traces[t].vals) |->
                MedianOfSorted(Traces[t].vals[g], Ranks[t][g])])])

T == Traces[tid]
S == T.samples[i + 1]
C == [mode |-> T.mode, lambda |-> T.lambda, window |-> FunWindow(T.n, T.lambda),
      maxEvals |-> None, maxGens |-> T.maxGens, hasTarget |-> FALSE, target |-> <<>>,
      tolFun |-> T.tolFun, tolFunRel |-> FZero, tolFunHist |-> T.tolFunHist, tolStag |-> T.tolStag,
      plotGap |-> None, printGap |-> None]

On(p, label, cond) ==
    p \in Checked =>
        IF cond THEN Tick(label)
        ELSE /\ EmitJson(ViolationFile, [property |-> p, label |-> label, trace |-> T.id, op |-> S.g])
             /\ FALSE

From(g) == IF g > HistoryCap THEN g - HistoryCap + 1 ELSE 1
StateAt(g) == [InitRun(C) EXCEPT
    !.gen = g, !.evals = g * T.lambda,
    !.bestHist = SubSeq(Bests[tid], From(g), g), !.medHist = SubSeq(Meds[tid], From(g), g),
    !.firstMed = <<Meds[tid][1]>>, !.bestMed = <<Meds[tid][1]>>]
EvsAt(g) == [j \in 1..T.lambda |-> [x |-> <<>>, v |-> T.vals[g][j]]]

Init == tid \in 1..Len(Traces) /\ i = 0
        /\ Ranks # <<>> /\ Bests # <<>> /\ Meds # <<>>

Sample ==
    /\ i < Len(T.samples)
    /\ LET g   == S.g
           seen == {S.reasons[j] : j \in 1..Len(S.reasons)}
           want == ControlReasons(C, StateAt(g), EvsAt(g))
           on(p, r) == On(p, r, (r \in seen) <=> (r \in want))
       IN /\ on("C05", "TolStagnation")
          /\ on("C04", "TolFun") /\ on("C04", "TolFunHist") /\ on("C04", "TolFunRel")
          /\ on("C03", "MaxGenerations")
          /\ On("C05", "no other reason",
                seen \ want \subseteq {"NoEffectAxis", "NoEffectCoord", "TolX", "TolXUp", "TolConditionCov"})
          /\ "TolStagnation" \in want => Tick("C05/TolStagnation fires after a long run")
          /\ g > HistoryCap => Tick("C05/generations beyond the history")
          /\ S.count # <<>> =>
                On("C02", "counts of a long run",
                   S.count[1].gen = g /\ S.count[1].evals = g * T.lambda /\ S.count[1].calls = g * T.lambda)
          /\ S.count # <<>> => On("C01", "best of a long run", S.count[1].cur = Bests[tid][g])
    /\ i' = i + 1 /\ UNCHANGED tid

End == i = Len(T.samples) /\ UNCHANGED vars
Next == Sample \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
