------------------------------- MODULE CMARun -------------------------------
(***************************************************************************)
(* The control level of a CMA-ES run: what happens to evaluations,         *)
(* generations, best individuals, function value histories, termination    *)
(* criteria that depend on them, plot points and printed lines.            *)
(*                                                                         *)
(* This module only has operators on a state record, so that it is shared  *)
(* by the model that TLC explores exhaustively (MCRun: small integers as   *)
(* function values), by the generator of behaviours for the real code      *)
(* (MCRun too) and by the trace specification (CMATrace: binary64 values). *)
(* The operations on function values are therefore constants.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
    Lt(_, _),        \* strict order on function values (FALSE with an undefined value)
    Dist(_, _),      \* |a - b|
    Times(_, _),     \* product
    Mid(_, _),       \* the mean of two values
    Rank(_, _),      \* Rank(values, ascending): stable sorting permutation
    Median(_),       \* the median of a sequence of values
    Invalid(_),      \* the value that ends a run (NaN)
    HistoryCap,      \* how many generations the histories reach back (20000)
    StagDiv,         \* which fraction of all generations TolStagnation looks at (5)
    StagShare(_)     \* StagShare(w): the size of the latest/oldest part of w generations

None == -1

Better(mode, a, b) == IF mode = "min" THEN Lt(a, b) ELSE Lt(b, a)

(* ------------------------------- the state ----------------------------- *)
(* cfg: mode, lambda, window (of the TolFun* criteria), maxEvals, maxGens  *)
(*      (None: no limit), hasTarget, target, tolFun, tolFunRel, tolFunHist,*)
(*      tolStag, plotGap, printGap (None: disabled)                        *)
NoInd == [x |-> <<>>, v |-> <<>>]

InitRun(cfg) ==
    [gen |-> 0, evals |-> 0,
     bestHist |-> <<>>, medHist |-> <<>>,       \* oldest first
     firstMed |-> <<>>, bestMed |-> <<>>,       \* empty or one value
     cur |-> NoInd, best |-> NoInd,
     plotLen |-> IF cfg.plotGap = None THEN None ELSE 1,
     plotEvals |-> 0, plotGen |-> 0,
     printEvals |-> 0, printGen |-> 0]

(* ------------------------------ generations ---------------------------- *)
LOCAL Capped(s) == IF Len(s) > HistoryCap THEN Tail(s) ELSE s
Values(evs) == [i \in 1..Len(evs) |-> evs[i].v]

MedianOfSorted(v, r) ==
    LET n == Len(v)
    IN IF n % 2 = 1 THEN v[r[n \div 2 + 1]] ELSE Mid(v[r[n \div 2]], v[r[n \div 2 + 1]])

(* A complete generation of valid evaluations, before the update of the    *)
(* distribution: evaluations are counted, the histories and the best       *)
(* individuals updated.                                                    *)
Evaluated(cfg, s, evs) ==
    LET v   == Values(evs)
        r   == Rank(v, cfg.mode = "min")
        b   == evs[r[1]]
        med == MedianOfSorted(v, r)
    IN [s EXCEPT
          !.evals    = @ + Len(evs),
          !.bestHist = Capped(Append(@, b.v)),
          !.medHist  = Capped(Append(@, med)),
          !.firstMed = IF @ = <<>> THEN <<med>> ELSE @,
          !.bestMed  = IF @ = <<>> THEN <<med>>
                       ELSE IF Invalid(@[1]) \/ Better(cfg.mode, med, @[1]) THEN <<med>> ELSE @,
          !.cur      = b,
          !.best     = IF @.x = <<>> \/ Better(cfg.mode, b.v, @.v) THEN b ELSE @]

(* A generation that is cut short by an invalid value: n calls were made.  *)
Aborted(s, n) == [s EXCEPT !.evals = @ + n]

(* The generation is completed by the update of the distribution.          *)
Completed(s) == [s EXCEPT !.gen = @ + 1]

(* ------------------------------- plotting ------------------------------ *)
PlotPoint(s) ==
    IF s.plotLen = None \/ s.plotGen = s.gen THEN s
    ELSE [s EXCEPT !.plotLen = @ + 1, !.plotEvals = s.evals, !.plotGen = s.gen]

PlotDue(cfg, s) == s.plotLen # None /\ (s.gen <= 1 \/ s.evals >= s.plotEvals + cfg.plotGap)
AutoPlot(cfg, s) == IF PlotDue(cfg, s) THEN PlotPoint(s) ELSE s
PlotClear(s) == [s EXCEPT !.plotLen = 1]

(* ------------------------------- printing ------------------------------ *)
PrintByGap(cfg, s)  == cfg.printGap # None /\ s.evals >= s.printEvals + cfg.printGap
PrintDue(cfg, s)    == cfg.printGap # None /\ (PrintByGap(cfg, s) \/ s.gen < 4)
AutoPrint(cfg, s) ==
    IF PrintByGap(cfg, s) THEN [s EXCEPT !.printEvals = s.evals, !.printGen = s.gen]
    ELSE IF PrintDue(cfg, s) THEN [s EXCEPT !.printGen = s.gen]
    ELSE s
(* whether the final report is preceded by a line for the current state    *)
FinalLineDue(s) == s.gen # s.printGen

(* ------------------------------ termination ---------------------------- *)
BudgetReasons(cfg, s) ==
       (IF cfg.maxEvals # None /\ s.evals >= cfg.maxEvals THEN {"MaxFunctionEvals"} ELSE {})
    \union (IF cfg.maxGens # None /\ s.gen >= cfg.maxGens THEN {"MaxGenerations"} ELSE {})

Latest(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))

LOCAL MinOf(v) == v[Rank(v, TRUE)[1]]
LOCAL MaxOf(v) == v[Rank(v, FALSE)[1]]
Range(v) == Dist(MaxOf(v), MinOf(v))

TargetReasons(cfg, evs) ==
    IF cfg.hasTarget /\ \E i \in 1..Len(evs) : Better(cfg.mode, evs[i].v, cfg.target)
    THEN {"FunTarget"} ELSE {}

TolFunReasons(cfg, s, evs) ==
    IF Len(s.bestHist) < cfg.window THEN {}
    ELSE LET past == Range(Latest(s.bestHist, cfg.window))
             now  == Range(Values(evs))
             rel  == Times(cfg.tolFunRel, Dist(s.firstMed[1], s.bestMed[1]))
         IN    (IF Lt(past, cfg.tolFunHist) THEN {"TolFunHist"} ELSE {})
            \union (IF Lt(past, cfg.tolFun) /\ Lt(now, cfg.tolFun) THEN {"TolFun"} ELSE {})
            \union (IF Lt(past, rel) /\ Lt(now, rel) THEN {"TolFunRel"} ELSE {})

StagWindow(s) == LET w == s.gen \div StagDiv IN IF w > HistoryCap THEN HistoryCap ELSE w

Regressed(mode, hist, w) ==
    LET part   == Latest(hist, w)
        k      == StagShare(w)
        newest == SubSeq(part, w - k + 1, w)
        oldest == SubSeq(part, 1, k)
    IN k > 0 /\ Better(mode, Median(oldest), Median(newest))

StagReasons(cfg, s) ==
    LET w == StagWindow(s)
    IN IF /\ w >= cfg.tolStag
          /\ Len(s.bestHist) >= w
          /\ Regressed(cfg.mode, s.bestHist, w)
          /\ Regressed(cfg.mode, s.medHist, w)
       THEN {"TolStagnation"} ELSE {}

(* All reasons that are decided by the control state. *)
ControlReasons(cfg, s, evs) ==
    BudgetReasons(cfg, s) \union TargetReasons(cfg, evs)
      \union TolFunReasons(cfg, s, evs) \union StagReasons(cfg, s)

(* ------------------------------- one step ------------------------------ *)
(* evs: the evaluations made.  posDef: whether the covariance matrix is    *)
(* still positive definite.  other: the reasons that depend on the         *)
(* distribution or the time.  The result has the new state, the reasons    *)
(* and whether a line is printed.                                          *)
FirstInvalid(evs) ==
    LET bad == {i \in 1..Len(evs) : Invalid(evs[i].v)}
    IN IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j

Step(cfg, s, evs, posDef, other) ==
    IF FirstInvalid(evs) # 0
    THEN [s |-> Aborted(s, Len(evs)), reasons |-> {"InvalidFunctionValue"}, line |-> FALSE]
    ELSE LET s1 == Evaluated(cfg, s, evs)
         IN IF ~posDef
            THEN [s |-> s1, reasons |-> {"PosDefCov"}, line |-> FALSE]
            ELSE LET s2 == AutoPlot(cfg, Completed(s1))
                     s3 == AutoPrint(cfg, s2)
                 IN [s |-> s3,
                     reasons |-> ControlReasons(cfg, s3, evs) \union other,
                     line |-> PrintDue(cfg, s2)]

(* The evaluations of a sequential step with a given stream of values: up  *)
(* to and including the first invalid one.                                 *)
Cut(evs) == LET k == FirstInvalid(evs) IN IF k = 0 THEN evs ELSE SubSeq(evs, 1, k)

(* The end of a whole run: final plot point (if due), final report.        *)
Finish(cfg, s) == [s |-> PlotPoint(s), line |-> cfg.printGap # None /\ FinalLineDue(s)]
=============================================================================
