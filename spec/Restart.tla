------------------------------- MODULE Restart ------------------------------
(***************************************************************************)
(* Automatic restarts: which runs a restarter performs, with what          *)
(* population sizes and limits, and why it stops.                          *)
(*                                                                         *)
(* Only operators on a state record, shared by the model that TLC explores *)
(* (MCRestart) and by the trace specification (RestartTrace).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
    BetterValue(_, _, _),   \* BetterValue(mode, a, b): a is strictly better than b
    MaxIpopRuns             \* 10

NoLimit == -1

(* cfg: t ("local", "ipop" or "bipop"), maxRuns (local), inc (the factor   *)
(*      of the population size), lambda0 (default population size),        *)
(*      maxEvals, maxEvalsRun, maxGensRun (NoLimit: none), mode            *)
InitRestart ==
    [runs |-> 0, evals |-> 0,
     ipopRuns |-> 0, ipopEvals |-> 0, lrEvals |-> 0,   \* BIPOP: the two regimes
     lastEvals |-> 0, lastMult |-> 1,                  \* the latest IPOP run
     mult |-> 1,                                       \* of the next IPOP run
     best |-> <<>>]                                    \* empty or the best individual

(* ------------------------------ before a run --------------------------- *)
(* late: the time limit has passed *)
StopBefore(cfg, s, late) ==
    IF cfg.t = "local" /\ cfg.maxRuns = 0 THEN "MaxRuns"
    ELSE IF cfg.maxEvals # NoLimit /\ s.evals >= cfg.maxEvals THEN "MaxFunctionEvals"
    ELSE IF late THEN "MaxTime"
    ELSE ""

Kind(cfg, s) ==
    IF cfg.t # "bipop" THEN cfg.t
    ELSE IF s.ipopRuns > 0 /\ s.lrEvals < s.ipopEvals THEN "lr" ELSE "ipop"

Half(i) == i \div 2
Smaller(a, b) == IF a = NoLimit THEN b ELSE IF b = NoLimit THEN a ELSE IF a < b THEN a ELSE b

(* the limit on the evaluations of the next run *)
EvalLimit(cfg, s) ==
    IF Kind(cfg, s) = "lr" THEN Smaller(cfg.maxEvalsRun, Half(s.lastEvals)) ELSE cfg.maxEvalsRun

(* the population sizes that the next run may have: smallest and largest *)
PopRange(cfg, s) ==
    CASE Kind(cfg, s) = "local" -> <<cfg.lambda0, cfg.lambda0>>
      [] Kind(cfg, s) = "ipop"  -> <<cfg.lambda0 * s.mult, cfg.lambda0 * s.mult>>
      [] Kind(cfg, s) = "lr"    ->
            LET half == (cfg.lambda0 * s.lastMult) \div 2
            IN <<cfg.lambda0, IF half < cfg.lambda0 THEN cfg.lambda0 ELSE half>>

(* ------------------------------ after a run ---------------------------- *)
(* r: evals, reasons (a set), best (empty or [x, v]) *)
AfterRun(cfg, s, r) ==
    LET kind == Kind(cfg, s)
        one  == [s EXCEPT !.runs = @ + 1, !.evals = @ + r.evals,
                          !.best = IF r.best = <<>> THEN @
                                   ELSE IF @ = <<>> \/ BetterValue(cfg.mode, r.best.v, @.v)
                                        THEN r.best ELSE @]
    IN CASE kind = "local" -> one
         [] kind = "lr"    -> [one EXCEPT !.lrEvals = @ + r.evals]
         [] kind = "ipop"  -> [one EXCEPT !.ipopRuns = @ + 1, !.ipopEvals = @ + r.evals,
                                          !.lastEvals = r.evals, !.lastMult = s.mult,
                                          !.mult = @ * cfg.inc]

LastAllowed(cfg, s) ==
    IF cfg.t = "local" THEN s.runs >= cfg.maxRuns ELSE s.ipopRuns >= MaxIpopRuns

(* s: the state after the run r that was of the given kind *)
StopAfter(cfg, s, kind, r) ==
    IF "InvalidFunctionValue" \in r.reasons THEN "InvalidFunctionValue"
    ELSE IF "FunTarget" \in r.reasons THEN "FunTarget"
    ELSE IF kind # "lr" /\ LastAllowed(cfg, s) THEN "MaxRuns"
    ELSE ""
=============================================================================
