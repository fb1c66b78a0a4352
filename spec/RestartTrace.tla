----------------------------- MODULE RestartTrace ---------------------------
(***************************************************************************)
(* Validates what was recorded of restarters against Restart: the runs     *)
(* (observed through the hooks), the calls of the objective function, the  *)
(* results and the printed report.                                         *)
(***************************************************************************)
EXTENDS Restart, Float64, CMAParams, TLC, Json, Emit

CONSTANTS TraceFile, ViolationFile, Checked, Known,
    PoolFile    \* where what was drawn at random is written to ("": nowhere)

Traces == ndJsonDeserialize(TraceFile)

VARIABLES tid, k, st, stop,
    lrs         \* the local runs of BIPOP so far
vars == <<tid, k, st, stop, lrs>>

T   == Traces[tid]
cfg == T.cfg
O   == T.out
Run == T.runs[k + 1]

On(p, label, cond) ==
    p \in Checked =>
        IF cond THEN Tick(p \o "/" \o label)
        ELSE /\ EmitJson(ViolationFile, [property |-> p, label |-> label, trace |-> T.id, op |-> k])
             /\ FALSE

BetterF(mode, a, b) == IF mode = "min" THEN FLt(a, b) ELSE FLt(b, a)
SetOf(q) == {q[i] : i \in 1..Len(q)}
Size == FAbs(FSub(cfg.hi, cfg.lo))
Valid(x) == FIsNormal(x) /\ FLt(FZero, x)

(* what the restarter works with: unset options have their defaults *)
C == [t |-> cfg.t, maxRuns |-> cfg.maxRuns, inc |-> IF cfg.inc = -1 THEN 2 ELSE cfg.inc,
      lambda0 |-> IF cfg.lambda = -1 THEN DefaultPopulation(cfg.n) ELSE cfg.lambda,
      maxEvals |-> cfg.maxEvals, maxEvalsRun |-> cfg.maxEvalsRun, maxGensRun |-> cfg.maxGensRun,
      mode |-> cfg.mode]
Factor == IF cfg.factor # <<>> THEN cfg.factor ELSE IF cfg.t = "local" THEN F("0.5") ELSE F("0.2")

(* -------------------------------- building ----------------------------- *)
GoodStrategy ==
    /\ cfg.factor # <<>> => Valid(cfg.factor)
    /\ cfg.inc # 0
GoodOptions == cfg.n > 0 /\ FIsFinite(FSub(cfg.hi, cfg.lo)) /\ ~FEq(FSub(cfg.hi, cfg.lo), FZero)
StrategyError ==
    IF cfg.factor # <<>> /\ ~Valid(cfg.factor) THEN {"InitialStepSize"} ELSE {}
      \union IF cfg.inc = 0 THEN {"PopulationSize"} ELSE {}
OptionsError == IF cfg.n = 0 THEN {"Dimensions"} ELSE {"SearchRange"}

Init ==
    /\ tid \in 1..Len(Traces)
    /\ k = 0 /\ st = InitRestart /\ stop = "new" /\ lrs = <<>>

Built ==
    /\ stop = "new"
    /\ On("C22", "strategies are rejected without panicking", ~GoodStrategy => O.tag # "panic")
    /\ On("C22", "valid strategies are accepted, others rejected",
          GoodStrategy = ~(O.tag = "err" /\ O.stage = "strategy"))
    /\ ~GoodStrategy => On("C22", "error names the option", O.text \in StrategyError)
    /\ GoodStrategy =>
         /\ On("C20", "restarters do not panic", O.tag # "panic")
         \* nothing that the restarters promise holds when the runs end with a panic
         /\ \A p \in {"C21", IF cfg.t = "bipop" THEN "C23" ELSE "C22", "C24", "C25"} :
               On(p, "restarters do not panic", ~(O.tag = "panic" /\ O.stage = "run"))
         /\ On("C20", "a restarter is built iff its options are valid", GoodOptions = (O.tag = "ok"))
         /\ ~GoodOptions => On("C20", "error names the option", O.text \in OptionsError)
    /\ O.tag = "ok" /\ cfg.seed # "" => On("C25", "seed in use", O.seed = cfg.seed)
    /\ stop' = IF O.tag = "ok" THEN "" ELSE "rejected"
    /\ UNCHANGED <<tid, k, st, lrs>>

(* ------------------------------ single runs ---------------------------- *)
Rel(x, y) == FClose(x, y, F("1e-12"), FZero)
\* a step size that may have been rounded to zero or infinity
Clamp(x) == FMin(FMax(x, F("2.2250738585072014e-308")), F("1.7976931348623157e308"))
Up(x)   == FMul(x, F("1.000000000001"))
Down(x) == FMul(x, F("0.999999999999"))

StepSizeIs(kind, x) ==
    CASE kind = "local" -> Rel(x, Clamp(FMul(FMul(Size, Factor), F("1e-2"))))
      [] kind = "ipop"  -> Rel(x, Clamp(FDiv(Size, F(IF cfg.t = "ipop" THEN "2" ELSE "5"))))
      [] kind = "lr"    -> /\ FLe(Clamp(Down(FMul(FMul(Size, Factor), F("1e-2")))), x)
                           /\ FLe(x, Clamp(Up(FMul(Size, Factor))))

Invalid(r) == "InvalidFunctionValue" \in SetOf(r.reasons)
Prop(kind) == IF cfg.t = "bipop" THEN "C23" ELSE "C22"

(* the latest time at which the previous run was over, since the first began *)
Over == IF k = 0 THEN 0 ELSE T.runs[k].finished - T.runs[1].started
TooLate == cfg.maxTimeUs # -1 /\ Over >= cfg.maxTimeUs

(* completed generations of a run whose evaluations are known: r.vals are *)
(* the values in the order of the calls, r.found the calls that had point  *)
(* and value of the best individual                                        *)
Whole(r) == IF Invalid(r) THEN r.gens * r.params.lambda ELSE Len(r.vals)
BestOfRun(r) ==
    \E m \in {Whole(r)} :
       IF m = 0 THEN r.best.x = <<>>
       ELSE /\ r.best.x # <<>>
            /\ \A i \in 1..m : ~BetterF(cfg.mode, r.vals[i], r.best.v)
            /\ r.found # <<>> /\ r.found[1] <= m
            \* the earliest, where the order of the calls is the order of the individuals
            /\ ~cfg.parallel => \A j \in 1..(r.found[1] - 1) : BetterF(cfg.mode, r.best.v, r.vals[j])

Fits(r) ==
    \E kind \in {Kind(C, st)} : \E pop \in {PopRange(C, st)} :
      /\ On(Prop(kind), kind \o " population size", pop[1] <= r.params.lambda /\ r.params.lambda <= pop[2])
      /\ On(Prop(kind), kind \o " step size", StepSizeIs(kind, r.params.sigma0))
      /\ kind = "lr" =>
           /\ On("C23", "local runs are drawn afresh",
                 \A j \in 1..k : \/ T.runs[j].params.sigma0 # r.params.sigma0
                                 \/ r.params.sigma0 \in {Clamp(FZero), Clamp(F("inf"))})
           /\ On("C23", "evaluation limit of local runs",
                 EvalLimit(C, st) # NoLimit =>
                    /\ r.params.max_evals = EvalLimit(C, st)
                    /\ r.evals < (IF EvalLimit(C, st) = 0 THEN 1 ELSE EvalLimit(C, st)) + r.params.lambda)
      (* an ordinary run with the configured options *)
      /\ On("C24", "limits of the run",
            /\ r.params.max_evals = EvalLimit(C, st)
            /\ r.params.max_gens = cfg.maxGensRun)
      /\ On("C24", "mode and target of the run",
            /\ r.params.mode = cfg.mode /\ r.params.pupd = cfg.pupd
            /\ r.params.has_target = (cfg.target # <<>>)
            /\ cfg.target # <<>> => r.params.fun_target = cfg.target)
      /\ On("C24", "dimension", r.params.dim = cfg.n /\ Len(r.mean) = cfg.n)
      /\ On("C24", "initial mean in the search range",
            \A i \in 1..cfg.n : /\ FLe(FMin(cfg.lo, cfg.hi), r.mean[i]) /\ FLe(r.mean[i], FMax(cfg.lo, cfg.hi)))
      /\ cfg.wide => On("C24", "initial means are drawn afresh",
            /\ \A j \in 1..k : \A i \in 1..cfg.n : T.runs[j].mean[i] # r.mean[i]
            /\ \A i \in 1..cfg.n : \A j \in 1..(i - 1) : r.mean[i] # r.mean[j])
      /\ On("C24", "seeds are drawn afresh", \A j \in 1..k : T.runs[j].params.seed # r.params.seed)
      /\ r.alone # <<>> =>
           /\ On("C24", "standalone run does not panic", r.alone.panic = "")
           /\ On("C24", "parameters of the standalone run", r.alone.params = r.params)
           \* where an invalid value ends a generation in parallel is not determined
           /\ ~(cfg.parallel /\ Invalid(r)) /\ ~cfg.pupd => On("C24", "evaluations of the standalone run",
                 IF cfg.parallel THEN r.alone.bag = r.bag ELSE r.alone.digest = r.digest)
           \* with parallel updates the order of sums is not determined
           /\ ~cfg.pupd => On("C24", "result of the standalone run",
                 /\ r.alone.res = r.res /\ r.alone.gen = r.gens
                 /\ (cfg.parallel /\ Invalid(r)) \/ r.alone.evals = r.evals)
      (* counts *)
      /\ On("C20", "evaluations of the run", r.evals = r.calls1 - r.calls0 /\ r.calls0 = st.evals)
      /\ On("C25", "instances of the objective function",
            \A i \in SetOf(r.insts) : i = IF cfg.fresh THEN k + 1 ELSE 1)
      /\ r.known => On("C21", "best individual of the run", BestOfRun(r))

Another ==
    /\ stop = "" /\ k < Len(T.runs)
    /\ On("C20", "no further run is allowed", StopBefore(C, st, FALSE) = "")
    /\ On("C20", "time limit has passed", ~TooLate)
    /\ On("C20", "runs end", Run.ended)
    /\ Fits(Run)
    /\ \E r \in {[evals |-> Run.evals, reasons |-> SetOf(Run.reasons),
                  best |-> IF Run.best.x = <<>> THEN <<>> ELSE Run.best]} :
       \E n \in {AfterRun(C, st, r)} :
          /\ st' = n
          /\ stop' = StopAfter(C, n, Kind(C, st), r)
    \* with the largest population it could have
    /\ lrs' = IF Kind(C, st) = "lr" THEN Append(lrs, <<k + 1, PopRange(C, st)[2], st.lastMult>>) ELSE lrs
    /\ k' = k + 1 /\ UNCHANGED tid

(* ------------------------------- the report ---------------------------- *)
Shown(p, x) == IF FIsFinite(p.v) THEN FIsFinite(x) /\ FLe(FAbs(FSub(p.v, x)), FAdd(p.tol, FMul(F("1e-15"), FAbs(x))))
               ELSE p.v = x
Name == CASE cfg.t = "local" -> "LR-aCMA-ES" [] cfg.t = "ipop" -> "IPOP-aCMA-ES" [] cfg.t = "bipop" -> "BIPOP-aCMA-ES"
R == O.report
HeaderShown(h) ==
    /\ h.name = Name /\ h.dim = cfg.n /\ h.seed = O.seed
    /\ FEq(h.lo, FMin(cfg.lo, cfg.hi)) /\ FEq(h.hi, FMax(cfg.lo, cfg.hi))
    /\ cfg.t # "ipop" => h.factor # <<>> /\ FEq(h.factor, Factor)
    /\ cfg.t # "local" => h.inc = C.inc
RunShown(i) ==
    \E p \in {R.runs[i]} : \E r \in {T.runs[i]} :
      /\ p.run = i /\ p.lambda = r.params.lambda /\ p.seed = r.params.seed /\ Shown(p.sigma0, r.params.sigma0)
      /\ p.result # <<>>
      /\ p.result.run = i /\ p.result.evals = r.evals /\ p.result.reasons = r.reasons
      /\ IF r.best.x = <<>> THEN p.result.best = <<>>
         ELSE p.result.best # <<>> /\ Shown(p.result.best, r.best.v)
EndShown ==
    /\ R.end.evals = O.evals /\ R.end.reason = O.reason
    /\ IF O.best.x = <<>> THEN R.end.best = <<>> /\ R.end.point = <<>>
       ELSE /\ R.end.best # <<>> /\ FEq(R.end.best, O.best.v)
            /\ Len(R.end.point) = cfg.n /\ \A i \in 1..cfg.n : Shown(R.end.point[i], O.best.x[i])
Report ==
    IF ~cfg.print THEN On("C25", "nothing is printed", R.empty)
    ELSE /\ On("C25", "the report is complete", R.ok /\ Len(R.runs) = Len(T.runs))
         /\ On("C25", "printed options", HeaderShown(R.header))
         /\ On("C25", "printed runs", \A i \in 1..Len(T.runs) : RunShown(i))
         /\ On("C25", "printed result", EndShown)

(* What is drawn at random comes from all parts of its range: with so many *)
(* draws this fails by chance in less than one of 10^10 cases.             *)
Many == 110
HitsQuarters(m, at(_)) ==
    LET q(j) == FAdd(FMin(cfg.lo, cfg.hi), FMul(Size, F(IF j = 1 THEN "0.25" ELSE IF j = 2 THEN "0.5" ELSE "0.75")))
    IN /\ \E j \in 1..m : FLt(at(j), q(1))
       /\ \E j \in 1..m : FLt(q(1), at(j)) /\ FLt(at(j), q(2))
       /\ \E j \in 1..m : FLt(q(2), at(j)) /\ FLt(at(j), q(3))
       /\ \E j \in 1..m : FLt(q(3), at(j))
Spread ==
    /\ (cfg.wide /\ Len(T.runs) >= Many) =>
         \A i \in 1..cfg.n :
            On("C24", "initial means come from all of the search range",
               HitsQuarters(Len(T.runs), LAMBDA j : T.runs[j].mean[i]))
    /\ Len(lrs) >= 45 =>
         On("C23", "step sizes of local runs come from all of their range",
            LET sig(j) == T.runs[lrs[j][1]].params.sigma0
                at == FMul(FMul(Size, Factor), F("0.1"))
            IN (\E j \in 1..Len(lrs) : FLt(sig(j), at)) /\ (\E j \in 1..Len(lrs) : FLt(at, sig(j))))
    /\ \E q \in {SelectSeq(lrs, LAMBDA l : l[2] >= 4 * C.lambda0)} :
         Len(q) >= 45 =>
            On("C23", "populations of local runs vary",
               \E j \in 1..Len(q) : T.runs[q[j][1]].params.lambda > C.lambda0)

(* What was drawn at random, for RestartPool.  lrs has the local runs and  *)
(* their largest populations and the multipliers of the IPOP runs before.  *)
Clip(i) == IF i < 0 THEN 0 ELSE IF i > 9 THEN 9 ELSE i
Tenth(x) == Clip(FToInt(FFloor(FMul(F("10"), x))))      \* 0..9
SigmaAt(i) == Tenth(FDiv(FLn(FDiv(T.runs[i].params.sigma0, FMul(Size, Factor))), FLn(F("0.01"))))
LambdaAt(l) == Tenth(FDiv(FLn(FDiv(FOfInt(T.runs[l[1]].params.lambda), FOfInt(C.lambda0))),
                          FLn(FDiv(FOfInt(l[2]), FOfInt(C.lambda0)))))
(* The population is default * (multiplier / 2) ^ (u * u), rounded down,    *)
(* with a uniform u.  What is known of u given a population is an interval;*)
(* the expectation of its middle is 1/2, however the rounding falls.       *)
UAt(l, lam) == LET x == FDiv(FLn(FDiv(FOfInt(lam), FOfInt(C.lambda0))), FLn(FDiv(FOfInt(l[3]), F("2"))))
               IN FMin(FOne, FSqrt(FMax(FZero, x)))
Middle(l) == LET lam == T.runs[l[1]].params.lambda
             IN FMul(F("0.5"), FAdd(UAt(l, lam), UAt(l, lam + 1)))
Law(q) == <<Len(q), FSum([j \in 1..Len(q) |-> Middle(q[j])])>>
MeanAt(i, c) == Tenth(FDiv(FSub(T.runs[i].mean[c], FMin(cfg.lo, cfg.hi)), Size))
Cells(q) == [c \in 1..10 |-> Len(SelectSeq(q, LAMBDA x : x = c - 1))]
Halves(q) == [c \in 1..4 |-> Len(SelectSeq(q, LAMBDA x : 1 + (x[1] \div 5) + 2 * (x[2] \div 5) = c))]
Drawn ==
    LET m == Len(T.runs)
        wide == SelectSeq(lrs, LAMBDA l : l[2] >= 32 * C.lambda0)
    IN [id |-> T.id,
        sigma |-> Cells([j \in 1..Len(lrs) |-> SigmaAt(lrs[j][1])]),
        lambda |-> Cells([j \in 1..Len(wide) |-> LambdaAt(wide[j])]),
        law |-> Law(wide),
        narrow |-> Law(SelectSeq(lrs, LAMBDA l : l[3] >= 4 /\ l[3] <= 8 /\ C.lambda0 >= 10)),
        joint |-> Halves([j \in 1..Len(wide) |-> <<SigmaAt(wide[j][1]), LambdaAt(wide[j])>>]),
        mean |-> Cells([j \in 1..(IF cfg.wide THEN m * cfg.n ELSE 0) |-> MeanAt(1 + ((j - 1) % m), 1 + (j - 1) \div m)]),
        coords |-> Halves([j \in 1..(IF cfg.wide /\ cfg.n > 1 THEN m ELSE 0) |-> <<MeanAt(j, 1), MeanAt(j, cfg.n)>>])]

(* --------------------------------- the end ----------------------------- *)
Reason == IF stop # "" THEN stop ELSE StopBefore(C, st, O.reason = "MaxTime" /\ cfg.maxTimeUs # -1)
Stops ==
    /\ stop \notin {"new", "rejected", "ended"} /\ k = Len(T.runs)
    /\ On("C20", "reason", O.reason = Reason)
    /\ O.reason = "MaxTime" => On("C20", "time limit had passed", O.elapsed >= cfg.maxTimeUs)
    /\ On("C20", "number of runs and evaluations",
          O.runs = st.runs /\ O.evals = st.evals /\ O.calls = st.evals)
    /\ On("C21", "best individual of all runs",
          O.best = IF st.best = <<>> THEN [x |-> <<>>, v |-> <<>>] ELSE st.best)
    /\ On("C25", "objective functions obtained", O.made = IF cfg.fresh THEN st.runs ELSE 1)
    /\ Report
    /\ Spread
    /\ PoolFile # "" => EmitJson(PoolFile, Drawn)
    \* what MCRestart predicts for the plan that the objective function follows
    /\ T.plan # <<>> => On("C20", "as planned",
          O.reason = T.plan[1].done /\ O.evals = T.plan[1].evals /\ O.runs = T.plan[1].runs)
    /\ cfg.t = "local" => On("C22", "number of local runs", st.runs <= cfg.maxRuns)
    /\ stop' = "ended" /\ UNCHANGED <<tid, k, st, lrs>>

End == stop \in {"rejected", "ended"} /\ UNCHANGED vars
Next == Built \/ Another \/ Stops \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
