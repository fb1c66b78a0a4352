------------------------------ MODULE MCRestart -----------------------------
(***************************************************************************)
(* Explores Restart: runs end after nondeterministic numbers of            *)
(* generations, with nondeterministic best values and reasons.  Behaviours *)
(* that end are written out as plans for the real code.                    *)
(***************************************************************************)
EXTENDS Restart, TLC, Emit

CONSTANTS
    Cfgs,        \* the configurations
    Gens,        \* generations a run can last unless limited
    Values,      \* best values of runs
    Ends,        \* how runs can end: "tol", "target", "nan", "nan first"
    Depth,       \* at most so many runs
    Track,       \* whether the history is kept
    OutFile      \* where plans are written to, "" to write none

BetterInt(mode, a, b) == IF mode = "min" THEN a < b ELSE a > b

VARIABLES cfg, s, plan, done, lrs
vars == <<cfg, s, plan, done, lrs>>

Init ==
    /\ cfg \in Cfgs
    /\ s = InitRestart /\ plan = <<>> /\ done = "" /\ lrs = 0

(* a run of g generations of lambda evaluations: the limits may end it earlier *)
LimitedGens(g, lambda) ==
    LET lim  == EvalLimit(cfg, s)
        byEv == IF lim = NoLimit THEN g ELSE IF lim = 0 THEN 1 ELSE (lim + lambda - 1) \div lambda
        byGn == IF cfg.maxGensRun = NoLimit THEN g ELSE IF cfg.maxGensRun = 0 THEN 1 ELSE cfg.maxGensRun
    IN IF byEv < g /\ byEv <= byGn THEN byEv ELSE IF byGn < g THEN byGn ELSE g

(* best: whether the run had a generation without invalid values *)
Outcome(g, v, e, lambda) ==
    LET lim == LimitedGens(g, lambda)
        cut == lim < g
        bad == ~cut /\ e \in {"nan", "nan first"}
        gens == IF e = "nan first" THEN 1 ELSE lim
    IN [gens  |-> gens,
        evals |-> IF e = "nan first" THEN 1 ELSE IF bad THEN (lim - 1) * lambda + 1 ELSE lim * lambda,
        reasons |-> IF e = "nan first" \/ bad THEN {"InvalidFunctionValue"}
                    ELSE IF cut THEN {"Limit"}
                    ELSE IF e = "target" THEN {"FunTarget"} ELSE {"TolFun"},
        best  |-> IF e = "nan first" \/ (bad /\ lim = 1) THEN <<>>
                  ELSE [x |-> s.runs + 1, v |-> IF e = "target" /\ ~cut
                                                THEN IF cfg.mode = "min" THEN -100 ELSE 100 ELSE v]]

Lambdas == {PopRange(cfg, s)[1], PopRange(cfg, s)[2]}

Stop ==
    \E late \in (IF cfg.late THEN BOOLEAN ELSE {FALSE}) :
       /\ StopBefore(cfg, s, late) # ""
       /\ done' = StopBefore(cfg, s, late)
       /\ UNCHANGED <<cfg, s, plan, lrs>>

One(g, v, e, lambda) ==
    \E r \in {Outcome(g, v, e, lambda)} :
    \E n \in {AfterRun(cfg, s, [evals |-> r.evals, reasons |-> r.reasons, best |-> r.best])} :
       /\ s' = n
       /\ plan' = IF ~Track THEN plan ELSE Append(plan, [gens |-> g, v |-> v, end |-> e, lambda |-> lambda,
                                evals |-> r.evals, best |-> r.best,
                                kind |-> Kind(cfg, s), limit |-> EvalLimit(cfg, s)])
       /\ done' = StopAfter(cfg, n, Kind(cfg, s), r)
       /\ lrs' = IF Kind(cfg, s) = "lr" THEN lrs + 1 ELSE lrs
       /\ UNCHANGED cfg

Run ==
    /\ done = ""
    /\ s.runs < Depth
    /\ \/ Stop
       \/ /\ StopBefore(cfg, s, FALSE) = ""
          /\ \E g \in Gens, v \in Values, e \in Ends, lambda \in Lambdas : One(g, v, e, lambda)

Next == Run \/ ((done # "" \/ s.runs = Depth) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Run)

(* ------------------------------ invariants ----------------------------- *)
Sum(f(_)) == LET RECURSIVE S(_)
                 S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + f(k)
             IN S(Len(plan))
Totals ==
    /\ s.runs = Len(plan)
    /\ s.evals = Sum(LAMBDA k : plan[k].evals)
    /\ cfg.t = "bipop" => /\ s.ipopEvals + s.lrEvals = s.evals
                          /\ s.runs = s.ipopRuns + lrs

(* the best of all runs, the earliest among equals; absent iff no run has one *)
BestOfAll ==
    LET with == {k \in 1..Len(plan) : plan[k].best # <<>>}
    IN /\ (s.best = <<>>) = (with = {})
       /\ s.best # <<>> =>
            /\ \A k \in with : ~BetterInt(cfg.mode, plan[k].best.v, s.best.v)
            /\ \E k \in with : plan[k].best = s.best
                  /\ \A j \in with : j < k => BetterInt(cfg.mode, s.best.v, plan[j].best.v)

RunCounts ==
    /\ cfg.t = "local" => s.runs <= cfg.maxRuns
    /\ cfg.t # "local" => s.ipopRuns <= MaxIpopRuns
    /\ cfg.t = "ipop" => s.runs = s.ipopRuns

(* the budgets of the two regimes of BIPOP stay balanced: a local run can  *)
(* take the local total past the other only by its own evaluations, which  *)
(* are at most half of the latest IPOP run and a generation                *)
Balance ==
    cfg.t = "bipop" =>
        /\ \A k \in 1..Len(plan) :
             plan[k].kind = "lr" =>
                \E j \in 1..(k - 1) :
                   /\ plan[j].kind = "ipop"
                   /\ \A i \in (j + 1)..(k - 1) : plan[i].kind = "lr"
                   /\ plan[k].evals <= plan[j].evals \div 2 + plan[k].lambda
        /\ plan # <<>> => plan[1].kind = "ipop"
        /\ \A k \in 2..Len(plan) :
             LET ev(j, kd) == IF plan[j].kind = kd THEN plan[j].evals ELSE 0
                 RECURSIVE Sm(_, _)
                 Sm(j, kd) == IF j = 0 THEN 0 ELSE Sm(j - 1, kd) + ev(j, kd)
             IN (plan[k].kind = "lr") = (Sm(k - 1, "lr") < Sm(k - 1, "ipop"))

Pow(b, e) == LET RECURSIVE P(_)
                 P(k) == IF k = 0 THEN 1 ELSE b * P(k - 1)
             IN P(e)
(* the k-th IPOP run has the default population size times inc^k *)
Schedule ==
    \A k \in 1..Len(plan) :
       plan[k].kind = "ipop" =>
          plan[k].lambda = cfg.lambda0 * Pow(cfg.inc, Cardinality({j \in 1..(k - 1) : plan[j].kind = "ipop"}))

(* why it stops: in the order of precedence, and never otherwise *)
Last == plan[Len(plan)]
Reasons ==
    /\ done = "MaxFunctionEvals" => cfg.maxEvals # NoLimit /\ s.evals >= cfg.maxEvals
    /\ done = "MaxRuns" => \/ cfg.t = "local" /\ s.runs = cfg.maxRuns
                           \/ cfg.t # "local" /\ s.ipopRuns = MaxIpopRuns /\ Last.kind = "ipop"
    /\ done = "MaxTime" => cfg.late
    /\ (done = "" /\ plan # <<>>) =>
          /\ Last.end # "nan first"
          /\ ~(cfg.t = "local" /\ s.runs >= cfg.maxRuns)
          /\ cfg.t # "local" => s.ipopRuns < MaxIpopRuns
    /\ (cfg.maxEvals # NoLimit) => \A k \in 1..Len(plan) :
          LET RECURSIVE E(_)
              E(j) == IF j = 0 THEN 0 ELSE E(j - 1) + plan[j].evals
          IN E(k - 1) < cfg.maxEvals

(* the same without looking at the history: unbounded  *)
Balanced ==
    cfg.t = "bipop" =>
        /\ s.runs > 0 => s.ipopRuns > 0
        /\ s.lrEvals < s.ipopEvals + Half(s.lastEvals) + PopRange(cfg, [s EXCEPT !.lrEvals = -1])[2]
InvState == RunCounts /\ Balanced /\ (done # "" => done \in {"MaxRuns", "MaxFunctionEvals"})

Inv == Balanced /\ Totals /\ BestOfAll /\ RunCounts /\ Balance /\ Schedule /\ Reasons

(* every restarter ends, as each run makes evaluations *)
Ends_ == <>(done # "" \/ s.runs = Depth)

(* ------------------------------- emission ------------------------------ *)
Emitted ==
    (OutFile # "" /\ (done # "" \/ s.runs = Depth) /\ plan # <<>>) =>
        EmitJson(OutFile, [cfg |-> cfg, done |-> done, evals |-> s.evals,
                           plan |-> [k \in 1..Len(plan) |->
                                       [gens |-> plan[k].gens, v |-> plan[k].v, end |-> plan[k].end]]])

Base == [t |-> "local", maxRuns |-> 3, inc |-> 2, lambda0 |-> 20, maxEvals |-> NoLimit,
         maxEvalsRun |-> NoLimit, maxGensRun |-> NoLimit, mode |-> "min", late |-> FALSE]
CfgsLocal == {[Base EXCEPT !.maxRuns = m, !.mode = d, !.maxEvals = e] :
                m \in 0..3, d \in {"min", "max"}, e \in {NoLimit, 0, 1, 520}}
             \union {[Base EXCEPT !.late = TRUE], [Base EXCEPT !.maxEvalsRun = 260]}
CfgsIpop  == {[Base EXCEPT !.t = "ipop", !.inc = i, !.maxEvals = e, !.mode = d] :
                i \in 1..3, e \in {NoLimit, 700}, d \in {"min", "max"}}
CfgsBipop == {[Base EXCEPT !.t = "bipop", !.inc = i, !.maxEvals = e, !.maxEvalsRun = r] :
                i \in {1, 2, 3}, e \in {NoLimit, 2000}, r \in {NoLimit, 240}}
\* only for exploration: all ten runs
CfgsLong  == {[Base EXCEPT !.t = "bipop", !.inc = 1, !.lambda0 = 2]}
CfgsGrow  == {[Base EXCEPT !.t = "bipop", !.inc = i, !.lambda0 = 2] : i \in {2, 3}}
             \union {[Base EXCEPT !.t = "ipop", !.inc = 2, !.lambda0 = 2]}
GensPlan  == {14, 19}
GensLong  == {1, 2, 3, 5}
ValuesAll == {1, 2, 3}
ValuesTwo == {1, 2}
ValueOne  == {1}
EndsAll   == {"tol", "target", "nan", "nan first"}
EndsTol   == {"tol"}
=============================================================================
