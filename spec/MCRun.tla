-------------------------------- MODULE MCRun -------------------------------
(***************************************************************************)
(* Runs of CMARun over small integers as function values.                  *)
(*                                                                         *)
(* Checked exhaustively (MCRun_*.cfg): the incremental bookkeeping of      *)
(* CMARun agrees, in every reachable state, with the statements of the     *)
(* properties expressed over the complete log of all evaluations.          *)
(*                                                                         *)
(* As a generator (GenRun_*.cfg): every behaviour of Depth operations is   *)
(* emitted together with the observations that the specification predicts, *)
(* and replayed into the real code.                                        *)
(***************************************************************************)
EXTENDS CMARun, TLC, Emit

CONSTANTS Cfgs,          \* the configurations explored
          Alphabets,     \* sets of function values an objective function returns
          Ops,           \* the operations explored
          Depth,         \* number of operations
          MaxRun,        \* bound on the generations of a whole run
          ParallelAbort, \* whether parallel steps cut short by NaN are explored
          EmitTo         \* name of the file for behaviours ("" for none)

NaN == 99999
PosInf == 50000
NegInf == -50000
Infinite == 40000       \* an infinite distance

MCLt(a, b) == a # NaN /\ b # NaN /\ a < b
MCDist(a, b) ==
    IF a = NaN \/ b = NaN \/ (a = b /\ a \in {PosInf, NegInf}) THEN NaN
    ELSE IF a \in {PosInf, NegInf} \/ b \in {PosInf, NegInf} THEN Infinite
    ELSE IF a < b THEN b - a ELSE a - b
MCTimes(a, b) == IF b = NaN \/ (a = 0 /\ b = Infinite) THEN NaN ELSE IF b = Infinite THEN b ELSE a * b
MCMid(a, b) == IF a \in {PosInf, NegInf} THEN a ELSE IF b \in {PosInf, NegInf} THEN b
               ELSE (a + b) \div 2
MCInvalid(v) == v = NaN
MCRank(v, asc) ==
    LET n == Len(v)
        before(i, j) == \/ IF asc THEN v[i] < v[j] ELSE v[j] < v[i]
                        \/ v[i] = v[j] /\ i < j
        pos(i) == 1 + Cardinality({k \in 1..n : before(k, i)})
    IN [p \in 1..n |-> CHOOSE i \in 1..n : pos(i) = p]
MCMedian(v) == MedianOfSorted(v, MCRank(v, TRUE))
MCStagShare(w) == (w * 3) \div 10
MCStagShareSmall(w) == w \div 2

VARIABLES cfg, alpha, s, log, plotLog, lineLog, status, trace
vars == <<cfg, alpha, s, log, plotLog, lineLog, status, trace>>

(* status: "idle" between operations, "run" inside of a whole run          *)
(* log: one element per attempted generation: its evaluations and whether  *)
(* it was completed                                                        *)

Init ==
    /\ cfg \in Cfgs
    /\ alpha \in Alphabets
    /\ s = InitRun(cfg)
    /\ log = <<>>
    /\ plotLog = IF cfg.plotGap = None THEN <<>> ELSE <<[evals |-> 0, gen |-> 0, how |-> "init"]>>
    /\ lineLog = <<>>
    /\ status = "idle"
    /\ trace = <<>>

Ids(vals) == [i \in 1..Len(vals) |-> [x |-> <<s.evals + i>>, v |-> vals[i]]]

(* The observations of a state *)
Obs(op, vals, st, done, reasons, lines) ==
    [op |-> op, vals |-> vals, gen |-> st.gen, evals |-> st.evals, done |-> done,
     reasons |-> reasons, cur |-> st.cur.x, best |-> st.best.x, plot |-> st.plotLen,
     lines |-> lines]

Logged(evs) == Append(log, [evs |-> evs, ok |-> FirstInvalid(evs) = 0])

AddPlot(st, how) ==
    IF st.plotLen # None /\ st.plotGen # s.plotGen
    THEN Append(plotLog, [evals |-> st.plotEvals, gen |-> st.plotGen, how |-> how])
    ELSE plotLog

Busy == Len(trace) < Depth

(* One generation, sequential *)
StepSeq ==
    /\ "next" \in Ops /\ status = "idle" /\ Busy
    /\ \E vals \in [1..cfg.lambda -> alpha] :
         LET evs == Cut(Ids(vals))
             r   == Step(cfg, s, evs, TRUE, {})
         IN /\ s' = r.s
            /\ log' = Logged(evs)
            /\ plotLog' = AddPlot(r.s, "auto")
            /\ lineLog' = IF r.line THEN Append(lineLog, [gen |-> r.s.gen, how |-> "auto"]) ELSE lineLog
            /\ trace' = Append(trace, Obs("next", Values(evs), r.s, r.reasons # {}, r.reasons,
                                          IF r.line THEN 1 ELSE 0))
    /\ UNCHANGED <<cfg, alpha, status>>

(* One generation, parallel: if a value is invalid, some other evaluations *)
(* may or may not have been made.                                          *)
StepPar ==
    /\ ParallelAbort /\ status = "idle" /\ Busy
    /\ \E n \in 1..cfg.lambda : \E vals \in [1..n -> alpha] :
         LET evs == Ids(vals)
             r   == Step(cfg, s, evs, TRUE, {})
         IN /\ n < cfg.lambda => FirstInvalid(evs) # 0
            /\ s' = r.s
            /\ log' = Logged(evs)
            /\ plotLog' = AddPlot(r.s, "auto")
            /\ lineLog' = IF r.line THEN Append(lineLog, [gen |-> r.s.gen, how |-> "auto"]) ELSE lineLog
            /\ trace' = Append(trace, Obs("nextp", Values(evs), r.s, r.reasons # {}, r.reasons,
                                          IF r.line THEN 1 ELSE 0))
    /\ UNCHANGED <<cfg, alpha, status>>

(* The update of the distribution fails, or a criterion of the             *)
(* distribution ends the run: only explored in the model.                  *)
StepOther ==
    /\ "other" \in Ops /\ status = "idle" /\ Busy
    /\ \E vals \in [1..cfg.lambda -> alpha], pd \in BOOLEAN, o \in {{}, {"Other"}} :
         LET evs == Cut(Ids(vals))
             r   == Step(cfg, s, evs, pd, o)
         IN /\ (~pd \/ o # {})
            /\ s' = r.s
            /\ log' = Append(log, [evs |-> evs, ok |-> FirstInvalid(evs) = 0])
            /\ plotLog' = AddPlot(r.s, "auto")
            /\ lineLog' = IF r.line THEN Append(lineLog, [gen |-> r.s.gen, how |-> "auto"]) ELSE lineLog
            /\ trace' = Append(trace, Obs("other", Values(evs), r.s, r.reasons # {}, r.reasons,
                                          IF r.line THEN 1 ELSE 0))
    /\ UNCHANGED <<cfg, alpha, status>>

(* A whole run: starts, performs generations, ends *)
RunStart ==
    /\ "run" \in Ops /\ status = "idle" /\ Busy
    /\ status' = "run"
    /\ trace' = Append(trace, [op |-> "run", vals |-> <<>>, gens |-> 0, lines |-> 0])
    /\ UNCHANGED <<cfg, alpha, s, log, plotLog, lineLog>>

RunStep ==
    /\ status = "run" /\ trace[Len(trace)].gens < MaxRun
    /\ \E vals \in [1..cfg.lambda -> alpha] :
         LET evs  == Cut(Ids(vals))
             r    == Step(cfg, s, evs, TRUE, {})
             old  == trace[Len(trace)]
             all  == old.vals \o Values(evs)
             fin  == Finish(cfg, r.s)
             n    == old.lines + (IF r.line THEN 1 ELSE 0)
         IN IF r.reasons = {}
            THEN /\ s' = r.s /\ status' = "run"
                 /\ plotLog' = AddPlot(r.s, "auto")
                 /\ lineLog' = IF r.line THEN Append(lineLog, [gen |-> r.s.gen, how |-> "auto"]) ELSE lineLog
                 /\ log' = Logged(evs)
                 /\ trace' = [trace EXCEPT ![Len(trace)] =
                                [@ EXCEPT !.vals = all, !.gens = @ + 1, !.lines = n]]
            ELSE /\ s' = fin.s /\ status' = "idle"
                 /\ plotLog' = LET a == AddPlot(r.s, "auto")
                               IN IF fin.s.plotGen # r.s.plotGen
                                  THEN Append(a, [evals |-> fin.s.plotEvals, gen |-> fin.s.plotGen,
                                                  how |-> "final"])
                                  ELSE a
                 /\ lineLog' = LET a == IF r.line THEN Append(lineLog, [gen |-> r.s.gen, how |-> "auto"]) ELSE lineLog
                               IN IF fin.line THEN Append(a, [gen |-> r.s.gen, how |-> "final"]) ELSE a
                 /\ log' = Logged(evs)
                 /\ trace' = [trace EXCEPT ![Len(trace)] =
                                Obs("run", all, fin.s, TRUE, r.reasons,
                                    n + (IF fin.line THEN 1 ELSE 0))]
    /\ UNCHANGED <<cfg, alpha>>

PlotAdd ==
    /\ "plot_add" \in Ops /\ status = "idle" /\ Busy /\ cfg.plotGap # None
    /\ LET t == PlotPoint(s)
       IN /\ s' = t
          /\ plotLog' = AddPlot(t, "manual")
          /\ trace' = Append(trace, Obs("plot_add", <<>>, t, FALSE, {}, 0))
    /\ UNCHANGED <<cfg, alpha, log, lineLog, status>>

Clear ==
    /\ "plot_clear" \in Ops /\ status = "idle" /\ Busy /\ cfg.plotGap # None
    /\ s' = PlotClear(s)
    /\ trace' = Append(trace, Obs("plot_clear", <<>>, s', FALSE, {}, 0))
    /\ UNCHANGED <<cfg, alpha, log, plotLog, lineLog, status>>

PrintInfo ==
    /\ "print_info" \in Ops /\ status = "idle" /\ Busy
    /\ trace' = Append(trace, Obs("print_info", <<>>, s, FALSE, {}, 1))
    /\ UNCHANGED <<cfg, alpha, s, log, plotLog, lineLog, status>>

PrintFinal ==
    /\ "print_final" \in Ops /\ status = "idle" /\ Busy
    /\ trace' = Append(trace, Obs("print_final", <<>>, s, FALSE, {},
                                  IF FinalLineDue(s) THEN 1 ELSE 0))
    /\ UNCHANGED <<cfg, alpha, s, log, plotLog, lineLog, status>>

Next == StepSeq \/ StepPar \/ StepOther \/ RunStart \/ RunStep \/ PlotAdd \/ Clear
          \/ PrintInfo \/ PrintFinal
Spec == Init /\ [][Next]_vars

(* ---------------------------- configurations --------------------------- *)
Base == [mode |-> "min", lambda |-> 2, window |-> 2, maxEvals |-> None, maxGens |-> None,
         hasTarget |-> FALSE, target |-> 0, tolFun |-> 0, tolFunRel |-> 0, tolFunHist |-> 0,
         tolStag |-> 1000, plotGap |-> None, printGap |-> None]
Modes == {"min", "max"}

(* values: ties, invalid values, target, tolerances of the values *)
CfgsValues ==
    {[Base EXCEPT !.mode = m, !.lambda = l, !.hasTarget = TRUE, !.target = t,
                  !.tolFun = f, !.tolFunHist = h, !.tolFunRel = r] :
       m \in Modes, l \in {2}, t \in {2}, f \in {0, 3}, h \in {1}, r \in {0, 2}}
CfgsValues3 ==
    {[Base EXCEPT !.mode = m, !.lambda = 3, !.hasTarget = TRUE, !.target = 2,
                  !.tolFun = 3, !.tolFunHist = 1, !.tolFunRel = 1] : m \in Modes}
AlphaValues == {{0, 2, 4, NaN}}
AlphaInf    == {{0, PosInf, NaN}, {NegInf, 2, NaN}}

(* stagnation: small histories *)
CfgsStag == {[Base EXCEPT !.mode = m, !.tolStag = t] : m \in Modes, t \in {1, 3}}
AlphaStag == {{0, 2}, {2, 4}}

(* budgets, plotting and printing *)
CfgsBudget ==
    {[Base EXCEPT !.maxEvals = e, !.maxGens = g, !.plotGap = p, !.printGap = p] :
       e \in {None, 0, 3, 4, 5}, g \in {None, 0, 1, 2, 3}, p \in {None, 0, 3, 4, 5}}
CfgsPrint ==
    {[Base EXCEPT !.maxGens = g, !.plotGap = p, !.printGap = q] :
       g \in {None, 1, 2, 3, 4, 5, 6}, p \in {0, 4, 5}, q \in {None, 0, 3, 7, 100}}
AlphaOne == {{0, NaN}}
NoNames == ""

StepOps   == {"next"}
OtherOps  == {"next", "other"}
BudgetOps == {"next", "run"}
PrintOps  == {"next", "run", "plot_add", "plot_clear", "print_info", "print_final"}

(* ------------------------------ properties ----------------------------- *)
Done == SelectSeq(log, LAMBDA g : g.ok)
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l).evs \o Flat(Tail(l))
DoneEvals == Flat(Done)
IsBestOf(i, evs) ==
    /\ \A j \in 1..Len(evs) : ~Better(cfg.mode, evs[j].v, evs[i].v)
    /\ \A j \in 1..(i - 1) : Better(cfg.mode, evs[i].v, evs[j].v)
BestOf(evs) == evs[CHOOSE i \in 1..Len(evs) : IsBestOf(i, evs)]

(* C01 *)
BestExact ==
    IF Done = <<>> THEN s.cur.x = <<>> /\ s.best.x = <<>>
    ELSE /\ s.cur = BestOf(Done[Len(Done)].evs)
         /\ s.best = BestOf(DoneEvals)

(* C02 *)
CountsExact ==
    /\ s.evals = Len(Flat(log))
    /\ "other" \notin Ops => s.gen = Len(Done)
    /\ \A i \in 1..Len(log) : log[i].ok => Len(log[i].evs) = cfg.lambda

LastObs == trace[Len(trace)]
LastIsStep == trace # <<>> /\ LastObs.op \in {"next", "nextp"} /\ status = "idle"

(* C03, C04, C05: what the latest step reports, from the log alone *)
GenBest(k)  == BestOf(Done[k].evs).v
GenMed(k)   == LET v == Values(Done[k].evs) IN MedianOfSorted(v, MCRank(v, TRUE))
Spread(S)   == IF S \cap {PosInf, NegInf} # {} THEN (IF Cardinality(S) = 1 THEN NaN ELSE Infinite)
               ELSE (CHOOSE a \in S : \A b \in S : b <= a) - (CHOOSE a \in S : \A b \in S : a <= b)
BestMedian  == LET S == {GenMed(k) : k \in 1..Len(Done)}
               IN CHOOSE a \in S : \A b \in S : ~Better(cfg.mode, b, a)
Oldest(w, k, f(_)) == [i \in 1..k |-> f(Len(Done) - w + i)]
Newest(w, k, f(_)) == [i \in 1..k |-> f(Len(Done) - k + i)]

Iff(reason, cond) == (reason \in LastObs.reasons) <=> cond

ReasonsExact ==
    LastIsStep =>
      IF ~log[Len(log)].ok THEN LastObs.reasons = {"InvalidFunctionValue"}
      ELSE LET n    == Len(Done)
               w    == cfg.window
               now  == {e.v : e \in {Done[n].evs[i] : i \in 1..cfg.lambda}}
               past == Spread({GenBest(k) : k \in (n - w + 1)..n})
               cur  == Spread(now)
               rel  == MCTimes(cfg.tolFunRel, MCDist(GenMed(1), BestMedian))
               full == n >= w
               sw   == IF n \div StagDiv > HistoryCap THEN HistoryCap ELSE n \div StagDiv
               k    == StagShare(sw)
               worse(f(_)) == Better(cfg.mode, MCMedian(Oldest(sw, k, f)), MCMedian(Newest(sw, k, f)))
           IN /\ Iff("MaxFunctionEvals", cfg.maxEvals # None /\ Len(Flat(log)) >= cfg.maxEvals)
              /\ Iff("MaxGenerations", cfg.maxGens # None /\ n >= cfg.maxGens)
              /\ Iff("FunTarget", cfg.hasTarget /\ \E v \in now : Better(cfg.mode, v, cfg.target))
              /\ Iff("TolFunHist", full /\ past < cfg.tolFunHist)
              /\ Iff("TolFun", full /\ past < cfg.tolFun /\ cur < cfg.tolFun)
              /\ Iff("TolFunRel", full /\ MCLt(past, rel) /\ MCLt(cur, rel))
              /\ Iff("TolStagnation", sw >= cfg.tolStag /\ k > 0
                                        /\ worse(GenBest) /\ worse(GenMed))
              /\ "InvalidFunctionValue" \notin LastObs.reasons

HistoriesBounded == Len(s.bestHist) <= HistoryCap /\ Len(s.medHist) = Len(s.bestHist)

(* C03: a whole run goes on as long as there is no reason, so budgets bound it *)
RunBudget ==
    status = "run" /\ LastObs.gens > 0 =>
        /\ cfg.maxEvals # None => s.evals < cfg.maxEvals
        /\ cfg.maxGens # None => s.gen < cfg.maxGens

(* C17 *)
PlotExact ==
    cfg.plotGap # None =>
      /\ s.plotLen <= s.gen + 1
      /\ \A i \in 1..(Len(plotLog) - 1) : plotLog[i].gen < plotLog[i + 1].gen
      /\ \A i \in 2..Len(plotLog) :
           plotLog[i].how = "auto" =>
             \/ plotLog[i].gen = 1
             \/ plotLog[i].evals - plotLog[i - 1].evals >= cfg.plotGap
      /\ (\A i \in 1..Len(trace) : trace[i].op # "plot_clear") => s.plotLen = Len(plotLog)
      \* nothing that was due is missing
      /\ status = "idle" /\ trace # <<>> /\ LastObs.op = "next" /\ log[Len(log)].ok =>
           \/ plotLog[Len(plotLog)].gen = s.gen
           \/ s.evals - plotLog[Len(plotLog)].evals < cfg.plotGap /\ s.gen > 1

(* C18 *)
LinesExact ==
    cfg.printGap # None =>
      /\ \A i \in 1..(Len(lineLog) - 1) :
           \/ lineLog[i].gen < lineLog[i + 1].gen
           \* a second run that completes no generation reports the state again
           \/ lineLog[i].gen = lineLog[i + 1].gen /\ lineLog[i].how = "final"
                 /\ lineLog[i + 1].how = "final"
      /\ \A g \in 1..3 : g <= s.gen => \E i \in 1..Len(lineLog) : lineLog[i].gen = g
      /\ status = "idle" /\ trace # <<>> /\ LastObs.op = "run" /\ s.gen > 0 =>
           lineLog # <<>> /\ lineLog[Len(lineLog)].gen = s.gen

(* C07 *)
AbortKeepsState ==
    [][log' # log /\ ~log'[Len(log')].ok =>
         /\ s'.gen = s.gen /\ s'.cur = s.cur /\ s'.best = s.best
         /\ s'.bestHist = s.bestHist /\ s'.medHist = s.medHist]_vars

(* ------------------------------- emission ------------------------------ *)
Complete == Len(trace) = Depth /\ status = "idle"
EmitBehaviour ==
    (Complete /\ EmitTo # "") => EmitJson(EmitTo, [cfg |-> cfg, trace |-> trace])
=============================================================================
