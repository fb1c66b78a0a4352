-------------------------------- MODULE MCPair ------------------------------
(***************************************************************************)
(* Symmetries of CMARun, explored on pairs of runs: minimizing f and       *)
(* maximizing -f, and minimizing f and g(f) for strictly increasing g, go  *)
(* through the same control states.                                        *)
(***************************************************************************)
EXTENDS MCRun

CONSTANT Increasing     \* functions on the alphabet, strictly increasing

VARIABLES map, neg, ord, reasons
pvars == <<vars, map, neg, ord, reasons>>

NegV(v) == IF v = NaN THEN v ELSE -v
NegCfg == [cfg EXCEPT !.mode = IF @ = "min" THEN "max" ELSE "min", !.target = NegV(@)]
\* criteria that depend on values out of play
OrdCfg(c) == [c EXCEPT !.tolFun = 0, !.tolFunHist = 0, !.tolFunRel = 0, !.hasTarget = FALSE, !.tolStag = 1000]

PInit ==
    /\ Init
    /\ map \in Increasing
    /\ neg = InitRun(NegCfg) /\ ord = InitRun(OrdCfg(cfg))
    /\ reasons = [neg |-> {}, ord |-> {}, own |-> {}]

Map(v) == IF v \in DOMAIN map THEN map[v] ELSE v
With(evs, f(_)) == [i \in 1..Len(evs) |-> [evs[i] EXCEPT !.v = f(@)]]

PNext ==
    /\ StepSeq
    /\ \E evs \in {log'[Len(log')].evs} :
       \E rn \in {Step(NegCfg, neg, With(evs, NegV), TRUE, {})}, ro \in {Step(OrdCfg(cfg), ord, With(evs, Map), TRUE, {})} :
          /\ neg' = rn.s /\ ord' = ro.s
          /\ reasons' = [neg |-> rn.reasons, ord |-> ro.reasons, own |-> trace'[Len(trace')].reasons]
    /\ UNCHANGED map
PSpec == PInit /\ [][PNext]_pvars

ValueReasons == {"FunTarget", "TolFun", "TolFunRel", "TolFunHist", "TolStagnation"}

SameByMode ==
    /\ neg.gen = s.gen /\ neg.evals = s.evals
    /\ neg.cur.x = s.cur.x /\ neg.best.x = s.best.x
    /\ s.best.x # <<>> => neg.cur.v = NegV(s.cur.v) /\ neg.best.v = NegV(s.best.v)
    /\ neg.bestHist = [i \in 1..Len(s.bestHist) |-> NegV(s.bestHist[i])]
    /\ neg.medHist = [i \in 1..Len(s.medHist) |-> NegV(s.medHist[i])]
    /\ reasons.neg = reasons.own
SameByOrder ==
    /\ ord.gen = s.gen /\ ord.evals = s.evals
    /\ ord.cur.x = s.cur.x /\ ord.best.x = s.best.x
    /\ reasons.ord = reasons.own \ ValueReasons

IncreasingMaps == {[v \in {-2, 0, 2, 4} |-> 2 * v], [v \in {-2, 0, 2, 4} |-> IF v > 0 THEN v + 100 ELSE v],
                   [v \in {-2, 0, 2, 4} |-> IF v < 0 THEN v - 2000 ELSE IF v = 4 THEN 40 ELSE v]}
AlphaPair == {{-2, 0, 4}, {0, 2, NaN}, {0, PosInf}, {NegInf, 2}}
CfgsPair ==
    {[Base EXCEPT !.mode = m, !.lambda = 2, !.hasTarget = TRUE, !.target = t, !.tolFun = f, !.tolFunHist = 1,
                  !.tolFunRel = r, !.tolStag = 1, !.maxEvals = e] :
       m \in Modes, t \in {2}, f \in {5}, r \in {0, 2}, e \in {4}}
CfgsPairMore ==
    {[c EXCEPT !.target = t, !.tolFun = f, !.maxEvals = e] :
       c \in CfgsPair, t \in {-2, 2}, f \in {0, 5}, e \in {None, 4}}
=============================================================================
