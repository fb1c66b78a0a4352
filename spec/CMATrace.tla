------------------------------- MODULE CMATrace -----------------------------
(***************************************************************************)
(* Validates traces recorded from the real code against CMARun (control)   *)
(* and CMADist (distribution).                                             *)
(*                                                                         *)
(* A trace is one CMAES object: how it was configured, its state right     *)
(* after it was built, and a list of operations (single generations, whole *)
(* runs, plotting and printing) with everything observed after each: the   *)
(* evaluations made, the result, the reported state and the printed lines. *)
(* An operation whose observations the specification does not allow has no *)
(* transition: the trace is stuck and TLC reports a deadlock.  Conjuncts   *)
(* are labelled with the property they belong to; Checked selects the      *)
(* properties that are decided by a TLC run.                               *)
(***************************************************************************)
EXTENDS CMARun, CMADist, TLC, Json, Emit

CONSTANTS TraceFile, ViolationFile, Checked, Known

Traces == ndJsonDeserialize(TraceFile)

TDist(a, b)  == FAbs(FSub(a, b))
TMid(a, b)   == FDiv(FAdd(a, b), F("2"))
TShare(w)    == (w * 3) \div 10

VARIABLES
    tid,    \* the trace
    l,      \* operations performed
    k,      \* generations performed inside of the whole run at l + 1
    s,      \* control state
    d,      \* hidden state of the distribution
    known,  \* whether d is known: FALSE after whole runs and loss of precision
    pts,    \* recorded plot points
    seen    \* lines printed so far by the whole run at l + 1
vars == <<tid, l, k, s, d, known, pts, seen>>
View == <<tid, l, k>>

T == Traces[tid]
cfg == T.cfg
P == T.params

(* A labelled conjunct of property p. *)
On(p, label, cond) ==
    p \in Checked =>
        IF cond THEN Tick(label)
        ELSE /\ EmitJson(ViolationFile, [property |-> p, label |-> label, trace |-> T.id,
                                         op |-> l + 1, generation |-> k])
             /\ FALSE
(* The same for all checked properties. *)
OnAll(label, cond) ==
    IF cond THEN TRUE
    ELSE /\ EmitJson(ViolationFile, [property |-> "", label |-> label, trace |-> T.id,
                                     op |-> l + 1, generation |-> k])
         /\ FALSE
(* A three-valued condition against an observed boolean *)
Is(v3, b) == IF b THEN v3 # "F" ELSE v3 # "T"

Range3(q) == {q[i] : i \in 1..Len(q)}

(* ------------------------------ configuration -------------------------- *)
N == cfg.n
Lambda == IF cfg.lambda = None THEN DefaultPopulation(N) ELSE cfg.lambda
Default(x, v) == IF x = <<>> THEN v ELSE x
C == [mode |-> cfg.mode, lambda |-> Lambda, window |-> FunWindow(N, Lambda),
      maxEvals |-> cfg.maxEvals, maxGens |-> cfg.maxGens,
      hasTarget |-> cfg.target # <<>>, target |-> cfg.target,
      tolFun |-> Default(cfg.tolFun, F("1e-12")),
      tolFunRel |-> Default(cfg.tolFunRel, FZero),
      tolFunHist |-> Default(cfg.tolFunHist, F("1e-12")),
      tolStag |-> IF cfg.tolStag = None THEN DefaultTolStagnation(N, Lambda) ELSE cfg.tolStag,
      plotGap |-> cfg.plotGap, printGap |-> cfg.printGap]
ThisTolX    == Default(cfg.tolX, DefaultTolX(cfg.sigma0))
ThisTolXUp  == Default(cfg.tolXUp, F("1e8"))
ThisTolCond == Default(cfg.tolCond, F("1e14"))
Cm == Default(cfg.cm, FOne)
Prm == [P EXCEPT !.cm = Cm]
Interval == EigenInterval(N, Lambda, P.c1, P.cmu)

(* ---------------------------- observations ----------------------------- *)
Op    == T.steps[l + 1]
Obs(i) == IF i = 0 THEN T.init ELSE T.steps[i]
Prev  == Obs(l)
Full  == T.full

Ind(o) == [x |-> o.x, v |-> o.v]
SameState(a, b) ==
    /\ a.mean = b.mean /\ a.sigma = b.sigma
    /\ Full => a.cov = b.cov /\ a.eig = b.eig /\ a.ar = b.ar

(* The points of a generation as they are ranked.  In a parallel step the  *)
(* order of the calls is not the order of sampling: among the best, the    *)
(* reported one is put first.                                              *)
Parallel(op) == op \in {"nextp", "runp"}
Ordered(evs, cur) ==
    IF ~Parallel(Op.op) THEN evs
    ELSE LET at == {i \in 1..Len(evs) : evs[i].x = cur.x /\ evs[i].v = cur.v}
         IN IF at = {} THEN evs
            ELSE LET i == CHOOSE i \in at : TRUE
                 IN <<evs[i]>> \o SubSeq(evs, 1, i - 1) \o SubSeq(evs, i + 1, Len(evs))
Ties(v) == \E i \in 1..(Len(v) - 1) : FEq(SortedF(v)[i], SortedF(v)[i + 1])

(* -------------------------------- plots -------------------------------- *)
Roots(v) == SortedF([i \in 1..Len(v) |-> FSqrt(v[i])])
MedOf(st) == IF st.medHist = <<>> THEN F("NaN") ELSE st.medHist[Len(st.medHist)]
BestOf(st) == IF st.cur.v = <<>> THEN F("NaN") ELSE st.cur.v
(* a point for the state o (empty fields: not known) *)
Point(st, o) ==
    [evals |-> st.evals, best |-> BestOf(st), med |-> MedOf(st), sigma |-> o.sigma,
     ar |-> o.ar, mean |-> o.mean, eig |-> Roots(o.eig),
     scales |-> [i \in 1..N |-> FSqrt(o.cov[i][i])]]
PartialPoint(st) ==
    [evals |-> st.evals, best |-> BestOf(st), med |-> MedOf(st), sigma |-> <<>>,
     ar |-> <<>>, mean |-> <<>>, eig |-> <<>>, scales |-> <<>>]
(* the recorded points after the control state changed from a to b *)
WithPoint(q, a, b, pt) == IF b.plotGen # a.plotGen THEN Append(q, pt) ELSE q
Near(a, b) == FClose(a, b, F("1e-12"), F("2e-8"))   \* an offset of 1e-20 is allowed
NearV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
PointIs(q, o) ==
    /\ q.evals = o.evals
    /\ Near(q.best, o.best) /\ Near(q.med, o.med)
    /\ q.sigma # <<>> => Near(q.sigma, o.sigma)
    /\ q.ar # <<>> => Near(q.ar, o.ar)
    /\ q.mean # <<>> => q.mean = o.mean
    /\ q.eig # <<>> => NearV(q.eig, o.eig)
    /\ q.scales # <<>> => NearV(q.scales, o.scales)
PlotIs(q, dump) ==
    /\ Len(q) = Len(dump)
    /\ \A i \in 1..Len(q) : PointIs(q[i], dump[i])

PlotLaw(st, q, o) ==
    /\ On("C17", "plot length", o.plot = st.plotLen)
    /\ On("C17", "empty plot", o.pempty = (st.plotLen = 0))
    /\ On("C17", "capacity of the plot", o.pcap >= o.plot)
    /\ (Full /\ o.plotdump # <<>>) => On("C17", "plot contents", PlotIs(q, o.plotdump))

(* ------------------------------- printing ------------------------------ *)
(* a printed number against the true one *)
Shows(pr, x) ==
    \/ FIsNaN(x) /\ FIsNaN(pr.v)
    \/ pr.v = x
    \/ FIsFinite(x) /\ FLe(FAbs(FSub(pr.v, x)), FAdd(pr.tol, Rel(x, F("1e-12"))))
LineControl(ln, st) ==
    /\ ln.t = "line" /\ ln.gen = st.gen /\ ln.evals = st.evals
    /\ IF st.cur.v = <<>> THEN ln.best = <<>> ELSE ln.best # <<>> /\ Shows(ln.best, st.cur.v)
LineDist(ln, o) ==
    /\ Shows(ln.sigma, o.sigma)
    /\ Full => LET std == [i \in 1..N |-> FMul(o.sigma, FSqrt(o.cov[i][i]))]
               IN /\ Shows(ln.ar, o.ar)
                  \* a variance may be negative by rounding just before PosDefCov
                  /\ (\A i \in 1..N : ~FIsNaN(std[i])) =>
                        Shows(ln.min, FMinOf(std)) /\ Shows(ln.max, FMaxOf(std))
Report(ln, st, o, reasons) ==
    /\ ln.t = "final"
    /\ Range3(ln.reasons) = reasons /\ Len(ln.reasons) = Cardinality(reasons)
    /\ IF st.cur.v = <<>> THEN ln.cur = <<>> /\ ln.best = <<>>
       ELSE ln.cur = st.cur.v /\ ln.best = st.best.v
    /\ Len(ln.mean) = N /\ \A i \in 1..N : Shows(ln.mean[i], o.mean[i])
Header(ln) ==
    /\ ln.t = "header" /\ ln.dim = N /\ ln.lambda = Lambda /\ ln.seed = P.seed
    /\ ln.variant = IF cfg.setting = "negative" THEN "aCMA-ES" ELSE "CMA-ES"
    /\ cfg.seed # "" => ln.seed = cfg.seed

(* ------------------------------ the start ------------------------------ *)
Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 0 /\ k = 0
    /\ s = InitRun(C)
    /\ d = IF T.hooks THEN [InitDist(N) EXCEPT !.vec = T.init.vec] ELSE InitDist(N)
    /\ known = Full
    /\ pts = IF cfg.plotGap = None THEN <<>> ELSE <<Point(InitRun(C), T.init)>>
    /\ seen = 0
    /\ OnAll("panic while building", T.init.panic = "")
    /\ On("C02", "initial counts", T.init.gen = 0 /\ T.init.evals = 0 /\ T.init.calls = 0)
    /\ On("C01", "no initial best", T.init.cur.x = <<>> /\ T.init.best.x = <<>>)
    /\ On("C08", "initial mean and step size", T.init.mean = cfg.mean0 /\ T.init.sigma = cfg.sigma0)
    /\ On("C09", "initial matrix", T.init.cov = MIdent(N) /\ T.init.ar = FOne
                                     /\ T.init.eig = [i \in 1..N |-> FOne]
                                     /\ T.hooks => Orthonormal(N, T.init.vec))
    /\ cfg.plotGap # None => On("C17", "initial plot", T.init.plot = 1)
    /\ On("C18", "header", IF cfg.printGap = None THEN T.init.lines = <<>>
                             ELSE Len(T.init.lines) = 1 /\ Header(T.init.lines[1]))

(* --------------------------- reported state ---------------------------- *)
Reported(st, o) ==
    /\ On("C02", "evaluations reported", o.evals = st.evals)
    /\ On("C02", "evaluations made", o.calls = st.evals)
    /\ On("C02", "generations reported", o.gen = st.gen)
    /\ On("C01", "current best", Ind(o.cur) = st.cur)
    /\ On("C01", "overall best", Ind(o.best) = st.best)
(* a generation with infinite values: the best individuals *)
AnyInfinite(evs) == \E i \in 1..Len(evs) : ~FIsFinite(evs[i].v)
Infinities(st) ==
    On("C07", "infinite values are ordinary", Ind(Op.cur) = st.cur /\ Ind(Op.best) = st.best)
(* the returned data are those of the object *)
Returned(o) ==
    /\ On("C01", "returned individuals", o.res.cur = o.cur /\ o.res.best = o.best)
    /\ On("C01", "returned mean", o.res.mean = o.mean)

(* ---------------------------- distribution ----------------------------- *)
(* Only evaluated when the points of the generation are known in rank order *)
RankedPts(evs) ==
    LET r == FRank(Values(evs), C.mode = "min")
    IN [i \in 1..Len(evs) |-> evs[r[i]].x]

(* the eigenvectors in use: only recorded when they change *)
Vec(o, dd) == IF o.vec = <<>> THEN dd.vec ELSE o.vec

(* What the observed state of a generation says about the hidden state. *)
DistStep(evs, posdef) ==
    LET mv    == Moved(Prm, d, s.gen, Prev.mean, Prev.sigma, RankedPts(evs))
        hs    == ChosenHs(Prm, d, mv, Prev.cov, Op.cov)
        sh    == Shaped(Prm, d, mv, Prev.cov, hs)
        due   == RefreshDue(d, Interval, s.evals + Len(evs))
        \* the decomposition in use is observed if the code has the hooks
        e     == IF T.hooks THEN [val |-> Op.eig, vec |-> Vec(Op, d)] ELSE MEig(Op.cov)
        d1    == [d EXCEPT !.ps = mv.ps, !.pc = sh.pc, !.eps = mv.eps, !.epc = sh.epc]
    IN [mv |-> mv, hs |-> hs, sh |-> sh, due |-> due, e |-> e,
        d |-> IF due /\ posdef
              THEN Refreshed(d1, e, IF T.hooks THEN U ELSE EigTol, s.evals + Len(evs)) ELSE d1]

Sane(D) ==
    /\ VFinite(D.mv.mean) /\ VFinite(D.mv.ps) /\ VFinite(D.sh.pc) /\ VFinite(D.sh.epc)
    /\ FIsFinite(D.mv.eps) /\ MFinite(D.sh.cov) /\ MFinite(D.sh.err) /\ VFinite(D.mv.emean)
    /\ FLt(D.d.cond, IF T.hooks THEN F("1e20") ELSE F("1e13")) /\ AllPositive(D.d.val)

DistLaw(D, posdef) ==
    /\ On("C08", "mean",
          \A i \in 1..N : FLe(FAbs(FSub(Op.mean[i], D.mv.mean[i])), D.mv.emean[i]))
    /\ FLt(D.mv.eps, F("1e-2")) =>
          On("C08", "step size", FLe(FAbs(FSub(Op.sigma, D.mv.sigma)),
                                     FMul(D.mv.sigma, D.mv.esig)))
    /\ FLt(D.mv.eps, F("1e-6")) => Tick("C08/step size, path known to 1e-6")
    /\ On("C09", "symmetry", Symmetric(Op.cov))
    /\ On("C09", "covariance matrix", CovAgrees(D.sh, Op.cov))
    /\ D.hs = 0 => Tick("C09/long step size path")
    /\ FLt(CovBlur(D.sh), F("1e-6")) => Tick("C09/covariance matrix known to 1e-6")
    /\ IF D.due /\ posdef
       THEN /\ On("C09", "eigenvalues positive", AllPositive(Op.eig))
            /\ T.hooks => On("C09", "eigenvectors orthonormal", Orthonormal(N, D.e.vec))
            /\ On("C09", "refreshed decomposition",
                  IF T.hooks THEN Decomposes(D.e.val, D.e.vec, Op.cov)
                  ELSE EigAgrees(N, Op.eig, D.e))
            /\ On("C09", "axis ratio", AxisRatioAgrees(Op.ar, Op.eig))
       ELSE On("C09", "decomposition kept", /\ Op.eig = Prev.eig /\ Op.ar = Prev.ar
                                            /\ Vec(Op, d) = d.vec)
    /\ D.due /\ ~posdef => On("C09", "not positive definite",
                               PosDef3(N, MEig(Op.cov)) # "T")
    /\ ~D.due => On("C09", "no check between refreshes", posdef)

(* --------------------------- termination ------------------------------- *)
Reasons == {Op.res.reasons[i] : i \in 1..Len(Op.res.reasons)}
Fires(r) == IF Op.done THEN r \in Reasons ELSE FALSE

MaxTime3 ==
    IF cfg.maxTimeUs = None THEN "F"
    ELSE IF Op.t0 > cfg.maxTimeUs THEN "T"
    ELSE IF Op.t1 < cfg.maxTimeUs THEN "F" ELSE "U"

(* last: the step or the last generation of a whole run *)
ControlLaw(st, evs) ==
    LET r == ControlReasons(C, st, evs)
        on(p, name) == On(p, name, Fires(name) <=> name \in r)
    IN /\ on("C03", "MaxFunctionEvals") /\ on("C03", "MaxGenerations")
       /\ On("C03", "MaxTime", Is(MaxTime3, Fires("MaxTime")))
       /\ on("C04", "FunTarget") /\ on("C04", "TolFun") /\ on("C04", "TolFunRel")
       /\ on("C04", "TolFunHist")
       /\ on("C05", "TolStagnation")
       /\ On("C07", "InvalidFunctionValue", ~Fires("InvalidFunctionValue"))
       /\ r # {} => /\ "FunTarget" \in r => Tick("C04/FunTarget fires")
                    /\ "TolFun" \in r => Tick("C04/TolFun fires")
                    /\ "TolFunRel" \in r => Tick("C04/TolFunRel fires")
                    /\ "TolFunHist" \in r => Tick("C04/TolFunHist fires")
                    /\ "TolStagnation" \in r => Tick("C05/TolStagnation fires")
       /\ Len(st.bestHist) >= C.window => Tick("C04/full window")

FiresTick(name) == Fires(name) => Tick(name \o " fires")
CoordLaw ==
    LET doc == NoEffectCoord3(Op.mean, Op.sigma, Op.cov)
        var == NoEffectCoordVariance3(Op.mean, Op.sigma, Op.cov)
        f   == Fires("NoEffectCoord")
    IN IF Is(doc, f) THEN On("C06", "NoEffectCoord", TRUE)
       ELSE IF "NoEffectCoord-variance" \in Known /\ Is(var, f)
       THEN Tick("known finding NoEffectCoord-variance")
       ELSE On("C06", "NoEffectCoord", FALSE)

DistReasons(dd, haveD) ==
    /\ haveD => On("C06", "TolX", Is(TolX3(ThisTolX, Op.sigma, Op.cov, dd.pc, dd.epc), Fires("TolX")))
    /\ On("C06", "TolXUp", Is(TolXUp3(ThisTolXUp, Op.sigma, cfg.sigma0, Op.eig), Fires("TolXUp")))
    /\ On("C06", "TolConditionCov", Is(TolCond3(ThisTolCond, Op.ar, Len(Op.eig)), Fires("TolConditionCov")))
    /\ "C06" \in Checked => CoordLaw
    /\ haveD => LET v == NoEffectAxis3(Op.mean, Op.sigma, (Op.gen % N) + 1,
                                          Op.eig[(Op.gen % N) + 1], dd)
                IN On("C06", "NoEffectAxis", Is(v, Fires("NoEffectAxis")))
    /\ "C06" \in Checked =>
          /\ FiresTick("TolX") /\ FiresTick("TolXUp") /\ FiresTick("TolConditionCov")
          /\ FiresTick("NoEffectCoord") /\ FiresTick("NoEffectAxis")

(* ---------------------------- one generation --------------------------- *)
Advance == l' = l + 1 /\ k' = 0 /\ seen' = 0 /\ UNCHANGED tid

PrintedLines(n, st, last) ==
    On("C18", "lines of a generation",
       /\ Len(Op.lines) = n
       /\ n = 1 => LineControl(Op.lines[1], st) /\ LineDist(Op.lines[1], Op))

Generation ==
    /\ l < Len(T.steps) /\ Op.op \in {"next", "nextp"}
    /\ OnAll("panic", Op.panic = "")
    /\ \E evs \in {Op.evs} :
       \E bad \in {FirstInvalid(evs)} :
          IF bad # 0
          THEN LET st == Aborted(s, Len(evs)) IN
               /\ On("C07", "ends with InvalidFunctionValue",
                     Op.done /\ Op.res.reasons = <<"InvalidFunctionValue">>)
               /\ ~Parallel(Op.op) => On("C07", "nothing evaluated after the invalid value",
                                         bad = Len(evs))
               /\ On("C02", "evaluations of a generation", Len(evs) <= Lambda)
               /\ On("C07", "state kept", SameState(Op, Prev))
               /\ On("C07", "counts and individuals kept",
                     Op.gen = Prev.gen /\ Op.cur = Prev.cur /\ Op.best = Prev.best)
               /\ Op.done => Returned(Op)
               /\ Reported(st, Op)
               /\ PlotLaw(st, pts, Op)
               /\ PrintedLines(0, st, FALSE)
               /\ s' = st
               /\ UNCHANGED <<d, known, pts>>
          ELSE
          \* \E over single values instead of LET: TLC evaluates them once
          \E ord \in {Ordered(evs, Op.cur)}, posdef \in {~Fires("PosDefCov")},
             whole \in {Len(evs) = Lambda} :
          \E r \in {Step(C, s, ord, posdef, {})},
             useD \in {known /\ whole /\ ~(Parallel(Op.op) /\ Ties(Values(evs)))
                          /\ FIsNormal(Prev.sigma) /\ ~FEq(Prev.sigma, FZero) /\ MFinite(Op.cov)} :
          \E D \in {IF useD THEN DistStep(ord, posdef) ELSE [d |-> d]} :
          \E sane \in {useD /\ Sane(D)} :
             /\ On("C02", "evaluations of a generation", whole)
             /\ whole
             /\ On("C07", "InvalidFunctionValue", ~Fires("InvalidFunctionValue"))
             /\ AnyInfinite(evs) => Infinities(r.s)
             /\ sane /\ AnyInfinite(evs) =>
                   On("C07", "infinite values ranked",
                      \A i \in 1..N : FLe(FAbs(FSub(Op.mean[i], D.mv.mean[i])), D.mv.emean[i]))
             /\ Reported(r.s, Op)
             /\ Op.done => Returned(Op)
             /\ On("C03", "reasons are given", Op.done => Op.res.reasons # <<>>)
             /\ On("C03", "no reason twice", Op.done => Len(Op.res.reasons) = Cardinality(Reasons))
             /\ IF posdef
                THEN /\ ControlLaw(r.s, ord)
                     /\ Full => DistReasons(IF sane THEN D.d ELSE d, sane)
                ELSE On("C09", "only reason PosDefCov", Reasons = {"PosDefCov"})
             /\ sane => DistLaw(D, posdef)
             /\ LET q == WithPoint(pts, s, r.s, IF Full THEN Point(r.s, Op) ELSE PartialPoint(r.s))
                IN PlotLaw(r.s, q, Op) /\ pts' = q
             /\ PrintedLines(IF r.line THEN 1 ELSE 0, r.s, FALSE)
             /\ s' = r.s
             /\ d' = IF sane THEN D.d ELSE d
             /\ known' = sane
    /\ Advance

(* ------------------------------ whole runs ----------------------------- *)
(* The evaluations of generation k + 1 of the run. *)
RunEvs ==
    LET from == k * Lambda + 1
        rest == Len(Op.evs) - k * Lambda
    IN SubSeq(Op.evs, from, from + (IF rest < Lambda THEN rest ELSE Lambda) - 1)
LastOfRun == Len(Op.evs) <= (k + 1) * Lambda


RunGeneration ==
    /\ l < Len(T.steps) /\ Op.op \in {"run", "runp"}
    /\ OnAll("panic", Op.panic = "")
    /\ ~LastOfRun
    /\ \E evs \in {RunEvs} :
       \E r \in {Step(C, s, evs, TRUE, {})} :
       \E n \in {IF r.line THEN 1 ELSE 0} :
          /\ On("C07", "nothing evaluated after the invalid value", FirstInvalid(evs) = 0)
          /\ FirstInvalid(evs) = 0
          /\ On("C03", "run goes on only without reason",
                r.reasons \intersect {"MaxFunctionEvals", "MaxGenerations"} = {})
          /\ On("C04", "run goes on only without reason",
                r.reasons \intersect {"FunTarget", "TolFun", "TolFunRel", "TolFunHist"} = {})
          /\ On("C05", "run goes on only without reason", "TolStagnation" \notin r.reasons)
          /\ n = 1 => On("C18", "line of a generation",
                         /\ Len(Op.lines) > seen
                         /\ LineControl(Op.lines[seen + 1], r.s))
          /\ s' = r.s
          /\ seen' = seen + n
          /\ pts' = WithPoint(pts, s, r.s, PartialPoint(r.s))
    /\ k' = k + 1
    /\ known' = FALSE
    /\ UNCHANGED <<tid, l, d>>

RunEnd ==
    /\ l < Len(T.steps) /\ Op.op \in {"run", "runp"}
    /\ OnAll("panic", Op.panic = "")
    /\ LastOfRun
    /\ \E evs \in {RunEvs}, posdef \in {~Fires("PosDefCov")} :
       \E bad \in {FirstInvalid(evs)} :
       \E r0 \in {Step(C, s, IF bad = 0 THEN Ordered(evs, Op.cur) ELSE evs, posdef, {})} :
       \E st \in {r0.s}, n \in {IF r0.line THEN 1 ELSE 0},
          tail \in {SubSeq(Op.lines, seen + 1, Len(Op.lines))} :
       \E fin \in {Finish(C, st)} :
          /\ On("C03", "run ends with a result", Op.done /\ Op.res.reasons # <<>>)
          /\ Op.done
          /\ IF bad # 0
             THEN /\ On("C07", "ends with InvalidFunctionValue",
                        Op.res.reasons = <<"InvalidFunctionValue">>)
                  /\ ~Parallel(Op.op) => On("C07", "nothing evaluated after the invalid value",
                                            bad = Len(evs))
                  /\ (k = 0) => On("C07", "state kept", SameState(Op, Prev))
             ELSE /\ On("C02", "evaluations of a generation", Len(evs) = Lambda)
                  /\ AnyInfinite(evs) => Infinities(st)
                  /\ posdef => ControlLaw(st, Ordered(evs, Op.cur))
          /\ Returned(Op)
          /\ Reported(fin.s, Op)
          /\ LET q1 == WithPoint(pts, s, st, IF Full THEN Point(st, Op) ELSE PartialPoint(st))
                 q2 == WithPoint(q1, st, fin.s, IF Full THEN Point(st, Op) ELSE PartialPoint(st))
             IN PlotLaw(fin.s, q2, Op) /\ pts' = q2
          /\ On("C18", "lines at the end of a run",
                IF cfg.printGap = None THEN Op.lines = <<>>
                ELSE LET m == n + (IF fin.line THEN 1 ELSE 0) IN
                     /\ Len(tail) = m + 1
                     /\ \A i \in 1..m : LineControl(tail[i], st) /\ LineDist(tail[i], Op)
                     /\ Report(tail[m + 1], st, Op, Reasons))
          /\ s' = fin.s
    /\ known' = FALSE
    /\ UNCHANGED d
    /\ Advance

(* --------------------------- other operations -------------------------- *)
Unchanged == On("C13", "state unchanged by plotting or printing",
                /\ SameState(Op, Prev) /\ Op.gen = Prev.gen /\ Op.evals = Prev.evals
                /\ Op.calls = Prev.calls /\ Op.cur = Prev.cur /\ Op.best = Prev.best)

Other ==
    /\ l < Len(T.steps)
    /\ Op.op \in {"observe", "sleep", "plot_add", "plot_clear", "plot_save",
                  "print_info", "print_init", "print_final"}
    /\ OnAll("panic", Op.panic = "")
    /\ Unchanged
    /\ Reported(s, Op)
    /\ LET st == CASE Op.op = "plot_add"   -> PlotPoint(s)
                   [] Op.op = "plot_clear" -> PlotClear(s)
                   [] OTHER -> s
           q  == CASE Op.op = "plot_add"   -> WithPoint(pts, s, st,
                                                IF Full THEN Point(st, Op) ELSE PartialPoint(st))
                   [] Op.op = "plot_clear" -> <<pts[Len(pts)]>>
                   [] OTHER -> pts
       IN /\ PlotLaw(st, q, Op)
          /\ s' = st /\ pts' = q
    /\ Op.op = "plot_clear" => On("C17", "cleared plots keep their memory", Op.pcap = Prev.pcap)
    /\ Op.op = "plot_save" =>
          On("C17", "image saved", Op.save.ok /\ Op.save.png /\ Op.save.size > 0)
    /\ On("C18", "printed on request",
          CASE Op.op = "print_info" ->
                 Len(Op.lines) = 1 /\ LineControl(Op.lines[1], s) /\ LineDist(Op.lines[1], Op)
            [] Op.op = "print_init" -> Len(Op.lines) = 1 /\ Header(Op.lines[1])
            [] Op.op = "print_final" ->
                 LET m == IF FinalLineDue(s) THEN 1 ELSE 0 IN
                 /\ Len(Op.lines) = m + 1
                 /\ m = 1 => LineControl(Op.lines[1], s) /\ LineDist(Op.lines[1], Op)
                 /\ Report(Op.lines[m + 1], s, Op, {})
            [] OTHER -> Op.lines = <<>>)
    /\ UNCHANGED <<d, known>>
    /\ Advance

End == l = Len(T.steps) /\ UNCHANGED vars

Next == Generation \/ RunGeneration \/ RunEnd \/ Other \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
