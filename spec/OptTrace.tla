------------------------------- MODULE OptTrace -----------------------------
(***************************************************************************)
(* Validates what the real code builds from sequences of option calls      *)
(* against Options and CMAParams.  One step per case.                      *)
(***************************************************************************)
EXTENDS Options, TLC, Json, Emit

CONSTANTS TraceFile, ViolationFile, Checked, Known

Traces == ndJsonDeserialize(TraceFile)

VARIABLES tid, done
vars == <<tid, done>>

T == Traces[tid]
R == T.out
P == R.params

On(p, label, cond) ==
    p \in Checked =>
        IF cond THEN Tick(label)
        ELSE /\ EmitJson(ViolationFile, [property |-> p, label |-> label, trace |-> T.id, op |-> 0])
             /\ FALSE

O == SetAll(NewOptions(T.mean, T.sigma), T.calls, 1)
N == Len(O.set_mean)

(* The default population size is that of the dimension the options were   *)
(* created with; if the initial mean is replaced by one of another         *)
(* dimension, that of either dimension is accepted.                        *)
Ambiguous == ~O.popSet /\ Len(T.mean) # N
PopOk == IF Ambiguous THEN P.lambda \in {O.pop, DefaultPopulation(N)} ELSE P.lambda = O.pop
OO == [O EXCEPT !.pop = P.lambda]

Built ==
    /\ On("C16", "builds", R.tag = "ok")
    /\ On("C16", "dimension and population size", P.dim = N /\ PopOk /\ P.exact.lambda = ToString(P.lambda))
    /\ On("C16", "mode, weights and state update",
          P.mode = O.mode /\ P.setting = O.weights /\ P.pupd = O.pupd)
    /\ On("C16", "step size, cm", P.sigma0 = O.set_sigma /\ P.cm = O.cm)
    /\ On("C16", "limits", /\ P.exact.max_evals = SomeText(O.max_evals)
                           /\ P.exact.max_gens = SomeText(O.max_gens)
                           /\ P.exact.max_time = (IF O.max_time = "" THEN "None" ELSE O.max_time))
    /\ On("C16", "target", P.has_target = (O.fun_target # <<>>)
                           /\ (O.fun_target # <<>> => P.fun_target = O.fun_target))
    /\ On("C16", "tolerances of function values",
          P.tol_fun = O.tol_fun /\ P.tol_fun_rel = O.tol_fun_rel /\ P.tol_fun_hist = O.tol_fun_hist)
    /\ On("C16", "tolerances of the distribution",
          /\ IF O.tol_x # <<>> THEN P.tol_x = O.tol_x
             ELSE FClose(P.tol_x, TolXOf(O), F("1e-15"), FZero) \/ FLt(TolXOf(O), F("1e-300"))
          /\ P.tol_x_up = O.tol_x_up /\ P.tol_cond = O.tol_cond)
    /\ On("C16", "stagnation", P.exact.tol_stag = TolStagOf(OO))
    /\ On("C16", "seed", O.seed # "" => P.seed = O.seed)
    /\ On("C16", "fresh run",
          /\ R.gen = 0 /\ R.evals = 0 /\ R.calls = 0
          /\ R.mean = O.set_mean /\ R.sigma = O.set_sigma
          /\ N <= 30 => R.cov = MIdent(N)
          /\ R.eig = [i \in 1..N |-> FOne] /\ R.ar = FOne
          /\ R.cur.x = <<>> /\ R.best.x = <<>>
          /\ R.plot = (IF O.plot = "" THEN -1 ELSE 1)
          /\ (R.out = "") = (O.print = ""))

(* -------------------------- strategy parameters ------------------------ *)
Near(a, b) == FClose(a, b, F("1e-10"), F("1e-4"))
(* \E over one value: TLC evaluates arguments of operators by name *)
Strategy ==
    \E n \in {N}, lambda \in {P.lambda}, set \in {O.weights} :
    \E want \in {TLCEval(Params(n, lambda, set))}, w \in {P.weights} :
    \E ww \in {want.weights}, mu2 \in {lambda \div 2} :
    \E rest \in {SubSeq(w, mu2 + 1, Len(w))} :
    /\ On("C10", "mu", P.mu = want.mu)
    /\ On("C10", "mueff", Near(P.mueff, want.mueff))
    /\ On("C10", "learning rates", /\ Near(P.cc, want.cc) /\ Near(P.c1, want.c1)
                                   /\ Near(P.cmu, want.cmu) /\ Near(P.cs, want.cs))
    /\ On("C10", "damping", Near(P.damp, want.damp))
    /\ On("C10", "number of weights", Len(w) \in {mu2, lambda})
    /\ On("C10", "weights",
          \A i \in 1..lambda :
             Near(IF i <= Len(w) THEN w[i] ELSE FZero, IF i <= Len(ww) THEN ww[i] ELSE FZero))
    \* directly, whatever the formulas
    /\ On("C10", "positive weights",
          /\ Near(FSum(SubSeq(w, 1, mu2)), FOne)
          /\ \A i \in 1..mu2 : FGt(w[i], FZero)
          /\ \A i \in 1..(Len(w) - 1) : FLe(w[i + 1], w[i])
          /\ set = "uniform" => \A i \in 1..mu2 : Near(FMul(w[i], FOfInt(mu2)), FOne))
    /\ On("C10", "negative weights",
          IF set = "negative"
          THEN Near(FSum(rest), FNeg(want.alpha)) /\ \A i \in 1..Len(rest) : FLe(rest[i], FZero)
          ELSE \A i \in 1..Len(rest) : FEq(rest[i], FZero))

Init == tid \in 1..Len(Traces) /\ done = FALSE

Check ==
    /\ ~done
    /\ IF Errors(O) = {} \/ (Ambiguous /\ Errors(O) = {})
       THEN /\ Built
            /\ R.tag = "ok" => Strategy
            /\ Tick("built")
       ELSE /\ On("C16", "rejected", R.tag = "err")
            /\ On("C16", "offending option", R.text \in Errors(O))
            /\ Tick("rejected for " \o R.text)
    /\ done' = TRUE /\ UNCHANGED tid

End == done /\ UNCHANGED vars
Next == Check \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
