-------------------------------- MODULE Pairs -------------------------------
(***************************************************************************)
(* Relations between two runs.  Each trace has the aligned observations of *)
(* both, and says how they must be related:                                *)
(*   factor   points, means and step sizes of the second run are those of  *)
(*            the first times this factor, exactly                         *)
(*   values   "same", "negated" or "ordered" (any values, but the same     *)
(*            points are the best)                                         *)
(*   ordered  the points are evaluated in the same order                   *)
(*   counts   the numbers of evaluations agree also where an invalid value *)
(*            ends a generation                                            *)
(*   reasons  "all" or "others" (apart from those that depend on values)   *)
(*   differ   the runs must have no point in common                        *)
(*   scales   the objective function of the first run sees the points of   *)
(*            the second times each of these vectors                       *)
(* back: what the first run returned as its objective function.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Float64, TLC, Json, Emit

CONSTANTS TraceFile, ViolationFile, Checked, Known

Traces == ndJsonDeserialize(TraceFile)

VARIABLES tid, k, cut
vars == <<tid, k, cut>>

T == Traces[tid]
R == T.rel
P == T.property

On(label, cond) ==
    P \in Checked =>
        IF cond THEN Tick(P \o "/" \o T.kind \o ": " \o label)
        ELSE /\ EmitJson(ViolationFile, [property |-> P, label |-> T.kind \o ": " \o label,
                                         trace |-> T.id, op |-> k])
             /\ FALSE

(* ------------------------------ relations ------------------------------ *)
X(x) == IF R.factor = FOne THEN x ELSE FMul(x, R.factor)
XV(v) == IF R.factor = FOne THEN v ELSE [i \in 1..Len(v) |-> FMul(v[i], R.factor)]
V(v) == IF R.values = "negated" THEN FNeg(v) ELSE v

Ind(a, b) ==
    /\ (a.x = <<>>) = (b.x = <<>>)
    /\ a.x # <<>> => XV(a.x) = b.x /\ (R.values = "ordered" \/ V(a.v) = b.v)

ValueReasons == {"FunTarget", "TolFun", "TolFunRel", "TolFunHist", "TolStagnation"}
SetOf(q) == {q[i] : i \in 1..Len(q)}
Reasons(r) == IF R.reasons = "all" THEN SetOf(r) ELSE SetOf(r) \ ValueReasons

RECURSIVE Inside(_, _)
Inside(chain, x) == IF chain = <<>> THEN x ELSE Inside(Tail(chain), VMul(x, Head(chain)))
S(x) == Inside(R.scales, x)
Event(a, b) == XV(a.x) = S(b.x) /\ (R.values = "ordered" \/ V(a.v) = b.v)
Mapped(e) == [x |-> XV(e.x), v |-> IF R.values = "ordered" THEN <<>> ELSE V(e.v)]
Plain(e)  == [x |-> S(e.x), v |-> IF R.values = "ordered" THEN <<>> ELSE e.v]
(* the same number of times: points that occur more than once are rare *)
SameBag(a, b) ==
    \E A \in {[i \in 1..Len(a) |-> Mapped(a[i])]}, B \in {[i \in 1..Len(b) |-> Plain(b[i])]} :
       \E sa \in {SetOf(A)} :
          /\ sa = SetOf(B)
          /\ Cardinality(sa) # Len(A) =>
                \A e \in sa : Len(SelectSeq(A, LAMBDA x : x = e)) = Len(SelectSeq(B, LAMBDA x : x = e))

Aborted(o) == "InvalidFunctionValue" \in SetOf(o.reasons)

Points(a, b) ==
    IF Aborted(a) /\ ~R.counts
    THEN LET A == {Mapped(a.evs[i]).x : i \in 1..Len(a.evs)}
             B == {S(b.evs[i].x) : i \in 1..Len(b.evs)}
         IN A \subseteq B \/ B \subseteq A \/ T.threads
    ELSE /\ Len(a.evs) = Len(b.evs)
         /\ IF R.ordered THEN \A i \in 1..Len(a.evs) : Event(a.evs[i], b.evs[i])
            ELSE SameBag(a.evs, b.evs)

Observed(a, b) ==
    /\ On("points evaluated", Points(a, b))
    /\ On("counts", /\ a.gen = b.gen
                    /\ (R.counts \/ ~Aborted(a)) => a.evals = b.evals /\ a.calls = b.calls)
    /\ On("mean and step size", XV(a.mean) = b.mean /\ X(a.sigma) = b.sigma)
    /\ On("covariance matrix", a.cov = b.cov /\ a.eig = b.eig /\ a.ar = b.ar)
    /\ On("best individuals", Ind(a.cur, b.cur) /\ Ind(a.best, b.best))
    /\ On("reasons", Reasons(a.reasons) = Reasons(b.reasons))
    /\ R.reasons = "all" /\ Len(a.reasons) > 0 => On("order of the reasons", a.reasons = b.reasons)
    /\ On("result", /\ (R.reasons = "all" => (a.res = <<>>) = (b.res = <<>>))
                    /\ (a.res # <<>> /\ b.res # <<>>) =>
                          /\ Ind(a.res.cur, b.res.cur) /\ Ind(a.res.best, b.res.best)
                          /\ XV(a.res.mean) = b.res.mean)

Disjoint(a, b) ==
    {a.evs[i].x : i \in 1..Len(a.evs)} \cap {b.evs[i].x : i \in 1..Len(b.evs)} = {}

Init == tid \in 1..Len(Traces) /\ k = 0 /\ cut = FALSE
Begin ==
    /\ k = 0
    /\ On("both runs go equally far", Len(T.a) = Len(T.b))
    /\ T.seeds # <<>> => On("reported seed", IF R.differ THEN T.seeds[1] # T.seeds[2]
                                             ELSE T.seeds[1] = T.seeds[2])
    /\ T.back # <<>> =>
          On("objective function given back",
             /\ T.back.inst = 1
             /\ T.back.calls = IF T.a = <<>> THEN 0 ELSE T.a[Len(T.a)].calls
             /\ R.scales # <<>> => T.back.scales = R.scales[1])
    /\ k' = 1 /\ UNCHANGED <<tid, cut>>
Compare ==
    /\ 1 <= k /\ k <= Len(T.a)
    /\ \E a \in {T.a[k]}, b \in {T.b[k]} :
          /\ IF R.differ THEN On("different points", Disjoint(a, b))
             \* when an eigendecomposition is refreshed depends on the number of evaluations
             ELSE IF cut /\ ~R.counts THEN TRUE ELSE Observed(a, b)
          /\ cut' = (cut \/ Aborted(a) \/ Aborted(b))
    /\ k' = k + 1 /\ UNCHANGED tid
End == k > Len(T.a) /\ UNCHANGED vars
Next == Begin \/ Compare \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
