---------------------------- MODULE RestartPairs ----------------------------
(***************************************************************************)
(* Relations between two restarters: their runs, observed through the      *)
(* hooks, and their results are the same, or (differ) they have no         *)
(* seeds, means or points in common.                                       *)
(*   counts   the numbers of evaluations agree also where an invalid value *)
(*            ends a generation                                            *)
(*   ordered  the points are evaluated in the same order                   *)
(* The evaluations of a run are known by digests: in their order, and      *)
(* regardless of the order (bag).                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Float64, TLC, Json, Emit

CONSTANTS TraceFile, ViolationFile, Checked, Known

Traces == ndJsonDeserialize(TraceFile)

VARIABLES tid, k
vars == <<tid, k>>

T == Traces[tid]
R == T.rel
A == T.a
B == T.b
P == T.property

On(label, cond) ==
    P \in Checked =>
        IF cond THEN Tick(P \o "/" \o T.kind \o ": " \o label)
        ELSE /\ EmitJson(ViolationFile, [property |-> P, label |-> T.kind \o ": " \o label,
                                         trace |-> T.id, op |-> k])
             /\ FALSE

SetOf(q) == {q[i] : i \in 1..Len(q)}
Invalid(r) == "InvalidFunctionValue" \in SetOf(r.res.reasons)
Loose(r) == Invalid(r) /\ ~R.counts

Init == tid \in 1..Len(Traces) /\ k = 0
Begin ==
    /\ k = 0
    /\ On("accepted", A.tag = B.tag /\ A.text = B.text)
    /\ On("seed", IF R.differ THEN A.seed # B.seed ELSE A.seed = B.seed)
    /\ R.differ => On("different seeds and means",
          /\ {A.runs[i].params.seed : i \in 1..Len(A.runs)} \cap {B.runs[i].params.seed : i \in 1..Len(B.runs)} = {}
          /\ {A.runs[i].mean : i \in 1..Len(A.runs)} \cap {B.runs[i].mean : i \in 1..Len(B.runs)} = {}
          /\ {A.runs[i].digest : i \in 1..Len(A.runs)} \cap {B.runs[i].digest : i \in 1..Len(B.runs)} = {})
    /\ ~R.differ => On("number of runs", Len(A.runs) = Len(B.runs))
    /\ k' = IF R.differ THEN Len(A.runs) + 1 ELSE 1
    /\ UNCHANGED tid

Same(a, b) ==
    /\ On("parameters", a.params = b.params)
    /\ On("initial mean", a.mean = b.mean)
    /\ On("result of the run", a.ended = b.ended /\ a.res = b.res /\ a.gens = b.gens)
    /\ ~Loose(a) => On("evaluations", /\ a.evals = b.evals
                                      /\ IF R.ordered THEN a.digest = b.digest ELSE a.bag = b.bag)
Compare ==
    /\ 1 <= k /\ k <= Len(A.runs)
    /\ \E a \in {A.runs[k]}, b \in {B.runs[k]} : Same(a, b)
    /\ k' = k + 1 /\ UNCHANGED tid

Finish ==
    /\ k = Len(A.runs) + 1
    /\ ~R.differ =>
         /\ On("result", A.best = B.best /\ A.reason = B.reason /\ A.count = B.count)
         /\ (A.runs = <<>> \/ ~Loose(A.runs[Len(A.runs)])) => On("total evaluations", A.evals = B.evals)
    /\ k' = k + 1 /\ UNCHANGED tid
End == k > Len(A.runs) + 1 /\ UNCHANGED vars
Next == Begin \/ Compare \/ Finish \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
