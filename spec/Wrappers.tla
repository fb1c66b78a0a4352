------------------------------ MODULE Wrappers ------------------------------
(***************************************************************************)
(* Wrappers of objective functions and the convenience functions.          *)
(*                                                                         *)
(* A wrapper is a chain of scalings around an objective function (boxes,   *)
(* closures and references are chains without scalings).  Traces of kind   *)
(* "scale" have what the wrapped function saw of evaluations of wrappers,  *)
(* traces of kind "conv" a call of a convenience function and the plain    *)
(* run with the seed that it printed.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Float64, TLC, Json, Emit

CONSTANTS TraceFile, ViolationFile, Checked, Known

Traces == ndJsonDeserialize(TraceFile)

VARIABLES tid, k
vars == <<tid, k>>

T == Traces[tid]
On(label, cond) ==
    IF cond THEN Tick("C19/" \o label)
    ELSE /\ EmitJson(ViolationFile, [property |-> "C19", label |-> label, trace |-> T.id, op |-> k])
         /\ FALSE

(* the point that arrives inside of a chain of scalings, outermost first *)
RECURSIVE Inside(_, _)
Inside(chain, x) == IF chain = <<>> THEN x ELSE Inside(Tail(chain), VMul(x, Head(chain)))

(* -------------------------- direct evaluations ------------------------- *)
Evaluated(s) ==
    /\ On("evaluation does not panic", s.panic = "")
    /\ On("one evaluation of the wrapped function", Len(s.evs) = 1)
    /\ On("point of the wrapped function", s.evs[1].x = Inside(T.chain, s.x))
    /\ On("value unchanged", s.ret = s.evs[1].v)
    /\ s.scales # <<>> => On("scales", s.scales = T.chain[1] /\ s.scaled = VMul(s.x, T.chain[1]))

(* ------------------------ convenience functions ------------------------ *)
SetOf(q) == {q[i] : i \in 1..Len(q)}
Count(q, e) == Cardinality({i \in 1..Len(q) : q[i] = e})
Key(evs) == [i \in 1..Len(evs) |-> [x |-> evs[i].x, v |-> evs[i].v]]
SameEvals(a, b, parallel) ==
    \E A \in {Key(a)}, B \in {Key(b)} :
       IF ~parallel THEN A = B
       ELSE \E sa \in {SetOf(A)} :
               /\ sa = SetOf(B) /\ Len(A) = Len(B)
               /\ Cardinality(sa) # Len(A) => \A e \in sa : Count(A, e) = Count(B, e)

Begins(s, prefix) == Len(s) >= Len(prefix) /\ SubSeq(s, 1, Len(prefix)) = prefix
(* the plain run: <<>> if its options are invalid *)
Called(c, run) ==
    IF run = <<>> THEN On("invalid options panic", c.panic # "" /\ c.calls = 0)
    ELSE /\ On("the seed is printed", c.header.seed # "")
         /\ On("dimension and population size printed",
               c.header.dim = run.dim /\ c.header.lambda = run.lambda)
         /\ IF run.best.x = <<>>
            THEN On("no valid value panics", c.panic # "")
            ELSE /\ On("returns", c.panic = "")
                 /\ On("evaluations of the plain run",
                       IF run.aborted /\ c.parallel THEN TRUE
                       ELSE c.calls = run.calls /\ SameEvals(c.evs, run.evs, c.parallel))
                 /\ On("overall best individual of the plain run",
                       c.ret.x = run.best.x /\ c.ret.v = run.best.v)

Init == tid \in 1..Len(Traces) /\ k = 0
Check ==
    /\ IF T.kind = "conv" THEN k = 0 /\ Called(T.call, T.run)
       ELSE k < Len(T.steps) /\ Evaluated(T.steps[k + 1])
    /\ k' = k + 1 /\ UNCHANGED tid
End ==
    /\ k = IF T.kind = "conv" THEN 1 ELSE Len(T.steps)
    /\ UNCHANGED vars
Next == Check \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
