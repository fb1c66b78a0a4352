------------------------------- MODULE SampTrace ----------------------------
(***************************************************************************)
(* Validates recorded runs against Sampling: the calls of the constraints  *)
(* and of the objective function, generation by generation.                *)
(***************************************************************************)
EXTENDS Sampling, Float64, FiniteSets, TLC, Json, Emit

CONSTANTS TraceFile, ViolationFile, Checked, Known

Traces == ndJsonDeserialize(TraceFile)

VARIABLES tid, g, st, pos, phase
vars == <<tid, g, st, pos, phase>>

T == Traces[tid]
G == T.gens[g + 1]          \* the generation: cons, evs (points), par, whole
Budget == IF T.hasCons THEN T.budget ELSE 0

On(p, label, cond) ==
    p \in Checked =>
        IF cond THEN Tick(label)
        ELSE /\ EmitJson(ViolationFile, [property |-> p, label |-> label, trace |-> T.id, op |-> g + 1])
             /\ FALSE

SetOf(q) == {q[i] : i \in 1..Len(q)}
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Within(x, lo, hi) == \A i \in 1..Len(x) : FLe(lo[i], x[i]) /\ FLe(x[i], hi[i])

Init ==
    /\ tid \in 1..Len(Traces)
    /\ g = 0 /\ st = StartSampling(Traces[tid].lambda) /\ pos = 0 /\ phase = "sample"

(* a round that asks the constraints *)
Round ==
    /\ g < Len(T.gens) /\ phase = "sample"
    /\ st.need > 0 /\ T.hasCons /\ Constrained(st, Budget)
    /\ On("C12", "every missing point is tested", Len(G.cons) >= pos + st.need)
    /\ \E asked \in {SubSeq(G.cons, pos + 1, pos + st.need)} :
       \E pts \in {[i \in 1..Len(asked) |-> asked[i].x]}, ok \in {[i \in 1..Len(asked) |-> asked[i].ok]} :
          /\ st' = ConstrainedRound(st, pts, ok)
          /\ pos' = pos + st.need
          /\ Tick("C12/round " \o ToString(st.round))
    /\ UNCHANGED <<tid, g, phase>>

(* the generation is complete *)
Evaluate ==
    /\ g < Len(T.gens) /\ phase = "sample"
    /\ st.need = 0 \/ ~(T.hasCons /\ Constrained(st, Budget))
    /\ On("C12", "no needless tests", pos = Len(G.cons))
    /\ \E e \in {G.evs} :
       LET n == Len(st.kept) IN
       /\ G.whole => On("C12", "population size", Len(e) = T.lambda)
       /\ On("C12", "accepted points are evaluated in order",
             IF T.ordered /\ ~G.par
             THEN IsPrefixOf(IF Len(e) < n THEN e ELSE SubSeq(e, 1, n), st.kept)
             ELSE G.whole => SetOf(st.kept) \subseteq SetOf(e))
       /\ On("C12", "rejected points are not evaluated",
             T.distinct => SetOf(st.rejected) \cap SetOf(e) = {})
       /\ On("C12", "no point twice", T.distinct => Cardinality(SetOf(e)) = Len(e))
       /\ (T.bounds # <<>> /\ Budget = 0 /\ T.budget = Unlimited) =>
             On("C12", "points are within the bounds",
                \A i \in 1..Len(e) : Within(e[i], T.bounds[1], T.bounds[2]))
       /\ st.need > 0 /\ T.hasCons => Tick("C12/points used without regard to the constraints")
       /\ G.want # <<>> =>
             On("C12", "generated behaviour", G.want = [tests |-> Len(G.cons), kept |-> n])
    /\ g' = g + 1 /\ st' = StartSampling(T.lambda) /\ pos' = 0
    /\ UNCHANGED <<tid, phase>>

End == g = Len(T.gens) /\ UNCHANGED vars
Next == Round \/ Evaluate \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
