------------------------------- MODULE SampPool -----------------------------
(***************************************************************************)
(* The histograms of all runs together (as emitted by SampLaw): the cells  *)
(* far out in the tails have too few elements in a single run; and the     *)
(* first generations of all runs together.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, Float64, TLC, Json, Emit

CONSTANTS TraceFile, ViolationFile, Checked, Known

Runs == ndJsonDeserialize(TraceFile)
Law == INSTANCE SampLaw WITH PoolFile <- "", tid <- 1, g <- 0, vec <- <<>>, last <- <<>>, acc <- <<>>, judged <- FALSE

VARIABLES k, n, hist, start, done
vars == <<k, n, hist, start, done>>

On(p, label, cond) ==
    p \in Checked =>
        IF cond THEN Tick(label)
        ELSE /\ EmitJson(ViolationFile, [property |-> p, label |-> label, trace |-> "all", op |-> 0])
             /\ FALSE

Cells == Len(Law!Probs)

Init == k = 0 /\ n = 0 /\ hist = [c \in 1..Cells |-> 0] /\ start = [p \in Law!Places |-> Law!NoSums] /\ done = FALSE
Sum ==
    /\ k < Len(Runs) /\ k' = k + 1
    /\ n' = n + Runs[k + 1].n
    /\ hist' = [c \in 1..Cells |-> hist[c] + Runs[k + 1].hist[c]]
    /\ \E r \in {Runs[k + 1].start} :
       start' = IF r.n = 0 THEN start
                ELSE [p \in Law!Places |-> [n |-> start[p].n + r.places[p].n,
                                            s |-> FAdd(start[p].s, r.places[p].s),
                                            q |-> FAdd(start[p].q, r.places[p].q)]]
    /\ UNCHANGED done

(* P(X <= m) for a Poisson variable with expectation e *)
AtMost(m, e) ==
    LET RECURSIVE S(_, _, _)
        S(i, term, sum) == IF i > m THEN sum
                           ELSE LET t == FDiv(FMul(term, e), FOfInt(i)) IN S(i + 1, t, FAdd(sum, t))
        t0 == FExp(FNeg(e))
    IN IF m < 0 THEN FZero ELSE S(1, t0, t0)
Tiny == F("1e-10")
(* a count that is not unlikely for its expectation *)
Plausible(c, e) ==
    IF FLt(e, F("300"))
    THEN /\ FLt(Tiny, AtMost(c, e))
         /\ FLt(Tiny, FSub(FOne, AtMost(c - 1, e)))
    ELSE FLe(FAbs(FSub(FOfInt(c), e)), FMul(F("7"), FSqrt(e)))

RECURSIVE SumTo(_, _), ProbTo(_)
SumTo(h, c) == IF c = 0 THEN 0 ELSE h[c] + SumTo(h, c - 1)
ProbTo(c) == IF c = 0 THEN FZero ELSE FAdd(Law!Probs[c], ProbTo(c - 1))
FarCells == 9       \* the cells below -2.5

Judge ==
    /\ k = Len(Runs) /\ ~done
    /\ \E e \in {FOfInt(n)} :
       /\ On("C11", "all cells", \A c \in 1..Cells : Plausible(hist[c], FMul(e, Law!Probs[c])))
       /\ On("C11", "tails", \A c \in 1..FarCells :
             Plausible(SumTo(hist, c) + SumTo([i \in 1..Cells |-> hist[Cells + 1 - i]], c),
                       FMul(FMul(F("2"), e), ProbTo(c))))
       /\ \A p \in Law!Places : start[p].n >= 200 =>
             /\ On("C11", "first generations, individuals: " \o p,
                   /\ Law!Within(start[p].s, start[p].n, "1", "7")
                   /\ Law!Within(start[p].q, start[p].n, "2", "9"))
             /\ Tick("C11/" \o ToString(start[p].n) \o " coordinates of first generations pooled: " \o p)
       /\ Tick("C11/" \o ToString(n) \o " coordinates pooled")
       /\ \A c \in 1..FarCells : Tick("C11/tail cell " \o ToString(c) \o ": " \o ToString(SumTo(hist, c)) \o
             " + " \o ToString(SumTo([i \in 1..Cells |-> hist[Cells + 1 - i]], c)) \o " of " \o
             FText(FMul(e, ProbTo(c))) \o " expected on each side")
    /\ done' = TRUE /\ UNCHANGED <<k, n, hist, start>>

End == done /\ UNCHANGED vars
Next == Sum \/ Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
