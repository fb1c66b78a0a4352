------------------------------- MODULE MCParams -----------------------------
(***************************************************************************)
(* The formulas of CMAParams have the shape that the algorithm needs, for  *)
(* all small dimensions and population sizes.                              *)
(***************************************************************************)
EXTENDS CMAParams, TLC

CONSTANTS MaxN, MaxLambda

VARIABLES n, lambda, setting
vars == <<n, lambda, setting>>

Init == n \in 1..MaxN /\ lambda \in 2..MaxLambda /\ setting \in {"positive", "uniform", "negative"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

P == Params(n, lambda, setting)
Near(a, b) == FClose(a, b, F("1e-12"), FOne)
Unit(x) == FGe(x, FZero) /\ FLe(x, FOne)

WeightsShape ==
    LET w == P.weights
        mu == P.mu
    IN /\ Len(w) = IF setting = "negative" THEN lambda ELSE mu
       /\ Near(FSum(SubSeq(w, 1, mu)), FOne)
       /\ \A i \in 1..mu : FGt(w[i], FZero)
       /\ \A i \in 1..(Len(w) - 1) : FLe(w[i + 1], w[i])
       /\ \A i \in (mu + 1)..Len(w) : FLe(w[i], FZero)
       /\ setting = "uniform" => \A i \in 1..mu : Near(FMul(w[i], FOfInt(mu)), FOne)
       /\ setting = "negative" => Near(FSum(SubSeq(w, mu + 1, lambda)), FNeg(P.alpha))
Mass == FGe(P.mueff, F("0.999999999")) /\ FLe(P.mueff, FMul(FOfInt(P.mu), F("1.000000001")))
Rates == /\ Unit(P.cc) /\ Unit(P.c1) /\ Unit(P.cmu) /\ Unit(P.cs)
         /\ FLe(FAdd(P.c1, P.cmu), F("1.000000000001"))
         /\ FGt(P.damp, FOne)
(* the weights of the old matrix and of the update: a sum of nonnegative terms if the negative *)
(* part is bounded by apd *)
Decay == LET w == P.weights IN
         FGe(FSub(FSub(FOne, P.c1), FMul(P.cmu, FSum(w))), F("-1e-12"))
Defaults == /\ DefaultPopulation(n) >= 4
            /\ DefaultTolStagnation(n, lambda) > 100
            /\ EigenInterval(n, lambda, P.c1, P.cmu) >= 1
            /\ FunWindow(n, lambda) > 10
            /\ FLt(FAbs(FSub(FSq(ChiN(n)), FOfInt(n))), FAdd(FOfInt(n), FOne))
=============================================================================
