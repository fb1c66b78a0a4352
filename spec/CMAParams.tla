------------------------------ MODULE CMAParams -----------------------------
(***************************************************************************)
(* The constant strategy parameters of CMA-ES as functions of the problem  *)
(* dimension n, the population size lambda and the weights setting         *)
(* ("positive", "uniform", "negative"), and the defaults of the options    *)
(* that depend on others (Hansen, The CMA Evolution Strategy: A Tutorial,  *)
(* and the documentation of the library).                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Float64

Mu(lambda) == lambda \div 2

LOCAL Log(i) == FLn(FOfInt(i))

(* ln((lambda+1)/2) - ln(i) *)
RawWeight(lambda, i) == FSub(FLn(FDiv(FOfInt(lambda + 1), F("2"))), Log(i))

RawWeights(lambda, setting) ==
    CASE setting = "uniform"  -> [i \in 1..Mu(lambda) |-> FOne]
      [] setting = "positive" -> [i \in 1..Mu(lambda) |-> RawWeight(lambda, i)]
      [] setting = "negative" -> [i \in 1..lambda     |-> RawWeight(lambda, i)]

(* (sum w)^2 / sum w^2 *)
EffectiveMass(w) == FDiv(FSq(FSum(w)), FSum([i \in 1..Len(w) |-> FSq(w[i])]))

Params(n, lambda, setting) ==
    LET N      == FOfInt(n)
        mu     == Mu(lambda)
        raw    == RawWeights(lambda, setting)
        pos    == SubSeq(raw, 1, mu)
        neg    == SubSeq(raw, mu + 1, Len(raw))
        mueff  == EffectiveMass(pos)
        mueffm == EffectiveMass(neg)
        cc     == FDiv(FAdd(F("4"), FDiv(mueff, N)),
                       FAdd(FAdd(N, F("4")), FMul(F("2"), FDiv(mueff, N))))
        c1     == FDiv(F("2"), FAdd(FSq(FAdd(N, F("1.3"))), mueff))
        cmu    == FMin(FSub(FOne, c1),
                       FDiv(FMul(F("2"), FAdd(FSub(mueff, F("2")), FDiv(FOne, mueff))),
                            FAdd(FSq(FAdd(N, F("2"))), mueff)))
        cs     == FDiv(FAdd(mueff, F("2")), FAdd(FAdd(N, mueff), F("5")))
        damp   == FAdd(FAdd(FOne, cs),
                       FMul(F("2"),
                            FMax(FZero, FSub(FSqrt(FDiv(FSub(mueff, FOne), FAdd(N, FOne))), FOne))))
        possum == FSum(pos)
        negsum == FAbs(FSum(neg))
        amu    == FAdd(FOne, FDiv(c1, cmu))
        amueff == FAdd(FOne, FDiv(FMul(F("2"), mueffm), FAdd(mueff, F("2"))))
        apd    == FDiv(FSub(FSub(FOne, c1), cmu), FMul(N, cmu))
        alpha  == FMin(amu, FMin(amueff, apd))
        weight(i) == IF i <= mu THEN FDiv(raw[i], possum)
                     ELSE FDiv(FMul(raw[i], alpha), negsum)
    IN [mu |-> mu, mueff |-> mueff, cc |-> cc, c1 |-> c1, cmu |-> cmu, cs |-> cs,
        damp |-> damp, weights |-> [i \in 1..Len(raw) |-> weight(i)], alpha |-> alpha]

(* ------------------------------- defaults ------------------------------ *)
DefaultPopulation(n) == IF n = 0 THEN 4 ELSE 4 + FToInt(FFloor(FMul(F("3"), FLn(FOfInt(n)))))
DefaultTolX(sigma0) == FMul(F("1e-12"), sigma0)
DefaultTolStagnation(n, lambda) ==
    100 + FToInt(FCeil(FDiv(FMul(F("100"), FPow(FOfInt(n), F("1.5"))), FOfInt(lambda))))

(* expected length of a standard normal vector, as approximated in the     *)
(* tutorial                                                                *)
ChiN(n) ==
    LET N == FOfInt(n)
    IN FMul(FSqrt(N), FAdd(FSub(FOne, FDiv(FOne, FMul(F("4"), N))),
                           FDiv(FOne, FMul(F("21"), FSq(N)))))

(* function evaluations between two updates of the eigendecomposition      *)
EigenInterval(n, lambda, c1, cmu) ==
    FToInt(FCeil(FDiv(FMul(FMul(F("0.5"), FOfInt(n)), FOfInt(lambda)),
                      FMul(FAdd(c1, cmu), FOfInt(n * n)))))

(* generations over which the TolFun* criteria look *)
FunWindow(n, lambda) ==
    10 + FToInt(FCeil(FDiv(FMul(F("30"), FOfInt(n)), FOfInt(lambda))))
=============================================================================
