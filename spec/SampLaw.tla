------------------------------- MODULE SampLaw ------------------------------
(***************************************************************************)
(* The law of the sampled points: whitened with the distribution they were *)
(* drawn from, all points of a run together must look like independent     *)
(* standard normal vectors.  The state carries sums over the generations   *)
(* so far; at the end each is compared with its expectation.  Limits are   *)
(* at 7 to 9 standard deviations, so that true samples do not cross any of *)
(* them in practice.                                                       *)
(*                                                                         *)
(* Sums over pairs of individuals (lags): neighbours, mirror images, the   *)
(* other half of the population, the same individual of the previous       *)
(* generation, and the reversed order of the previous generation.  For     *)
(* each of them the products of all pairs of coordinates, and of their     *)
(* centred squares, are summed.  In addition, no generation may contain    *)
(* several numbers (up to sign) that are also found elsewhere in it or in  *)
(* the generation before, whatever their places.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Float64, TLC, Json, Emit

CONSTANTS TraceFile, ViolationFile, Checked, Known, PoolFile

Traces == ndJsonDeserialize(TraceFile)

VARIABLES tid, g, vec, last, acc, judged
vars == <<tid, g, vec, last, acc, judged>>

T == Traces[tid]
G == T.gens[g + 1]      \* mean, sigma, eig, vec (empty if unchanged) before, pts
N == T.n

On(p, label, cond) ==
    p \in Checked =>
        IF cond THEN Tick(label)
        ELSE /\ EmitJson(ViolationFile, [property |-> p, label |-> label, trace |-> T.id, op |-> g])
             /\ FALSE

(* The edges of the cells of the histogram and the probabilities of the cells *)
Edges ==
    <<F("-5.5"), F("-5.0"), F("-4.75"), F("-4.5"), F("-4.25"), F("-4.0"),
    F("-3.5"), F("-3.0"), F("-2.5"), F("-1.644854"), F("-1.281552"), F("-1.036433"),
    F("-0.841621"), F("-0.67449"), F("-0.524401"), F("-0.38532"), F("-0.253347"), F("-0.125661"),
    F("0.0"), F("0.125661"), F("0.253347"), F("0.38532"), F("0.524401"), F("0.67449"),
    F("0.841621"), F("1.036433"), F("1.281552"), F("1.644854"), F("2.5"), F("3.0"),
    F("3.5"), F("4.0"), F("4.25"), F("4.5"), F("4.75"), F("5.0"),
    F("5.5")>>
Probs ==
    <<F("1.898956246588768e-08"), F("2.676620094133056e-07"), F("7.304316706895099e-07"), F("2.3805898821613505e-06"), F("7.290852650204348e-06"), F("2.098271605818546e-05"),
    F("0.00020095783720240515"), F("0.0011172689525945682"), F("0.004859767294146039"), F("0.043790296199636904"), F("0.04999996222841024"), F("0.05000016706009003"),
    F("0.04999997457761479"), F("0.04999985522664557"), F("0.049999909954032806"), F("0.050000342184707725"), F("0.04999986708883253"), F("0.05000009744118672"),
    F("0.049999862713066556"), F("0.049999862713066556"), F("0.05000009744118672"), F("0.04999986708883253"), F("0.050000342184707725"), F("0.049999909954032806"),
    F("0.04999985522664557"), F("0.04999997457761479"), F("0.05000016706009003"), F("0.04999996222841024"), F("0.043790296199636904"), F("0.004859767294146039"),
    F("0.0011172689525945682"), F("0.00020095783720240515"), F("2.098271605818546e-05"), F("7.290852650204348e-06"), F("2.3805898821613505e-06"), F("7.304316706895099e-07"),
    F("2.676620094133056e-07"), F("1.898956246588768e-08")>>

(* --------------------------- whitening --------------------------------- *)
(* x = mean + sigma * B * D * z  =>  z = D^-1 * B^T * (x - mean) / sigma    *)
Whiten(mean, sigma, eig, bt, x) ==
    VMul([j \in 1..Len(eig) |-> FDiv(FOne, FSqrt(eig[j]))],
         MVec(bt, VScale(FDiv(FOne, sigma), VSub(x, mean))))

(* rounding in x must be negligible *)
Reliable(gen) ==
    /\ FIsFinite(gen.sigma) /\ VFinite(gen.mean) /\ VFinite(gen.eig)
    /\ FLt(FZero, FMinOf(gen.eig))
    /\ FLt(FMul(VMaxAbs(gen.mean), F("1e-9")), FMul(gen.sigma, FSqrt(FMinOf(gen.eig))))
    /\ FLt(FMaxOf(gen.eig), FMul(F("1e12"), FMinOf(gen.eig)))

(* rounding in x changes z by far less than 1e-10 *)
Precise(gen) ==
    /\ FLt(FMul(VMaxAbs(gen.mean), F("1e-4")), FMul(gen.sigma, FSqrt(FMinOf(gen.eig))))
    /\ FLt(FMaxOf(gen.eig), FMul(F("1e6"), FMinOf(gen.eig)))

(* How many of the numbers in the vectors Z are as good as equal, up to sign, to the next larger one.  Of
   independent numbers hardly any are, and never several. *)
Recurring(Z) ==
    LET n == Len(Z) * N IN
    \* the set of the single result, so that TLC evaluates everything once
    UNION {UNION {{Cardinality({i \in 1..(n - 1) : FLt(FSub(v[r[i + 1]], v[r[i]]), F("1e-10"))})
        : r \in {FRank(v, TRUE)}} : v \in {[i \in 1..n |-> FAbs(Z[((i - 1) \div N) + 1][((i - 1) % N) + 1])]}}}

(* ----------------------------- the sums -------------------------------- *)
Lags == <<"neighbours", "mirror images", "halves", "previous generation", "previous generation reversed",
          "previous generation shifted">>

(* individuals of the first generation, which are also judged over all runs (SampPool) *)
Places == {"first", "second", "last", "all"}
NoSums == [n |-> 0, s |-> FZero, q |-> FZero]
SumsOf(Z) == [n |-> Len(Z) * N, s |-> FSum([k \in 1..Len(Z) |-> FSum(Z[k])]),
              q |-> FSum([k \in 1..Len(Z) |-> FSum([j \in 1..N |-> FSub(FSq(Z[k][j]), FOne)])])]
Start(Z) == [n |-> 1, places |->
                [first |-> SumsOf(<<Z[1]>>), second |-> SumsOf(<<Z[2]>>), last |-> SumsOf(<<Z[Len(Z)]>>),
                 all |-> SumsOf(Z)]]

Zero(n) == [n |-> 0, gens |-> 0, s1 |-> VZero(n), s2 |-> MZero(n), q2 |-> MZero(n), radius |-> FZero,
            hist |-> [i \in 1..(Len(Edges) + 1) |-> 0],
            lag |-> [l \in 1..Len(Lags) |-> [n |-> 0, p |-> MZero(n), q |-> MZero(n)]],
            first |-> [s |-> VZero(n), q |-> VZero(n)], last |-> [s |-> VZero(n), q |-> VZero(n)],
            start |-> [n |-> 0, places |-> [p \in Places |-> NoSums]]]

Squares(Z) == [k \in 1..Len(Z) |-> [j \in 1..N |-> FSub(FSq(Z[k][j]), FOne)]]
Ints(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* the pairs of lag l: two sequences of equal length *)
Pairs(l, Z, P) ==
    LET m == Len(Z) IN
    CASE l = 1 -> <<SubSeq(Z, 1, m - 1), SubSeq(Z, 2, m)>>
      [] l = 2 -> <<SubSeq(Z, 1, m \div 2), SubSeq(Rev(Z), 1, m \div 2)>>
      [] l = 3 -> <<SubSeq(Z, 1, m \div 2), SubSeq(Z, m - m \div 2 + 1, m)>>
      [] l = 4 -> IF Len(P) = m THEN <<P, Z>> ELSE <<<<>>, <<>>>>
      [] l = 5 -> IF Len(P) = m THEN <<Rev(P), Z>> ELSE <<<<>>, <<>>>>
      [] l = 6 -> IF Len(P) = m THEN <<SubSeq(P, 2, m), SubSeq(Z, 1, m - 1)>> ELSE <<<<>>, <<>>>>

Lagged(a, pr, qr) ==
    IF pr[1] = <<>> THEN a
    ELSE [n |-> a.n + Len(pr[1]), p |-> MAdd(a.p, MCross(pr[1], pr[2])),
          q |-> MAdd(a.q, MCross(qr[1], qr[2]))]

Add(a, Z, Q, P, PQ) ==
    [n |-> a.n + Len(Z), gens |-> a.gens + 1,
     s1 |-> VAdd(a.s1, VWeighted([k \in 1..Len(Z) |-> FOne], Z)),
     s2 |-> MAdd(a.s2, MCross(Z, Z)),
     q2 |-> MAdd(a.q2, MCross(Q, Q)),
     radius |-> FAdd(a.radius, FSum([k \in 1..Len(Z) |->
                    FSub(FSq(FSum(Q[k])), FMul(F("2"), FOfInt(N)))])),
     hist |-> Ints(a.hist, VHist(Z, Edges)),
     lag |-> [l \in 1..Len(Lags) |-> Lagged(a.lag[l], Pairs(l, Z, P), Pairs(l, Q, PQ))],
     start |-> IF g = 0 THEN Start(Z) ELSE a.start,
     first |-> [s |-> VAdd(a.first.s, Z[1]), q |-> VAdd(a.first.q, Q[1])],
     last |-> [s |-> VAdd(a.last.s, Z[Len(Z)]), q |-> VAdd(a.last.q, Q[Len(Q)])]]

Init ==
    /\ tid \in 1..Len(Traces)
    /\ g = 0 /\ vec = <<>> /\ last = <<>>
    /\ acc = Zero(Traces[tid].n) /\ judged = FALSE

(* one generation *)
Generation ==
    /\ g < Len(T.gens)
    /\ \E gen \in {G} : \E bt \in {IF gen.vec = <<>> THEN vec ELSE MT(gen.vec)} :
       /\ vec' = bt
       /\ On("C11", "every point is evaluated once", Len(gen.pts) = T.lambda)
       /\ IF Reliable(gen)
          THEN \E Z \in {[k \in 1..Len(gen.pts) |-> Whiten(gen.mean, gen.sigma, gen.eig, bt, gen.pts[k])]} :
               \E Q \in {Squares(Z)} :
               \E PQ \in {IF last = <<>> THEN <<>> ELSE Squares(last)} :
                  /\ On("C11", "no two equal points",
                        (N > 1 \/ FLt(VMaxAbs(gen.mean), FMul(F("1e3"), gen.sigma))) =>
                        Cardinality({gen.pts[k] : k \in 1..Len(gen.pts)}) = Len(gen.pts))
                  /\ Precise(gen) => On("C11", "numbers do not recur",
                                        \A c \in Recurring(last \o Z) :
                                            c < (IF (Len(last) + Len(Z)) * N <= 200 THEN 2 ELSE 4))
                  /\ Precise(gen) => On("C11", "no point is the mean",
                                        \A k \in 1..Len(Z) : FLt(F("1e-10"), VMaxAbs(Z[k])))
                  /\ acc' = Add(acc, Z, Q, last, PQ)
                  /\ last' = Z
          ELSE /\ Tick("C11/distribution too small against rounding")
               /\ acc' = acc /\ last' = <<>>
    /\ g' = g + 1
    /\ UNCHANGED <<tid, judged>>

(* ---------------------------- the judgement ---------------------------- *)
(* a sum of n terms of variance v within t standard deviations of 0 *)
Within(s, n, v, t) == FLe(FAbs(s), FMul(F(t), FSqrt(FMul(FOfInt(n), F(v)))))
OffDiag == {<<i, j>> \in (1..N) \X (1..N) : i # j}

Enough == acc.n >= 400

Judge ==
    /\ g = Len(T.gens) /\ ~judged
    /\ \E a \in {acc} :
       /\ Enough =>
          /\ On("C11", "mean", \A j \in 1..N : Within(a.s1[j], a.n, "1", "7"))
          /\ On("C11", "variance", \A j \in 1..N : Within(FSub(a.s2[j][j], FOfInt(a.n)), a.n, "2", "8"))
          /\ On("C11", "overall variance",
                Within(FSub(FSum(MDiag(a.s2)), FOfInt(a.n * N)), a.n * N, "2", "8"))
          /\ On("C11", "no correlation of coordinates", \A p \in OffDiag : Within(a.s2[p[1]][p[2]], a.n, "1", "8"))
          /\ On("C11", "no dependence of squares of coordinates",
                \A p \in OffDiag : Within(a.q2[p[1]][p[2]], a.n, "4", "10"))
          /\ On("C11", "fourth moments",
                \A j \in 1..N : Within(FSub(a.q2[j][j], FMul(F("2"), FOfInt(a.n))), a.n, "56", "11"))
          /\ On("C11", "lengths", Within(a.radius, a.n, FText(FOfInt(8 * N * N + 48 * N)), "11"))
          /\ \A l \in 1..Len(Lags) : a.lag[l].n >= 400 =>
             /\ On("C11", "independence: " \o Lags[l],
                   \A i, j \in 1..N : Within(a.lag[l].p[i][j], a.lag[l].n, "1", "8"))
             /\ On("C11", "independence of squares: " \o Lags[l],
                   \A i, j \in 1..N : Within(a.lag[l].q[i][j], a.lag[l].n, "4", "11"))
          /\ a.gens * N >= 200 =>
             /\ On("C11", "first individual",
                   /\ Within(FSum(a.first.s), a.gens * N, "1", "7")
                   /\ Within(FSum(a.first.q), a.gens * N, "2", "9"))
             /\ On("C11", "last individual",
                   /\ Within(FSum(a.last.s), a.gens * N, "1", "7")
                   /\ Within(FSum(a.last.q), a.gens * N, "2", "9"))
          /\ On("C11", "cells", \A c \in 1..Len(Probs) :
                   LET e == FMul(FOfInt(a.n * N), Probs[c])
                   IN FLe(FAbs(FSub(FOfInt(a.hist[c]), e)), FAdd(FMul(F("8"), FSqrt(e)), F("12"))))
       /\ EmitJson(PoolFile, [id |-> T.id, n |-> a.n * N, hist |-> a.hist, start |-> a.start])
       /\ ~Enough => Tick("C11/too short to be judged")
    /\ judged' = TRUE
    /\ UNCHANGED <<tid, g, vec, last, acc>>

End == judged /\ UNCHANGED vars
Next == Generation \/ Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
