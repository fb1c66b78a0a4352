------------------------------- MODULE CMADist ------------------------------
(***************************************************************************)
(* The distribution level of a CMA-ES run: mean, step size, covariance     *)
(* matrix, evolution paths and eigendecomposition (Hansen, The CMA         *)
(* Evolution Strategy: A Tutorial), over binary64 numbers.                 *)
(*                                                                         *)
(* What the code shows of its state (mean, sigma, C, eigenvalues) is taken *)
(* from the trace.  The evolution paths and the eigendecomposition in use  *)
(* are not observable: they are variables of this specification, carried   *)
(* along together with a bound on how far rounding can have taken the      *)
(* code's values away from them.  Every comparison takes these bounds into *)
(* account and has three outcomes: "T", "F" and, when rounding could       *)
(* decide, "U".                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Float64, CMAParams

U == F("2.220446049250313e-16")

(* three-valued a < b, with the numbers known up to err *)
Less3(a, b, err) ==
    IF FIsNaN(a) \/ FIsNaN(b) THEN "F"
    ELSE IF FLt(FAdd(a, err), b) THEN "T"
    ELSE IF FLt(b, FSub(a, err)) THEN "F"
    ELSE IF a = b /\ FEq(err, FZero) THEN "F" ELSE "U"
Rel(x, eps) == FMul(FAbs(x), eps)

And3(S) == IF "F" \in S THEN "F" ELSE IF "U" \in S THEN "U" ELSE "T"
Or3(S)  == IF "T" \in S THEN "T" ELSE IF "U" \in S THEN "U" ELSE "F"

(* ------------------------- the hidden state ---------------------------- *)
(* ps, pc: the evolution paths; eps: bound on the error of |ps|; epc:      *)
(* bounds on the errors of pc; val, vec, winv: eigendecomposition of the   *)
(* matrix at the latest refresh and its inverse square root; cond, eerr:   *)
(* its condition number and relative error; lastEig: evaluations at that   *)
(* refresh                                                                 *)
InitDist(n) ==
    [ps |-> VZero(n), pc |-> VZero(n), eps |-> FZero, epc |-> VZero(n),
     val |-> [i \in 1..n |-> FOne], vec |-> MIdent(n), winv |-> MIdent(n),
     cond |-> FOne, eerr |-> U, lastEig |-> 0]

InverseRoot(val, vec) ==
    MMul(MMul(vec, MOfDiag([i \in 1..Len(val) |-> FDiv(FOne, FSqrt(val[i]))])), MT(vec))

(* Relative error of whitened vectors.  With the decomposition that is in  *)
(* use only rounding in the products counts; with one that was computed    *)
(* here the condition of the matrix amplifies the difference.              *)
WhitenErr(n, d) ==
    IF d.eerr = U THEN FMul(FMul(F("32"), FOfInt(n)), FMul(U, FSqrt(d.cond)))
    ELSE FMul(FMul(FOfInt(n), d.eerr), d.cond)

(* --------------------------- one generation ---------------------------- *)
(* p: parameters; d: hidden state; m, sigma, cov: state before; pts: the   *)
(* points of the generation, best first.                                   *)
Steps(m, sigma, pts) == [k \in 1..Len(pts) |-> VScale(FDiv(FOne, sigma), VSub(pts[k], m))]

(* bound on the error of each coordinate of the steps *)
StepErr(m, sigma, pts) ==
    [j \in 1..Len(m) |->
        FMul(FDiv(FMax(FAbs(m[j]), FMaxOf([k \in 1..Len(pts) |-> FAbs(pts[k][j])])), sigma),
             FMul(F("4"), U))]

VHead(v, k) == SubSeq(v, 1, k)

(* everything that does not depend on hs *)
Moved(p, d, gen, m, sigma, pts) ==
    LET n     == Len(m)
        mu    == p.mu
        y     == Steps(m, sigma, pts)
        ey    == StepErr(m, sigma, pts)
        wpos  == VHead(p.weights, mu)
        yw    == VWeighted(wpos, VHead(y, mu))
        eyw   == ey                       \* the positive weights sum to 1
        mean  == VAdd(m, VScale(FMul(p.cm, sigma), yw))
        emean == [j \in 1..n |->
                    FAdd(FMul(FMul(p.cm, sigma), FMul(F("2"), eyw[j])),
                         FMul(FMul(F("8"), U), FAdd(FAbs(m[j]), FAbs(mean[j]))))]
        gs    == FSqrt(FMul(FMul(p.cs, FSub(F("2"), p.cs)), p.mueff))
        zw    == MVec(d.winv, yw)
        ezw   == FAdd(VNorm(MVec(MAbs(d.winv), eyw)),
                      FMul(WhitenErr(n, d), FAdd(FOne, VNorm(zw))))
        ps    == VAdd(VScale(FSub(FOne, p.cs), d.ps), VScale(gs, zw))
        len   == VNorm(ps)
        eps   == FAdd(FAdd(FMul(FSub(FOne, p.cs), d.eps), FMul(gs, ezw)), Rel(len, F("1e-14")))
        chi   == ChiN(n)
        grow  == FMul(FDiv(p.cs, p.damp), FSub(FDiv(len, chi), FOne))
        sig   == FMul(sigma, FExp(grow))
        \* relative error of sigma
        esig  == FAdd(FMul(FDiv(p.cs, FMul(p.damp, chi)), eps),
                      FMul(F("1e-14"), FAdd(FOne, FAbs(grow))))
        norm  == FSqrt(FSub(FOne, FPow(FSub(FOne, p.cs), FOfInt(2 * (gen + 1)))))
        hsl   == FDiv(len, norm)
        hsr   == FMul(FAdd(F("1.4"), FDiv(F("2"), FOfInt(n + 1))), chi)
        hs    == Less3(hsl, hsr, FAdd(FDiv(FMul(F("2"), eps), norm), Rel(hsr, F("1e-12"))))
    IN [y |-> y, ey |-> ey, yw |-> yw, mean |-> mean, emean |-> emean, ps |-> ps, eps |-> eps,
        sigma |-> sig, esig |-> esig, hs |-> hs]

(* path and matrix for hs (0 or 1) *)
Shaped(p, d, mv, cov, hs) ==
    LET n    == Len(cov)
        H    == FOfInt(hs)
        gc   == FSqrt(FMul(FMul(p.cc, FSub(F("2"), p.cc)), p.mueff))
        pc   == VAdd(VScale(FSub(FOne, p.cc), d.pc), VScale(FMul(H, gc), mv.yw))
        epc  == VAdd(VAdd(VScale(FSub(FOne, p.cc), d.epc), VScale(FMul(H, gc), mv.ey)),
                     VScale(F("1e-15"), VAbs(pc)))
        W    == Len(p.weights)
        len2(k) == FSq(VNorm(MVec(d.winv, mv.y[k])))
        wc   == [k \in 1..W |-> IF FLt(p.weights[k], FZero)
                                THEN FMul(p.weights[k], FDiv(FOfInt(n), len2(k)))
                                ELSE p.weights[k]]
        \* relative error of a rescaled weight
        ew(k) == LET z == MVec(d.winv, mv.y[k])
                     l == VNorm(z)
                 IN IF FLt(p.weights[k], FZero)
                    THEN FMul(F("4"), FAdd(FDiv(VNorm(MVec(MAbs(d.winv), mv.ey)), l),
                                           FMul(WhitenErr(n, d), FAdd(FOne, FDiv(FOne, l)))))
                    ELSE FZero
        ews  == [k \in 1..W |-> FMul(FAbs(wc[k]), ew(k))]
        wabs == VAbs(wc)
        y    == VHead(mv.y, W)
        dhs  == FMul(FMul(FSub(FOne, H), p.cc), FSub(F("2"), p.cc))
        keep == FSub(FSub(FAdd(FOne, FMul(p.c1, dhs)), p.c1), FMul(p.cmu, FSum(p.weights)))
        C    == MAdd(MAdd(MScale(keep, cov), MScale(p.c1, MOuter(pc, pc))),
                     MScale(p.cmu, MWeightedOuter(wc, y)))
        \* sizes of the contributions, for the rounding errors
        S    == [i \in 1..n |->
                   FSqrt(FAdd(FAdd(FMul(FAbs(keep), FAbs(cov[i][i])), FMul(p.c1, FSq(pc[i]))),
                              FMul(p.cmu, FSum([k \in 1..W |-> FMul(wabs[k], FSq(y[k][i]))]))))]
        Y1   == [i \in 1..n |-> FSum([k \in 1..W |-> FMul(wabs[k], FAbs(y[k][i]))])]
        round == MScale(FMul(F("1e-14"), FOfInt(n + 10)), MOuter(S, S))
        path == MScale(FMul(F("2"), p.c1),
                       MAdd(MOuter(VAdd(VAbs(pc), epc), epc), MOuter(epc, VAdd(VAbs(pc), epc))))
        step == MScale(FMul(F("2"), p.cmu),
                       MAdd(MOuter(VAdd(Y1, mv.ey), mv.ey), MOuter(mv.ey, VAdd(Y1, mv.ey))))
        neg  == MScale(p.cmu, MAbs(MWeightedOuter(ews, [k \in 1..W |-> VAbs(y[k])])))
    IN [pc |-> pc, epc |-> epc, cov |-> C, err |-> MAdd(MAdd(round, path), MAdd(step, neg))]

(* does the observed matrix agree with the predicted one? *)
CovAgrees(sh, cov) ==
    \A i \in 1..Len(cov) : \A j \in i..Len(cov) :
        FLe(FAbs(FSub(cov[i][j], sh.cov[i][j])), sh.err[i][j])
Misfit(sh, cov) ==
    FMaxOf([i \in 1..Len(cov) |->
        FMaxOf([j \in 1..Len(cov) |->
            FDiv(FAbs(FSub(cov[i][j], sh.cov[i][j])),
                 FAdd(sh.err[i][j], F("1e-300")))])])
(* largest relative uncertainty of the prediction *)
CovBlur(sh) ==
    FMaxOf([i \in 1..Len(sh.cov) |-> FDiv(sh.err[i][i], FAbs(sh.cov[i][i]))])

Symmetric(cov) == \A i \in 1..Len(cov) : \A j \in 1..Len(cov) : cov[i][j] = cov[j][i]

(* The hidden state after a generation.  When hs is uncertain, the         *)
(* observed matrix tells.                                                  *)
ChosenHs(p, d, mv, cov, seen) ==
    CASE mv.hs = "T" -> 1
      [] mv.hs = "F" -> 0
      [] OTHER -> IF FLe(Misfit(Shaped(p, d, mv, cov, 1), seen),
                         Misfit(Shaped(p, d, mv, cov, 0), seen)) THEN 1 ELSE 0

(* ------------------------- eigendecomposition -------------------------- *)
RefreshDue(d, interval, evals) == evals >= d.lastEig + interval

(* The required accuracy of decompositions, relative to the largest        *)
(* eigenvalue.                                                             *)
EigTol == F("1e-10")
PosDef3(n, e) == Less3(FZero, FMinOf(e.val), FMul(EigTol, FMaxOf(VAbs(e.val))))

(* val and vec are a decomposition of the matrix *)
Orthonormal(n, vec) ==
    FLe(MMaxAbs(MSub(MMul(MT(vec), vec), MIdent(n))), F("1e-11"))
Decomposes(val, vec, cov) ==
    FLe(MMaxAbs(MSub(MMul(MMul(vec, MOfDiag(val)), MT(vec)), cov)),
        FMul(EigTol, FMaxOf(VAbs(val))))
AllPositive(v) == \A i \in 1..Len(v) : FLt(FZero, v[i])

Refreshed(d, e, eerr, evals) ==
    [d EXCEPT !.val = e.val, !.vec = e.vec, !.winv = InverseRoot(e.val, e.vec), !.eerr = eerr,
              !.cond = FDiv(FMaxOf(e.val), FMinOf(e.val)), !.lastEig = evals]

(* the reported eigenvalues, in any order, are those of the decomposition *)
SortedF(v) == LET r == FRank(v, TRUE) IN [i \in 1..Len(v) |-> v[r[i]]]
EigAgrees(n, seen, e) ==
    LET s == SortedF(seen)
    IN \A i \in 1..n : FLe(FAbs(FSub(s[i], e.val[i])), FMul(EigTol, FMaxOf(VAbs(e.val))))
AxisRatioAgrees(ar, seen) ==
    FClose(ar, FSqrt(FDiv(FMaxOf(seen), FMinOf(seen))), F("1e-12"), FZero)

(* ------------------- criteria of the distribution ---------------------- *)
(* o: cfg; b: observed state (mean, sigma, cov, eig, ar) after the step    *)
TolX3(tol, sigma, cov, pc, epc) ==
    LET n == Len(cov)
        std(i) == FMul(sigma, FSqrt(cov[i][i]))
    IN And3({Less3(std(i), tol, Rel(tol, F("1e-12"))) : i \in 1..n}
            \union {Less3(FMul(sigma, FAbs(pc[i])), tol,
                          FAdd(Rel(tol, F("1e-12")), FMul(sigma, epc[i]))) : i \in 1..n})

TolXUp3(tol, sigma, sigma0, eig) ==
    LET up == FDiv(FMul(sigma, FSqrt(FMaxOf(eig))), sigma0)
    IN Less3(tol, up, IF FIsFinite(up) THEN Rel(up, F("1e-12")) ELSE FZero)

\* in one dimension the condition number is exactly one
TolCond3(tol, ar, n) ==
    LET c == FSq(ar)
    IN IF ~FIsNormal(c) THEN "T" ELSE Less3(tol, c, IF n = 1 THEN FZero ELSE Rel(c, F("1e-12")))

(* adding s to x leaves it unchanged *)
Same(x, s) == FEq(x, FAdd(x, s))
SameIsh(x, s) ==
    LET a == Same(x, FMul(s, F("0.999999999999")))
        b == Same(x, FMul(s, F("1.000000000001")))
    IN IF a /\ b THEN "T" ELSE IF ~a /\ ~b THEN "F" ELSE "U"

NoEffectCoord3(mean, sigma, cov) ==
    Or3({SameIsh(mean[i], FMul(FMul(F("0.2"), sigma), FSqrt(cov[i][i]))) : i \in 1..Len(mean)})
(* what the code computes instead: finding NoEffectCoord-variance *)
NoEffectCoordVariance3(mean, sigma, cov) ==
    Or3({SameIsh(mean[i], FMul(FMul(F("0.2"), sigma), cov[i][i])) : i \in 1..Len(mean)})

(* The axis whose turn it is: number c of the decomposition in use, or, if *)
(* that is not known exactly, the one with the reported eigenvalue l.      *)
NoEffectAxis3(mean, sigma, c, l, d) ==
    LET n     == Len(mean)
        step  == FMul(FMul(F("0.1"), sigma), FSqrt(l))
        near  == IF d.eerr = U THEN {c}
                 ELSE {i \in 1..n : FLe(FAbs(FSub(d.val[i], l)), FMul(F("1e-8"), FMaxOf(d.val)))}
        \* some coordinate of a unit vector is at least 1/sqrt(n)
        surely == \A i \in 1..n :
                    LET s == FMul(FDiv(step, FSqrt(FOfInt(n))), F("0.999"))
                    IN ~Same(mean[i], s) /\ ~Same(mean[i], FNeg(s))
        never  == \A i \in 1..n :
                    LET s == FMul(step, F("1.001"))
                    IN Same(mean[i], s) /\ Same(mean[i], FNeg(s))
    IN IF ~FIsFinite(step) THEN "U"
       ELSE IF never THEN "T"
       ELSE IF surely THEN "F"
       ELSE IF Cardinality(near) = 1
       THEN LET a   == CHOOSE i \in near : TRUE
                gap == FMinOf([i \in 1..n |-> IF i = a THEN F("inf")
                                              ELSE FAbs(FSub(d.val[i], d.val[a]))])
                \* error of the direction
                ang == IF d.eerr = U THEN FZero
                       ELSE FDiv(FMul(FMul(F("4"), FOfInt(n)), FMul(d.eerr, FMaxOf(d.val))), gap)
                at(i, sgn) ==
                    LET v == FMul(sgn, FMul(step, d.vec[i][a]))
                        e == FMul(step, FAdd(ang, FMul(U, F("8"))))
                        p == Same(mean[i], FAdd(v, e))
                        q == Same(mean[i], FSub(v, e))
                    IN IF p /\ q THEN "T" ELSE IF ~p /\ ~q /\ FLt(e, FAbs(v)) THEN "F" ELSE "U"
                all(sgn) == And3({at(i, sgn) : i \in 1..n})
                \* either direction along the axis is as good
                p1 == all(FOne)
                m1 == all(FNeg(FOne))
            IN IF p1 = m1 THEN p1 ELSE "U"
       ELSE "U"
=============================================================================
