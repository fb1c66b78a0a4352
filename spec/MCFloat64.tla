----------------------------- MODULE MCFloat64 -----------------------------
(***************************************************************************)
(* Compares the module overrides of Float64 with its definitions.  The     *)
(* module Float64Def is a copy of Float64 under another name, made when    *)
(* this is run, so that TLC evaluates its operators by their definitions   *)
(* (only the primitives of Float64Scalar remain overridden).               *)
(*                                                                         *)
(* The states are inputs: first all pairs of vectors of two special        *)
(* values, then Count pseudo random inputs of mixed magnitudes in every    *)
(* size up to MaxN.                                                        *)
(***************************************************************************)
EXTENDS Float64, TLC
CONSTANTS Count, MaxN
D == INSTANCE Float64Def

Special == {F(s) : s \in {"0", "-0", "1", "-1", "0.1", "3", "1e300", "-1e300", "5e-324", "inf", "-inf", "NaN"}}
Exponents == <<"1", "1", "1e3", "1e-3", "1e8", "1e-8", "1e150", "1e-160">>
Rnd(x) == (x * 1103 + 12347) % 1048573
Val(x) == FMul(FSub(FDiv(FOfInt(Rnd(x) % 2001), F("1000")), FOne), F(Exponents[1 + (Rnd(Rnd(x)) % 8)]))
\* few different small integers: many equal values
Tied(x) == FOfInt((Rnd(x) % 4) - 1)

VARIABLE in
Vectors == {<<a, b>> : a \in Special, b \in Special}
Init == \/ \E u \in Vectors, v \in Vectors : in = [k |-> "special", u |-> u, v |-> v]
        \/ \E x \in 1..Count, n \in 1..MaxN : in = [k |-> "random", x |-> x, n |-> n]
Next == FALSE /\ UNCHANGED in

\* the same number, bit for bit (a NaN is a NaN)
Same(a, b) == a = b
VectorsAgree(u, v) ==
    /\ Same(VAdd(u, v), D!VAdd(u, v)) /\ Same(VSub(u, v), D!VSub(u, v)) /\ Same(VMul(u, v), D!VMul(u, v))
    /\ Same(VScale(u[1], v), D!VScale(u[1], v)) /\ Same(VDot(u, v), D!VDot(u, v)) /\ Same(VNorm(u), D!VNorm(u))
    /\ Same(VMaxAbs(u), D!VMaxAbs(u)) /\ VFinite(u) = D!VFinite(u) /\ Same(VAbs(u), D!VAbs(u))
    /\ Same(FMin(u[1], v[1]), D!FMin(u[1], v[1])) /\ Same(FMax(u[1], v[1]), D!FMax(u[1], v[1]))
    /\ Same(FSum(u), D!FSum(u)) /\ Same(FMaxOf(u), D!FMaxOf(u)) /\ Same(FMinOf(u), D!FMinOf(u))
    /\ \A t \in {"0", "1e-9", "0.5"}, z \in {"0", "1"} :
          FClose(u[1], v[1], F(t), F(z)) = D!FClose(u[1], v[1], F(t), F(z))
RanksAgree(u) ==
    (\A i \in 1..Len(u) : ~FIsNaN(u[i])) =>
        /\ FRank(u, TRUE) = D!FRank(u, TRUE) /\ FRank(u, FALSE) = D!FRank(u, FALSE)
        /\ Same(FMedian(u), D!FMedian(u))

Agree ==
    IF in.k = "special"
    THEN /\ VectorsAgree(in.u, in.v) /\ RanksAgree(in.u) /\ RanksAgree(in.u \o in.v)
         /\ VHist(<<in.u, in.v>>, <<F("-1"), F("0"), F("0.1"), F("3")>>)
            = D!VHist(<<in.u, in.v>>, <<F("-1"), F("0"), F("0.1"), F("3")>>)
    ELSE LET n == in.n
             base == in.x * 1000
             m == 1 + (in.x % 5)                                     \* how many vectors
             V(k) == [i \in 1..n |-> Val(base + 17 * k + i)]
             Vs == [k \in 1..m |-> V(k)]
             Us == [k \in 1..m |-> V(k + 20)]
             W == [k \in 1..m |-> Val(base + 900 + k)]
             A == [i \in 1..n |-> V(40 + i)]
             B == [i \in 1..n |-> V(60 + i)]
             T == [i \in 1..n |-> Tied(base + i)]
             \* a symmetric matrix with elements of about the same magnitude
             S == [i \in 1..n |-> [j \in 1..n |->
                     FDiv(FOfInt((Rnd(base + 31 * (IF i < j THEN i ELSE j) + 7 * (IF i < j THEN j ELSE i)) % 2001) - 1000),
                          F(IF in.x % 2 = 0 THEN "1" ELSE "1e7"))]]
         IN /\ VectorsAgree(V(1), V(2)) /\ VectorsAgree(T, V(1)) /\ RanksAgree(V(3)) /\ RanksAgree(T)
            /\ Same(MAdd(A, B), D!MAdd(A, B)) /\ Same(MSub(A, B), D!MSub(A, B)) /\ Same(MScale(W[1], A), D!MScale(W[1], A))
            /\ Same(MVec(A, V(1)), D!MVec(A, V(1))) /\ Same(MMul(A, B), D!MMul(A, B)) /\ Same(MAbs(A), D!MAbs(A))
            /\ Same(MOuter(V(1), V(2)), D!MOuter(V(1), V(2))) /\ Same(MMaxAbs(A), D!MMaxAbs(A))
            /\ MFinite(A) = D!MFinite(A) /\ Same(MWeightedOuter(W, Vs), D!MWeightedOuter(W, Vs))
            /\ Same(VWeighted(W, Vs), D!VWeighted(W, Vs)) /\ Same(MCross(Us, Vs), D!MCross(Us, Vs))
            /\ VHist(Vs, <<F("-1"), F("-1e-5"), F("0"), F("2")>>) = D!VHist(Vs, <<F("-1"), F("-1e-5"), F("0"), F("2")>>)
            /\ \E e \in {MEig(S)} :
                  \* the primitive MEig: orthogonal, ascending, and it multiplies back to the matrix
                  /\ \A i \in 1..(n - 1) : FLe(e.val[i], e.val[i + 1])
                  /\ FLe(D!MMaxAbs(D!MSub(D!MMul(D!MT(e.vec), e.vec), MIdent(n))), F("1e-13"))
                  /\ FLe(D!MMaxAbs(D!MSub(S, D!MMul(D!MMul(e.vec, MOfDiag(e.val)), D!MT(e.vec)))),
                         FMul(F("1e-13"), FMax(D!MMaxAbs(S), F("1e-300"))))
=============================================================================
