------------------------------ MODULE Float64 ------------------------------
(***************************************************************************)
(* Operators on binary64 numbers, on vectors (sequences of numbers) and on *)
(* matrices (sequences of rows), defined with the primitives of            *)
(* Float64Scalar.  TLC evaluates most of them with a module override,      *)
(* which is only an acceleration: MCFloat64 compares all of them with      *)
(* these definitions.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Float64Scalar

FGt(a, b) == FLt(b, a)
FGe(a, b) == FLe(b, a)
FZero == F("0")
FOne  == F("1")
FMin(a, b) == IF FIsNaN(a) THEN b ELSE IF FIsNaN(b) THEN a ELSE IF FLt(b, a) THEN b ELSE a
FMax(a, b) == IF FIsNaN(a) THEN b ELSE IF FIsNaN(b) THEN a ELSE IF FLt(a, b) THEN b ELSE a
FSq(a) == FMul(a, a)

(* |a - b| <= tol * max(|a|, |b|, floor), or both the same infinity/NaN *)
FClose(a, b, tol, floor) ==
    \/ a = b
    \/ FIsNaN(a) /\ FIsNaN(b)
    \/ FEq(a, b)
    \/ /\ FIsFinite(a) /\ FIsFinite(b)
       /\ FLe(FAbs(FSub(a, b)), FMul(tol, FMax(FMax(FAbs(a), FAbs(b)), floor)))

(* ------------------------------ sequences ------------------------------ *)
RECURSIVE FSumTo(_, _)
FSumTo(s, k) == IF k = 0 THEN FZero ELSE FAdd(FSumTo(s, k - 1), s[k])
FSum(s) == FSumTo(s, Len(s))

FMaxOf(s) == LET RECURSIVE M(_)
                 M(k) == IF k = 1 THEN s[1] ELSE FMax(M(k - 1), s[k])
             IN M(Len(s))
FMinOf(s) == LET RECURSIVE M(_)
                 M(k) == IF k = 1 THEN s[1] ELSE FMin(M(k - 1), s[k])
             IN M(Len(s))

(* The permutation p that sorts s, stable: s[p[1]], s[p[2]], ... is in     *)
(* ascending order (descending unless asc) and equal values keep order.    *)
FRank(s, asc) ==
    LET Before(i, j) == \/ IF asc THEN FLt(s[i], s[j]) ELSE FLt(s[j], s[i])
                        \/ FEq(s[i], s[j]) /\ i < j
        Pos(i) == 1 + Len(SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : Before(k, i)))
    IN [p \in 1..Len(s) |-> CHOOSE i \in 1..Len(s) : Pos(i) = p]

(* The median: the middle element of the sorted values, or the mean of the *)
(* two middle ones.                                                        *)
FMedian(s) ==
    LET r == FRank(s, TRUE)
        n == Len(s)
    IN IF n = 0 THEN F("NaN")
       ELSE IF n % 2 = 1 THEN s[r[n \div 2 + 1]]
       ELSE FDiv(FAdd(s[r[n \div 2]], s[r[n \div 2 + 1]]), F("2"))

(* ------------------------------- vectors ------------------------------- *)
VZero(n)     == [i \in 1..n |-> FZero]
VAdd(u, v)   == [i \in 1..Len(u) |-> FAdd(u[i], v[i])]
VSub(u, v)   == [i \in 1..Len(u) |-> FSub(u[i], v[i])]
VScale(a, v) == [i \in 1..Len(v) |-> FMul(a, v[i])]
VMul(u, v)   == [i \in 1..Len(u) |-> FMul(u[i], v[i])]
VDot(u, v)   == FSum(VMul(u, v))
VNorm(v)     == FSqrt(VDot(v, v))
VMaxAbs(v)   == FMaxOf([i \in 1..Len(v) |-> FAbs(v[i])])
VFinite(v)   == \A i \in 1..Len(v) : FIsFinite(v[i])

(* ------------------------------- matrices ------------------------------ *)
MIdent(n)    == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN FOne ELSE FZero]]
MZero(n)     == [i \in 1..n |-> VZero(n)]
MAdd(a, b)   == [i \in 1..Len(a) |-> VAdd(a[i], b[i])]
MSub(a, b)   == [i \in 1..Len(a) |-> VSub(a[i], b[i])]
MScale(c, a) == [i \in 1..Len(a) |-> VScale(c, a[i])]
MVec(a, v)   == [i \in 1..Len(a) |-> VDot(a[i], v)]
MT(a)        == [j \in 1..Len(a) |-> [i \in 1..Len(a) |-> a[i][j]]]
MMul(a, b)   == LET bt == MT(b)
                IN [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> VDot(a[i], bt[j])]]
MOuter(u, v) == [i \in 1..Len(u) |-> VScale(u[i], v)]
MDiag(a)     == [i \in 1..Len(a) |-> a[i][i]]
MOfDiag(v)   == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE FZero]]
MAbs(a)      == [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> FAbs(a[i][j])]]
VAbs(v)      == [i \in 1..Len(v) |-> FAbs(v[i])]
MMaxAbs(a)   == FMaxOf([i \in 1..Len(a) |-> VMaxAbs(a[i])])
MFinite(a)   == \A i \in 1..Len(a) : VFinite(a[i])
(* sum of w[k] * v[k] * v[k]^T *)
MWeightedOuter(w, vs) ==
    LET RECURSIVE S(_)
        S(k) == IF k = 0 THEN MZero(Len(vs[1]))
                ELSE MAdd(S(k - 1), MScale(w[k], MOuter(vs[k], vs[k])))
    IN S(Len(w))
(* sum of w[k] * v[k] *)
VWeighted(w, vs) ==
    LET RECURSIVE S(_)
        S(k) == IF k = 0 THEN VZero(Len(vs[1])) ELSE VAdd(S(k - 1), VScale(w[k], vs[k]))
    IN S(Len(w))
(* sum of us[k] * vs[k]^T *)
MCross(us, vs) ==
    LET RECURSIVE S(_)
        S(k) == IF k = 0 THEN MZero(Len(us[1])) ELSE MAdd(S(k - 1), MOuter(us[k], vs[k]))
    IN S(Len(us))
(* how many elements of the vectors vs are in each of the cells that the   *)
(* ascending edges delimit (below the first, ..., above the last)          *)
VHist(vs, edges) ==
    LET Cell(x) == 1 + Len(SelectSeq(edges, LAMBDA e : FLe(e, x)))
        Count(v, c) == Len(SelectSeq(v, LAMBDA x : Cell(x) = c))
        RECURSIVE S(_, _)
        S(k, c) == IF k = 0 THEN 0 ELSE S(k - 1, c) + Count(vs[k], c)
    IN [c \in 1..(Len(edges) + 1) |-> S(Len(vs), c)]
=============================================================================
