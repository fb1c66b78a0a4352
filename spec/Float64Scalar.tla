--------------------------- MODULE Float64Scalar ---------------------------
(***************************************************************************)
(* IEEE-754 binary64 arithmetic for TLC: the primitives.                   *)
(*                                                                         *)
(* A floating point number is represented by its 64 bits, split into two   *)
(* signed 32 bit integers: <<hi, lo>>.  TLA+ has no reals that TLC can     *)
(* evaluate, so the operations are uninterpreted here and evaluated by the *)
(* Java module override java/Float64Overrides.java (Java doubles are       *)
(* binary64).                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

F(str)        == CHOOSE x \in Int \X Int : TRUE   \* number from decimal text
FOfInt(i)     == CHOOSE x \in Int \X Int : TRUE   \* nearest number to an integer
FToInt(a)     == CHOOSE i \in Int : TRUE          \* truncation, saturating at +-(2^31-1)
FText(a)      == CHOOSE s \in STRING : TRUE       \* decimal text, for messages
FAdd(a, b)    == CHOOSE x \in Int \X Int : TRUE
FSub(a, b)    == CHOOSE x \in Int \X Int : TRUE
FMul(a, b)    == CHOOSE x \in Int \X Int : TRUE
FDiv(a, b)    == CHOOSE x \in Int \X Int : TRUE
FNeg(a)       == CHOOSE x \in Int \X Int : TRUE
FAbs(a)       == CHOOSE x \in Int \X Int : TRUE
FSqrt(a)      == CHOOSE x \in Int \X Int : TRUE
FExp(a)       == CHOOSE x \in Int \X Int : TRUE
FLn(a)        == CHOOSE x \in Int \X Int : TRUE
FPow(a, b)    == CHOOSE x \in Int \X Int : TRUE
FFloor(a)     == CHOOSE x \in Int \X Int : TRUE
FCeil(a)      == CHOOSE x \in Int \X Int : TRUE
FLt(a, b)     == CHOOSE x \in BOOLEAN : TRUE      \* a < b, FALSE with NaN
FLe(a, b)     == CHOOSE x \in BOOLEAN : TRUE
FEq(a, b)     == CHOOSE x \in BOOLEAN : TRUE      \* numeric equality (-0 = 0)
FIsNaN(a)     == CHOOSE x \in BOOLEAN : TRUE
FIsFinite(a)  == CHOOSE x \in BOOLEAN : TRUE
FIsNormal(a)  == CHOOSE x \in BOOLEAN : TRUE      \* finite, not zero, not subnormal
FUlp(a)       == CHOOSE x \in Int \X Int : TRUE   \* spacing of numbers at |a|

(* Eigendecomposition of a symmetric matrix: ascending eigenvalues val and *)
(* an orthogonal matrix vec whose columns are the eigenvectors.  Primitive *)
(* (cyclic Jacobi in the override); MCFloat64 checks a = vec*val*vec^T.    *)
MEig(a) == CHOOSE e \in [val : Seq(Int \X Int), vec : Seq(Seq(Int \X Int))] : TRUE
=============================================================================
