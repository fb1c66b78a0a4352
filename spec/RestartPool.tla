----------------------------- MODULE RestartPool ----------------------------
(***************************************************************************)
(* What the runs of many restarters drew at random, as emitted by          *)
(* RestartTrace: how many values were in each tenth of their range (of its *)
(* logarithm for step sizes and populations), and how two values that are  *)
(* drawn independently of each other share the halves of their ranges.     *)
(* The values come from all parts of their range: the probability to miss  *)
(* a part by chance is less than 10^-9 with the documented distributions   *)
(* and Enough values.  Step sizes (their logarithm) and means are uniform, *)
(* so that no tenth of the range has much more or less than its share; the *)
(* populations follow the law of BIPOP, given as an expectation.           *)
(***************************************************************************)
EXTENDS Float64, TLC, Json, Emit

CONSTANTS TraceFile, ViolationFile, Checked, Known

Runs == ndJsonDeserialize(TraceFile)
VARIABLES k, sum, laws, done
vars == <<k, sum, laws, done>>

On(p, label, cond) ==
    p \in Checked =>
        IF cond THEN Tick(p \o "/" \o label)
        ELSE /\ EmitJson(ViolationFile, [property |-> p, label |-> label, trace |-> "all", op |-> 0])
             /\ FALSE

Kinds == {"sigma", "lambda", "joint", "mean", "coords"}
Laws == {"law", "narrow"}
Add(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Init == k = 0 /\ done = FALSE /\ sum = [c \in Kinds |-> [i \in 1..(IF c \in {"joint", "coords"} THEN 4 ELSE 10) |-> 0]]
    /\ laws = [c \in Laws |-> <<0, FZero>>]
Sum ==
    /\ k < Len(Runs) /\ k' = k + 1 /\ UNCHANGED done
    /\ sum' = [c \in Kinds |-> Add(sum[c], Runs[k + 1][c])]
    /\ laws' = [c \in Laws |-> <<laws[c][1] + Runs[k + 1][c][1], FAdd(laws[c][2], Runs[k + 1][c][2])>>]

RECURSIVE Total(_, _)
Total(h, i) == IF i = 0 THEN 0 ELSE h[i] + Total(h, i - 1)
Enough(kind) == CASE kind = "coords" -> 100 [] kind = "joint" -> 200 [] OTHER -> 420
Everywhere(p, kind, what) ==
    \E n \in {Total(sum[kind], Len(sum[kind]))} :
       /\ Tick(p \o "/" \o kind \o ": " \o ToString(sum[kind]))
       /\ n >= Enough(kind) => On(p, what, \A i \in 1..Len(sum[kind]) : sum[kind][i] > 0)
(* 7 standard deviations of the number in a tenth *)
Uniform(p, kind, what) ==
    \E n \in {Total(sum[kind], 10)} :
       n >= 420 => On(p, what, \A i \in 1..10 : LET d == 10 * sum[kind][i] - n IN d * d <= 441 * n)
(* 6.5 standard deviations (at most 1/sqrt(12) each) of the sum *)
Expected(p, kind, what) ==
    \E n \in {FOfInt(laws[kind][1])}, s \in {laws[kind][2]} :
       /\ Tick(p \o "/" \o kind \o ": " \o ToString(laws[kind][1]))
       /\ laws[kind][1] >= 400 => On(p, what, FLe(FSq(FSub(s, FMul(F("0.5"), n))), FMul(F("3.53"), n)))
Judge ==
    /\ k = Len(Runs) /\ ~done
    /\ Everywhere("C23", "sigma", "step sizes of local runs come from all of their range")
    /\ Everywhere("C23", "lambda", "populations of local runs come from all of their range")
    /\ Everywhere("C23", "joint", "step sizes and populations of local runs are drawn separately")
    /\ Everywhere("C24", "mean", "initial means come from all of the search range")
    /\ Everywhere("C24", "coords", "coordinates of initial means are drawn separately")
    /\ Uniform("C23", "sigma", "step sizes of local runs are uniform in the exponent")
    /\ Uniform("C24", "mean", "initial means are uniform in the search range")
    /\ Expected("C23", "law", "populations of local runs follow the law")
    /\ Expected("C23", "narrow", "populations of local runs follow the law in narrow ranges")
    /\ done' = TRUE /\ UNCHANGED <<k, sum, laws>>
End == done /\ UNCHANGED vars
Next == Sum \/ Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
