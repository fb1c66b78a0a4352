------------------------------ MODULE MCOptions -----------------------------
(***************************************************************************)
(* All sequences of up to Depth option calls, with valid, invalid and      *)
(* boundary values.  Every behaviour is written out and replayed in the    *)
(* real code (OptTrace).  Values are texts here.                           *)
(***************************************************************************)
EXTENDS Options, TLC, Emit

CONSTANTS Depth, OutFile, Rich

Floats(k) ==
    CASE k = "set_sigma" -> {"1", "0", "-0.0", "-1", "2.2250738585072014e-308", "2.2e-308", "5e-324",
                             "1.7976931348623157e308", "inf", "-inf", "nan", "-2.5e-310"}
      [] k = "cm" -> {"1", "0.5", "0", "1.0000000000000002", "2.2250738585072014e-308", "1e-310", "-0.5", "nan", "inf"}
      [] OTHER -> IF Rich THEN {"0", "1e-3", "nan", "inf", "-7"} ELSE {"1e-3", "-7"}
FloatKeys == {"set_sigma", "cm", "fun_target", "tol_fun", "tol_fun_rel", "tol_fun_hist", "tol_x",
              "tol_x_up", "tol_cond"}
Big == "18446744073709551615"
Ints == IF Rich THEN {"0", "1", "77", Big} ELSE {"0", Big}
IntKeys == {"max_evals", "max_gens", "max_time", "tol_stag", "seed", "print"}
Calls ==
         UNION {{[k |-> k, s |-> v] : v \in Floats(k)} : k \in FloatKeys}
    \cup {[k |-> k, s |-> v] : k \in IntKeys, v \in Ints}
    \cup {[k |-> "pop", s |-> v] : v \in {"0", "1", "2", "3", "30"}}
    \cup {[k |-> "mode", s |-> v] : v \in {"min", "max"}}
    \cup {[k |-> "weights", s |-> v] : v \in {"positive", "uniform", "negative"}}
    \cup {[k |-> "pupd", s |-> v] : v \in {"true", "false"}}
    \cup {[k |-> "set_mean", s |-> v] : v \in {"", "4", "1,2,3,4,5", "nan,inf"}}
    \cup {[k |-> "plot", s |-> "5"], [k |-> "max_resamples", s |-> "3"], [k |-> "max_resamples", s |-> "-1"],
          [k |-> "bounds", s |-> "0,1"]}

Starts == {[mean |-> "1,2", sigma |-> "0.5"], [mean |-> "", sigma |-> "1"], [mean |-> "7", sigma |-> "0"]}

VARIABLES start, calls
vars == <<start, calls>>

Init == start \in Starts /\ calls = <<>>
Next ==
    /\ Len(calls) < Depth
    /\ \E c \in Calls : calls' = Append(calls, c)
    /\ UNCHANGED start
Spec == Init /\ [][Next]_vars

(* The texts stand for themselves here: what matters is which call counts. *)
Base == NewOptions(<<>>, FOne)
Text(k) == k \notin {"pop"}
Set(cs) == SetAll(Base, [i \in 1..Len(cs) |-> [k |-> cs[i].k, v |-> cs[i].s]], 1)
Last(cs, k) == LET at == {i \in 1..Len(cs) : cs[i].k = k}
               IN IF at = {} THEN Base[k]
                  ELSE cs[CHOOSE i \in at : \A j \in at : j <= i].s
(* the last call for an option counts, whatever else is called *)
LastCounts == \A k \in DOMAIN Base \ {"popSet"} : Set(calls)[k] = Last(calls, k)
(* calls for different options commute *)
Commute ==
    Len(calls) >= 2 =>
        LET n == Len(calls)
            sw == SubSeq(calls, 1, n - 2) \o <<calls[n], calls[n - 1]>>
        IN calls[n].k # calls[n - 1].k => Set(calls) = Set(sw)
Emitted == EmitJson(OutFile, [mean |-> start.mean, sigma |-> start.sigma, calls |-> calls])
=============================================================================
