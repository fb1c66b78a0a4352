------------------------------ MODULE BoundsTrace ---------------------------
(* Validates verdicts of the box constraints. *)
EXTENDS Float64, TLC, Json, Emit

CONSTANTS TraceFile, ViolationFile, Checked, Known

Traces == ndJsonDeserialize(TraceFile)
VARIABLES tid, done
T == Traces[tid]
Inside(x) == \A i \in 1..Len(x) : FLe(T.lo[i], x[i]) /\ FLe(x[i], T.hi[i])
Init == tid \in 1..Len(Traces) /\ done = FALSE
Check ==
    /\ ~done
    /\ \A k \in 1..Len(T.asked) :
         IF T.asked[k].ok = Inside(T.asked[k].x) THEN Tick("C12/verdict " \o ToString(T.asked[k].ok))
         ELSE /\ EmitJson(ViolationFile, [property |-> "C12", label |-> "verdict of the bounds",
                                          trace |-> T.id, op |-> k])
              /\ FALSE
    /\ done' = TRUE /\ UNCHANGED tid
End == done /\ UNCHANGED <<tid, done>>
Next == Check \/ End
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
