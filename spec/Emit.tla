-------------------------------- MODULE Emit --------------------------------
(* Side effects, by Java override: always TRUE. *)
EmitJson(file, value) == TRUE   \* appends the value as a line of JSON to the file
Tick(label)           == TRUE   \* counts how often it is evaluated, reported at exit
=============================================================================
