------------------------- MODULE TraceDeterminism ------------------------------
(* A recorded history (file HIST), explained event by event; the events that no function explains are printed. *)
EXTENDS Determinism, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.HIST)
Init == Start
Bad == /\ pos < Len(Hist) /\ ~Explained(Hist[pos + 1])
       /\ PrintT("BAD " \o ToJson([event |-> pos + 1, in |-> Hist[pos + 1].in]))
       /\ pos' = pos + 1 /\ UNCHANGED known
Next == Expand(Hist) \/ Bad
=============================================================================
