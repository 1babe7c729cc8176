--------------------------- MODULE MCDeterminism -------------------------------
(* Every short history over few inputs and outputs: it is explained to its end exactly if there is a function. *)
EXTENDS Determinism
CONSTANTS MaxLen
VARIABLE Hist
vars == <<pos, known, Hist>>
Ins == 1..2
Outs == 1..3
Init == Start /\ Hist \in UNION {[1..n -> [in : Ins, out : Outs]] : n \in 0..MaxLen}
Next == Expand(Hist) /\ UNCHANGED Hist
Stuck == ~(pos < Len(Hist) /\ Explained(Hist[pos + 1]))
Decides == Stuck => ((pos = Len(Hist)) <=> Functional(Hist))
Prefix == Functional(SubSeq(Hist, 1, pos)) /\ \A i \in 1..pos : known[Hist[i].in] = Hist[i].out
=============================================================================
