------------------------------ MODULE MCInfer ---------------------------------
(* Exhaustive: values with up to three arguments over two elements, all sets of implementations and targets, all calls, all orders of inference. *)
EXTENDS Infer, TLC
Els == {0, 1}
Vals == UNION {{[arg |-> a, heads |-> h, fits |-> f] : a \in [1..n -> Els \cup {Other}], h \in SUBSET (1..n), f \in SUBSET ((1..n) \X Els)} : n \in 1..2}
  \cup {[arg |-> a, heads |-> 1..3, fits |-> f] : a \in [1..3 -> Els], f \in SUBSET ((1..3) \X Els)}
Calls == {[fun |-> "item", pos |-> p, src |-> s, dst |-> d] : p \in Hole..3, s \in Els, d \in Els}
  \cup {[fun |-> "clos", pos |-> p, src |-> 0, dst |-> 0] : p \in Hole..3}
Gos == [Els -> Els]
Init == \E v \in Vals, c \in Calls, g \in Gos : (c.fun = "clos" \/ g = [e \in Els |-> e]) /\ StartI(v, c, g)
Next == NextI
Done == st # "run"
\* every order of inference ends with the same answer, that of the rules
Agrees == Done => ((st = "yes") = Accepted(val, call, go))
Same == st = "yes" => pos = PositionOf(val, call) /\ dst = TargetOf(val, call, go)
\* a position that is named is the one that is used
Named == st = "yes" /\ call.pos # Free => pos = call.pos
\* nothing is chosen where there is a choice
NoGuess == st = "yes" /\ call.pos = Free => \A i \in val.heads : (i # pos /\ val.arg[i] = src) => (<<i, dst>> \notin val.fits /\ call.fun = "item")
=============================================================================
