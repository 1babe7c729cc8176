----------------------------- MODULE Determinism -------------------------------
(***************************************************************************)
(* Runs of the compiler that expand declarations again and again.          *)
(*                                                                         *)
(* An input is a declaration (its tokens, attributes included).  In a run  *)
(* the compiler expands a sequence of inputs, each at another place; an    *)
(* expansion has an output: the generated code and the diagnostics in      *)
(* order, with places relative to the declaration.  A compiler has state   *)
(* of its own (what it expanded before, random numbers, addresses, the     *)
(* directory, the environment); the macros may depend on none of it: there *)
(* is a function from inputs to outputs that explains every history.       *)
(*                                                                         *)
(* Hist is a recorded history: a sequence of [in, out], out a name for the *)
(* output (equal names for equal outputs).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES pos, known     \* how much of the history is explained; the function so far

\* there is a function: the declarative rule
Functional(Hist) == \A i, j \in DOMAIN Hist : Hist[i].in = Hist[j].in => Hist[i].out = Hist[j].out

\* the same, one event at a time
Start == pos = 0 /\ known = <<>>
Explained(e) == IF e.in \in DOMAIN known THEN known[e.in] = e.out ELSE TRUE
Learn(e) == known' = IF e.in \in DOMAIN known THEN known ELSE known @@ (e.in :> e.out)
Expand(Hist) == /\ pos < Len(Hist)
                /\ Explained(Hist[pos + 1])
                /\ Learn(Hist[pos + 1]) /\ pos' = pos + 1
=============================================================================
