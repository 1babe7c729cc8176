------------------------------- MODULE Infer ---------------------------------
(***************************************************************************)
(* What the compiler can infer at a call of func_map and its relatives.    *)
(*                                                                         *)
(* A value is [arg, heads, fits]: arg the arguments of its type (numbers   *)
(* of elements; Other for anything else), heads the positions for which    *)
(* there is an implementation, fits the <<position, target>> pairs for     *)
(* which the bounds are met when the argument there is the source.         *)
(*                                                                         *)
(* A call is [fun, pos, src, dst]:                                         *)
(*   fun  "item": a function from src to dst;  "clos": a closure whose     *)
(*        argument has no type written, returning go[argument]             *)
(*   pos  the position named, Free if none is (func_map), Hole if func_map_over *)
(*        is called without naming one                                     *)
(*                                                                         *)
(* Unknowns are learnt step by step, in any order: from the function, from *)
(* the position named, from being the only implementation left.  A         *)
(* position comes from the marker by FuncMarker<P>, never the other way    *)
(* round.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Free == 0
Hole == 0 - 1
Other == 0 - 1
Unknown == 0 - 2

VARIABLES val, call, go, src, dst, pos, marker, st
ivars == <<val, call, go, src, dst, pos, marker, st>>

Is(x, y) == x = Unknown \/ x = y

\* the implementations that are not ruled out by what is known
Left(v, s, d, p) == {i \in v.heads : Is(p, i) /\ Is(s, v.arg[i]) /\ (s = Unknown \/ d = Unknown \/ <<i, d>> \in v.fits)}

StartI(v, c, g) ==
  /\ val = v /\ call = c /\ go = g /\ src = Unknown /\ dst = Unknown /\ pos = Unknown /\ marker = Unknown /\ st = "run"

Keep == UNCHANGED <<val, call, go>>
Fail == st' = "no" /\ Keep /\ UNCHANGED <<src, dst, pos, marker>>

FromItem == /\ st = "run" /\ call.fun = "item" /\ dst = Unknown
            /\ IF Is(src, call.src) THEN src' = call.src /\ dst' = call.dst /\ Keep /\ UNCHANGED <<pos, marker, st>> ELSE Fail
FromMarker == /\ st = "run" /\ call.pos \notin {Free, Hole} /\ marker = Unknown
              /\ IF Is(pos, call.pos) THEN marker' = call.pos /\ pos' = call.pos /\ Keep /\ UNCHANGED <<src, dst, st>> ELSE Fail
OnlyOne == /\ st = "run" /\ (pos = Unknown \/ src = Unknown)
           /\ LET l == Left(val, src, dst, pos) IN
              CASE l = {} -> Fail
                [] Cardinality(l) = 1 -> LET i == CHOOSE i \in l : TRUE IN pos' = i /\ src' = val.arg[i] /\ Keep /\ UNCHANGED <<dst, marker, st>>
                [] OTHER -> FALSE
FromClosure == /\ st = "run" /\ call.fun = "clos" /\ src # Unknown /\ dst = Unknown
               /\ IF src = Other THEN Fail ELSE dst' = go[src] /\ Keep /\ UNCHANGED <<src, pos, marker, st>>
Known == src # Unknown /\ dst # Unknown /\ pos # Unknown /\ (call.pos = Free \/ marker # Unknown)
Decide == /\ st = "run" /\ Known
          /\ st' = IF pos \in val.heads /\ val.arg[pos] = src /\ <<pos, dst>> \in val.fits THEN "yes" ELSE "no"
          /\ Keep /\ UNCHANGED <<src, dst, pos, marker>>
Stuck == /\ st = "run" /\ ~ENABLED (FromItem \/ FromMarker \/ OnlyOne \/ FromClosure \/ Decide)
         /\ st' = "ambiguous" /\ Keep /\ UNCHANGED <<src, dst, pos, marker>>
NextI == FromItem \/ FromMarker \/ OnlyOne \/ FromClosure \/ Decide \/ Stuck

-----------------------------------------------------------------------------
(* The rules, without a machine: is the call accepted? *)
Candidates(v, c) == {i \in v.heads : (c.pos = Free \/ c.pos = i) /\ v.arg[i] = c.src /\ <<i, c.dst>> \in v.fits}
Possible(v, c) == {i \in v.heads : c.pos = Free \/ c.pos = i}
Accepted(v, c, g) ==
  /\ c.pos # Hole
  /\ IF c.fun = "item" THEN Cardinality(Candidates(v, c)) = 1
     ELSE /\ Cardinality(Possible(v, c)) = 1
          /\ LET i == CHOOSE i \in Possible(v, c) : TRUE IN v.arg[i] # Other /\ <<i, g[v.arg[i]]>> \in v.fits
\* a compiler that looks for targets may rule out more implementations than this one: not decided
Open(v, c) == /\ c.fun = "clos" /\ c.pos = Free /\ Cardinality(Possible(v, c)) > 1
              /\ Cardinality({i \in Possible(v, c) : \E f \in v.fits : f[1] = i}) < 2
PositionOf(v, c) == IF c.fun = "item" THEN CHOOSE i \in Candidates(v, c) : TRUE ELSE CHOOSE i \in Possible(v, c) : TRUE
TargetOf(v, c, g) == IF c.fun = "item" THEN c.dst ELSE g[v.arg[PositionOf(v, c)]]

\* the markers: only these, each only for itself
Markers == 0..3
IsMarker(q, p) == q \in Markers /\ q = p
=============================================================================
