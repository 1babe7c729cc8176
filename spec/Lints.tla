-------------------------------- MODULE Lints ----------------------------------
(***************************************************************************)
(* What the compiler's lints report for a declaration and for the code     *)
(* that is derived for it.                                                 *)
(*                                                                         *)
(* A lint has a level at every place: the one set by the innermost of the  *)
(* scopes around the place that mention it (command line, crate, module,   *)
(* item, parameter or field), or else its default.  A declaration has      *)
(* occasions: constructs that a lint objects to.  Some of them come up     *)
(* again in derived code (a parameter, a bound, the type of a field), which*)
(* stands next to the declaration, outside of the scope of its attributes. *)
(*                                                                         *)
(* The machine walks over the scopes of one declaration and its derived    *)
(* code and collects reports.  Rule: derived code adds none (Silent).      *)
(*                                                                         *)
(* A declaration d is a record                                             *)
(*   occ     set of occasions (names)                                      *)
(*   scopes  sequence of levels settings, outermost first, each a set of   *)
(*           [lint, level], level in "allow", "warn", "deny", "expect";    *)
(*           lint may be the name of a group                               *)
(*   item    number of scopes around the item (the others are attributes   *)
(*           of the item and within)                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Occasion(l, dflt, copied) == [lint |-> l, dflt |-> dflt, copied |-> copied]
\* name -> lint, default level of the lint, comes up again in derived code
Occasions == [
  camelp   |-> Occasion("non_camel_case_types", "warn", TRUE),
  camelv   |-> Occasion("non_camel_case_types", "warn", TRUE),
  camelname |-> Occasion("non_camel_case_types", "warn", TRUE),
  upper    |-> Occasion("non_upper_case_globals", "warn", TRUE),
  upper2   |-> Occasion("non_upper_case_globals", "warn", TRUE),
  snakelt  |-> Occasion("non_snake_case", "warn", TRUE),
  snakef   |-> Occasion("non_snake_case", "warn", TRUE),
  depty    |-> Occasion("deprecated", "warn", TRUE),
  deptr    |-> Occasion("deprecated", "warn", TRUE),
  depk     |-> Occasion("deprecated", "warn", TRUE),
  depk2    |-> Occasion("deprecated", "warn", TRUE),
  depmod   |-> Occasion("deprecated", "warn", TRUE),
  dropb    |-> Occasion("drop_bounds", "warn", TRUE),
  dropb2   |-> Occasion("drop_bounds", "warn", TRUE),
  dynd     |-> Occasion("dyn_drop", "warn", TRUE),
  qualf    |-> Occasion("unused_qualifications", "allow", TRUE),
  qualb    |-> Occasion("unused_qualifications", "allow", TRUE),
  paren    |-> Occasion("unused_parens", "warn", TRUE),
  paren2   |-> Occasion("unused_parens", "warn", TRUE),
  parenlen |-> Occasion("unused_parens", "warn", TRUE),
  brace    |-> Occasion("unused_braces", "warn", TRUE),
  brace0   |-> Occasion("unused_braces", "warn", TRUE),
  unlt     |-> Occasion("unused_lifetimes", "allow", TRUE),
  redlt    |-> Occasion("redundant_lifetimes", "allow", TRUE),
  outl     |-> Occasion("explicit_outlives_requirements", "allow", TRUE),
  bare     |-> Occasion("bare_trait_objects", "warn", TRUE),
  bare2    |-> Occasion("bare_trait_objects", "warn", TRUE),
  abs      |-> Occasion("absolute_paths_not_starting_with_crate", "allow", TRUE),
  hid      |-> Occasion("elided_lifetimes_in_paths", "allow", TRUE),
  hid2     |-> Occasion("elided_lifetimes_in_paths", "allow", TRUE),
  privb    |-> Occasion("private_bounds", "warn", FALSE),
  lenvar   |-> Occasion("unused_variables", "warn", TRUE),
  lenvar2  |-> Occasion("unused_variables", "warn", TRUE),
  lenmut   |-> Occasion("unused_mut", "warn", TRUE),
  lencast  |-> Occasion("trivial_numeric_casts", "allow", TRUE),
  lencast2 |-> Occasion("trivial_numeric_casts", "allow", TRUE),
  lenunsafe |-> Occasion("unused_unsafe", "warn", TRUE),
  lensnake |-> Occasion("non_snake_case", "warn", TRUE),
  lensnake2 |-> Occasion("non_snake_case", "warn", TRUE),
  lenover  |-> Occasion("overflowing_literals", "deny", TRUE),
  lenover2 |-> Occasion("overflowing_literals", "deny", TRUE),
  missabi  |-> Occasion("missing_abi", "warn", TRUE),
  cty      |-> Occasion("improper_ctypes_definitions", "warn", FALSE) ]

OccNames == DOMAIN Occasions
LintOf(o) == Occasions[o].lint
Lints == {LintOf(o) : o \in OccNames}
DefaultLevel(l) == Occasions[CHOOSE o \in OccNames : LintOf(o) = l].dflt
Groups == [ nonstandard_style |-> {"non_camel_case_types", "non_upper_case_globals", "non_snake_case"},
            unused |-> {"unused_parens", "unused_braces", "unused_variables", "unused_mut", "unused_unsafe"},
            rust_2018_idioms |-> {"bare_trait_objects", "elided_lifetimes_in_paths"} ]
Covers(x, l) == x.lint = l \/ (x.lint \in DOMAIN Groups /\ l \in Groups[x.lint])

\* the level of l inside of the first n of the scopes
RECURSIVE Level(_, _, _)
Level(l, scopes, n) ==
  IF n = 0 THEN DefaultLevel(l)
  ELSE LET hit == {x \in scopes[n] : Covers(x, l)} IN IF hit = {} THEN Level(l, scopes, n - 1) ELSE (CHOOSE x \in hit : TRUE).level

CONSTANTS Own,          \* lints that derived code allows by itself
          Inherit,      \* TRUE: derived code is silent about whatever the declaration has a setting for
          Capped        \* TRUE: errors are turned into warnings (--cap-lints)

\* what is reported for an occasion inside of the first n scopes ("" nothing)
Severity(level) == CASE level = "warn" -> "warning" [] level = "deny" -> (IF Capped THEN "warning" ELSE "error") [] OTHER -> ""
Report(o, scopes, n) ==
  LET s == Severity(Level(LintOf(o), scopes, n)) IN IF s = "" THEN {} ELSE {[lint |-> LintOf(o), severity |-> s]}

-----------------------------------------------------------------------------
(* The machine *)
VARIABLES d, ph, n, todo, reported, byderive
lvars == <<d, ph, n, todo, reported, byderive>>

StartWith(x) == d = x /\ ph = "decl" /\ n = 0 /\ todo = x.occ /\ reported = {} /\ byderive = {}

\* into the next scope
Enter == /\ ph = "decl" /\ n < Len(d.scopes) /\ n' = n + 1 /\ UNCHANGED <<d, ph, todo, reported, byderive>>
\* at the declaration: an occasion is met
Meet == /\ ph = "decl" /\ n = Len(d.scopes) /\ todo # {}
        /\ LET o == CHOOSE o \in todo : TRUE
           IN  /\ reported' = reported \cup Report(o, d.scopes, n) /\ todo' = todo \ {o}
        /\ UNCHANGED <<d, ph, n, byderive>>
\* out of the item's own scopes, into the derived code
Leave == /\ ph = "decl" /\ n = Len(d.scopes) /\ todo = {}
         /\ ph' = "derived" /\ n' = d.item /\ todo' = {o \in d.occ : Occasions[o].copied} /\ UNCHANGED <<d, reported, byderive>>
\* the scope of derived code: the ones around the item, and its own attributes
Derived == SubSeq(d.scopes, 1, d.item)
           \o << {[lint |-> l, level |-> "allow"] : l \in Own \cup (IF Inherit THEN {x.lint : x \in UNION {d.scopes[k] : k \in (d.item + 1)..Len(d.scopes)}} ELSE {})} >>
MeetAgain == /\ ph = "derived" /\ todo # {}
             /\ LET o == CHOOSE o \in todo : TRUE
                IN  /\ byderive' = byderive \cup Report(o, Derived, Len(Derived)) /\ todo' = todo \ {o}
             /\ UNCHANGED <<d, ph, n, reported>>
Done == ph = "derived" /\ todo = {}
LNext == Enter \/ Meet \/ Leave \/ MeetAgain

-----------------------------------------------------------------------------
(* Declarative *)
Expected(x) == UNION {Report(o, x.scopes, Len(x.scopes)) : o \in x.occ}
\* nothing comes from derived code that is not reported for the declaration anyway
Silent == Done => byderive \subseteq reported
Agrees == Done => reported = Expected(d)
=============================================================================
