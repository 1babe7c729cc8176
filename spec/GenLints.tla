------------------------------- MODULE GenLints --------------------------------
(* Draws declarations with occasions and lint levels around and on them, runs  *)
(* the machine on each and prints what must be reported.                       *)
EXTENDS Lints, Rnd, Json, IOUtils
N       == atoi(IOEnv.N)
Seed    == atoi(IOEnv.GENSEED)
Edition == IOEnv.EDITION

GenOwn == {}            \* derived code is to be silent about everything, whichever way
GenCapped == IOEnv.CAP = "1"
\* an error of a lint that runs early keeps the compiler from running the late ones, so without the cap only these are denied
Late == {"drop_bounds", "dyn_drop", "non_snake_case", "non_upper_case_globals", "overflowing_literals", "trivial_numeric_casts", "improper_ctypes_definitions"}
VARIABLES i
vars == <<lvars, i>>

OccSeq == LET RECURSIVE S(_)
              S(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o S(X \ {x})
          IN S({o \in OccNames : \/ o \notin {"bare", "bare2", "abs"}
                                 \/ o \in {"bare", "bare2"} /\ Edition \in {"2015", "2018"}
                                 \/ o = "abs" /\ Edition = "2015"})
\* occasions that lie in a parameter or a field, which may have attributes of its own
Inner == {"camelp", "snakelt", "snakef", "redlt", "outl", "upper2", "upper", "depty", "depk", "depk2", "depmod", "qualf", "paren", "paren2", "parenlen", "brace", "brace0", "hid", "hid2", "missabi",
          "lenvar", "lenvar2", "lenmut", "lencast", "lencast2", "lenunsafe", "lensnake", "lensnake2", "lenover", "lenover2", "camelv", "bare", "bare2", "abs"}

LintSeq == LET RECURSIVE S(_)
               S(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o S(X \ {x})
           IN S(Lints)
Set(l, v) == [lint |-> l, level |-> IF v = "deny" /\ ~GenCapped /\ l \notin Late THEN "warn" ELSE v]
\* the command line: the same for all declarations
World == {Set(LintSeq[k], From(Sub(Sub(Seed, 1), k), <<"allow", "warn", "warn", "deny">>)) : k \in {k \in DOMAIN LintSeq : Chance(Sub(Sub(Seed, 2), k), 3, 4)}}

GroupOf(l) == {g \in DOMAIN Groups : l \in Groups[g]}
\* a setting of one of the lints of occasions O, sometimes by way of a group
Setting(s, O, levels) ==
  LET l == LintOf(From(Sub(s, 1), O))
      v == From(Sub(s, 2), levels)
  IN IF GroupOf(l) # {} /\ v # "expect" /\ Chance(Sub(s, 3), 1, 5) THEN Set(CHOOSE g \in GroupOf(l) : TRUE, v) ELSE Set(l, v)

Decl(s) ==
  LET k == From(Sub(s, 1), <<1, 1, 1, 2, 2, 3, 4>>)
      O == [x \in 1..k |-> From(Sub(s, 10 + x), OccSeq)]
      item0 == {Setting(Sub(s, 30 + x), O, <<"allow", "allow", "allow", "warn", "expect", "deny">>) : x \in 1..From(Sub(s, 3), <<0, 1, 1, 1, 2>>)}
      \* one setting for each lint
      clash(S) == \E x, y \in S : x # y /\ \E l \in Lints : Covers(x, l) /\ Covers(y, l)
      item == IF clash(item0) THEN {CHOOSE x \in item0 : TRUE} ELSE item0
      expects == \E x \in item : x.level = "expect"
      inner == IF k = 1 /\ O[1] \in Inner /\ ~expects /\ Chance(Sub(s, 4), 1, 3) THEN {Set(LintOf(O[1]), From(Sub(s, 5), <<"allow", "allow", "warn", "expect", "deny">>))} ELSE {}
      md == IF Chance(Sub(s, 6), 1, 4) THEN {Setting(Sub(s, 7), O, <<"allow", "warn", "deny">>)} ELSE {}
  IN [occ |-> {O[x] : x \in 1..k}, scopes |-> <<World, md, item, inner>>, item |-> 2]

Init == i = 1 /\ StartWith(Decl(Sub(Sub(Seed, 9), 1)))
Finish == /\ Done /\ i <= N
          /\ PrintT("LINT " \o ToJson([occ |-> d.occ, mod |-> d.scopes[2], item |-> d.scopes[3], inner |-> d.scopes[4], reported |-> reported,
                                       form |-> Below(Sub(Sub(Seed, 8), i), 1000)]))
          /\ Assert(byderive \subseteq reported, "derived code is not silent")
          /\ i' = i + 1
          /\ IF i < N THEN LET x == Decl(Sub(Sub(Seed, 9), i + 1)) IN d' = x /\ ph' = "decl" /\ n' = 0 /\ todo' = x.occ /\ reported' = {} /\ byderive' = {}
             ELSE UNCHANGED lvars
First == i = 1 /\ ph = "decl" /\ n = 0 /\ PrintT("WORLD " \o ToJson(World)) /\ n' = 1 /\ UNCHANGED <<i, d, ph, todo, reported, byderive>>
Next == First \/ (~(i = 1 /\ ph = "decl" /\ n = 0) /\ i <= N /\ LNext /\ UNCHANGED i) \/ Finish
=============================================================================
