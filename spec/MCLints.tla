------------------------------- MODULE MCLints ---------------------------------
(* All settings of two lints (one that derived code allows by itself, one it does not) in four scopes, *)
(* for all sets of a few occasions: derived code is silent if it inherits the settings of the          *)
(* declaration, and only then.                                                                         *)
EXTENDS Lints
Few == {"deptr", "upper", "brace", "privb"}
Used == {LintOf(o) : o \in Few}
MCOwn == {"deprecated"}
Levels == {"allow", "warn", "deny", "expect"}
Settings(L) == {{}} \cup {{[lint |-> l, level |-> v]} : l \in L, v \in Levels}
\* the same lint at all places (settings of different lints do not interact)
Decls == UNION {[occ : {O \in SUBSET Few : \E o \in O : LintOf(o) = l}, scopes : {<<a, b, c, e>> : a, b, c, e \in Settings({l})}, item : {2, 3}] : l \in Used}
Init == \E x \in Decls : StartWith(x)
Next == LNext
\* without inheritance there are holes: exactly where an attribute of the declaration makes it more silent than its surroundings
Hole(x) == \E o \in x.occ : /\ Occasions[o].copied /\ LintOf(o) \notin Own
                            /\ Report(o, x.scopes, x.item) # {}
                            /\ ~(Report(o, x.scopes, x.item) \subseteq Expected(x))
NoHole == Done => (byderive \subseteq reported) = ~Hole(d)
=============================================================================
