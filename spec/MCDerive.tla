------------------------------ MODULE MCDerive ---------------------------------
(***************************************************************************)
(* The derive machine against the declarative rules, for every small       *)
(* declaration: every pair of field types of depth 1 over a few            *)
(* constructors, every list of up to three option arguments in every       *)
(* grouping into attributes.                                               *)
(***************************************************************************)
EXTENDS Derive

VARIABLES it, m
vars == <<it, m>>

T == N("V", <<>>, 0)
U == N("V", <<>>, 1)
Leaves == {T, U, N("L", <<>>, 0), N("Mac", <<>>, 0), N("Ref", <<T>>, 0), N("PtrC", <<U>>, 0), N("AssocV", <<T>>, 0)}
Types == Leaves \cup {N("Vec", <<x>>, 0) : x \in Leaves} \cup {N("Arr", <<x>>, 2) : x \in Leaves}
         \cup {N("Tup", <<x, y>>, 0) : x, y \in Leaves} \cup {N("Result", <<x, y>>, 0) : x, y \in Leaves}

P(n) == [k |-> "ty", n |-> n]
Args == {[a |-> "params", v |-> 0, ps |-> ps] : ps \in {<<P(0)>>, <<P(1)>>, <<P(0), P(1)>>, <<P(2)>>, <<[k |-> "lt", n |-> 0]>>, <<[k |-> "unknown", n |-> 0]>>, <<>>}}
        \cup {[a |-> "crate", v |-> v, ps |-> <<>>] : v \in {1, 3, 5}}
List(args) == [form |-> "list", args |-> args]
Options == {<<>>} \cup {<<List(<<x>>)>> : x \in Args} \cup {<<List(<<x, y>>)>> : x, y \in Args} \cup {<<List(<<x>>), List(<<y>>)>> : x, y \in Args}
           \cup {<<List(<<x>>), List(<<y, z>>)>> : x, y, z \in Args} \cup {<<List(<<x, y>>), List(<<z>>)>> : x, y, z \in Args}
           \cup {<<[form |-> "path", args |-> <<>>], List(<<x>>)>> : x \in Args}

Struct(attrs, tys) == [kind |-> "struct", lts |-> 1, ps |-> <<"ty", "ty", "const">>, attrs |-> attrs, derives |-> 2, drop |-> FALSE,
                       vs |-> <<[at |-> 0, fs |-> [i \in DOMAIN tys |-> [at |-> 0, ty |-> tys[i]]]]>>]
Enum(attrs, t, a1, a2) == [kind |-> "enum", lts |-> 0, ps |-> <<"ty", "ty", "const">>, attrs |-> attrs, derives |-> 0, drop |-> FALSE,
                   vs |-> <<[at |-> a1, fs |-> <<>>], [at |-> 0, fs |-> <<[at |-> a2, ty |-> t], [at |-> 0, ty |-> U]>>]>>]
SomeTypes == {T, N("Ref", <<U>>, 0), N("Vec", <<N("PtrC", <<T>>, 0)>>, 0)}
Items == {Struct(<<>>, <<x, y>>) : x \in Types, y \in SomeTypes}
         \cup {Struct(o, <<x>>) : o \in Options, x \in SomeTypes}
         \cup {Enum(<<List(<<[a |-> "params", v |-> 0, ps |-> <<P(0)>>]>>)>>, x, a1, a2) : x \in Types, a1, a2 \in 0..1}
         \cup {[kind |-> k, lts |-> 0, ps |-> ps, attrs |-> <<>>, derives |-> 1, drop |-> FALSE, vs |-> <<[at |-> 0, fs |-> <<>>]>>] : k \in {"union", "struct"}, ps \in {<<>>, <<"const">>, <<"ty">>}}
         \cup {[Struct(o, <<x>>) EXCEPT !.drop = TRUE, !.derives = d] : o \in {<<>>, <<List(<<[a |-> "params", v |-> 0, ps |-> <<P(0)>>]>>)>>}, x \in Types, d \in 0..2}

Init == it \in Items /\ m = StartM
Next == m.ph # "done" /\ m' = Step(m, it) /\ UNCHANGED it

\* the machine computes the declarative outcome
Agrees == m.ph = "done" => m.errs = Errors(it) /\ Accepted(m) = Outcome(it).acc /\ m.conf = Outcome(it).conf /\ (OptErrs(it) = {} => m.cr = CratePath(it))
\* every error that is reported is a true one, at any time
Sound == m.errs \subseteq Tolerated(it)
\* a declaration is accepted exactly if each selected parameter is used in supported ways only
Complete == m.ph = "done" /\ Accepted(m) # {} =>
              \A p \in Accepted(m) : \A i \in DOMAIN it.vs : \A j \in DOMAIN it.vs[i].fs : FirstErr(it.vs[i].fs[j].ty, p, <<>>) = {}
\* no implementation for a type with a destructor, and each derived trait says so, unless there are errors anyway
NoDrop == m.ph = "done" /\ it.drop => Accepted(m) = {} /\ (m.errs # {} \/ m.conf = Traits(it))
\* a destructor of something else changes nothing
DropOnly == m.ph = "done" /\ ~it.drop => m.conf = {}
\* the grouping and the order of correct options do not matter
Flat(attrs) == Cat([i \in DOMAIN attrs |-> attrs[i].args])
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Merge == (m.ph = "opts" /\ m.ai = 1 /\ OptErrs(it) = {} /\ it.attrs # <<>>) =>
   \A alt \in {<<List(Flat(it.attrs))>>, [i \in 1..Len(Flat(it.attrs)) |-> List(<<Flat(it.attrs)[i]>>)], Rev(it.attrs),
               <<List(Rev(Flat(it.attrs)))>>} :
      LET it2 == [it EXCEPT !.attrs = alt] IN
      /\ OptErrs(it2) = {} /\ Selected(it2) = Selected(it) /\ CratePath(it2) = CratePath(it)
      /\ {e.k : e \in SelErrs(it2)} = {e.k : e \in SelErrs(it)}
=============================================================================
