------------------------------- MODULE FMTypes -------------------------------
(***************************************************************************)
(* The abstract universe of funcmap: type expressions, value trees, and    *)
(* the static facts about every type constructor the crate knows.          *)
(*                                                                         *)
(* A type expression is [c, a, n]: constructor, arguments, number.         *)
(*   "P"    the type parameter that is being mapped (a leaf of the map)    *)
(*   "O"    anything that does not depend on it (kept as it is)            *)
(*   "V"    parameter number n of a user-defined type (0-based, counted    *)
(*          over type AND const parameters, lifetimes not counted)         *)
(*   "User" an application of the user-defined type number n               *)
(*   "Tup", "Paren", "Arr", and the library constructors by name           *)
(*                                                                         *)
(* A value tree is [c, v, t, g, y, k]: constructor, variant number, token  *)
(* identity (0 = none), generation (how often it was mapped), key (what    *)
(* Eq/Ord/Hash look at), children.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Defs        \* sequence of user-defined types: [np, vs], vs: variants,
                     \* each a sequence of field types over "V" parameters

Ty(c, a) == [c |-> c, a |-> a, n |-> 0]
TyN(c, a, n) == [c |-> c, a |-> a, n |-> n]
TyP == Ty("P", <<>>)
TyO == Ty("O", <<>>)

Node(c, v, k) == [c |-> c, v |-> v, t |-> 0, g |-> 0, y |-> 0, k |-> k]
TokG(t, y, g) == [c |-> "t", v |-> 0, t |-> t, g |-> g, y |-> y, k |-> <<>>]
Tok(t, y) == TokG(t, y, 0)
Lit(y) == [c |-> "lit", v |-> 0, t |-> 0, g |-> 0, y |-> y, k |-> <<>>]

RECURSIVE Dep(_)
Dep(ty) == ty.c = "P" \/ \E i \in DOMAIN ty.a : Dep(ty.a[i])

-----------------------------------------------------------------------------
(* Constructors *)

\* exactly one element, always
OneC   == {"Box", "Cell", "RefCell", "UnsafeCell", "RangeFrom", "RangeTo", "RangeToInclusive"}
\* exactly two elements, always
TwoC   == {"Range", "RangeInclusive"}
\* variant 0 has no element, variant 1 has one
OptC   == {"Option", "OptIter", "ResIter", "Poll"}
\* variants 0 and 1 have one element, variant 2 none
BoundC == {"Bound"}
\* any number of elements, in order
ListC  == {"Arr", "Vec", "VecIter", "VecDeque", "VecDequeIter", "LinkedList", "LinkedListIter"}
\* elements ordered by key, no two keys equal
BSetC  == {"BTreeSet", "BTreeSetIter"}
BMapC  == {"BTreeMap", "BTreeMapIter"}
HSetC  == {"HashSet", "HashSetIter"}
HMapC  == {"HashMap", "HashMapIter"}
\* elements in no particular order, keys may be equal
HeapC  == {"BinaryHeap", "BinaryHeapIter"}
\* two type arguments, the variant number says which one the element has
SumC   == {"Result", "ControlFlow"}

SetC   == BSetC \cup HSetC
MapC   == BMapC \cup HMapC
KeyedC == SetC \cup MapC
\* the order of iteration, hence of the calls, is not specified
UnordC == HSetC \cup HMapC \cup HeapC
\* the order of iteration carries no information about the value
BagC   == UnordC
Uni1   == OneC \cup TwoC \cup OptC \cup BoundC \cup ListC \cup SetC \cup HeapC \cup {"Phantom"}
LibC   == Uni1 \cup MapC \cup SumC
ArgCount(c) == IF c \in MapC \cup SumC THEN 2 ELSE 1

\* substitution of argument types for the parameters of a user-defined type
RECURSIVE Subst(_, _)
Subst(ty, env) ==
  IF ty.c = "V" THEN env[ty.n + 1]
  ELSE [ty EXCEPT !.a = [i \in DOMAIN ty.a |-> Subst(ty.a[i], env)]]

\* the dependent arguments of a named type, in the order of its parameters (0-based)
DepArgs(ty) == SelectSeq([i \in 1..Len(ty.a) |-> i - 1], LAMBDA i : Dep(ty.a[i + 1]))

\* a pass over argument i sees the other arguments as independent
Only(ty, i) == [j \in 1..Len(ty.a) |-> IF j = i + 1 THEN ty.a[j] ELSE TyO]

\* types of the children of value v of the named type ty, in the pass over argument i
KidTypes(ty, i, v) ==
  LET env == Only(ty, i) IN
  CASE ty.c \in Uni1 -> [j \in 1..Len(v.k) |-> env[1]]
    [] ty.c \in MapC -> [j \in 1..Len(v.k) |-> Ty("KV", env)]
    [] ty.c \in SumC -> [j \in 1..Len(v.k) |-> env[v.v + 1]]
    [] ty.c = "User" -> LET fts == Defs[ty.n].vs[v.v + 1] IN [j \in 1..Len(fts) |-> Subst(fts[j], env)]

-----------------------------------------------------------------------------
(* Values *)

RECURSIVE TokensOf(_)
TokensOf(v) == IF v.c = "t" THEN {v.t} ELSE UNION {TokensOf(v.k[i]) : i \in DOMAIN v.k}

TokensOfSeq(s) == UNION {TokensOf(s[i]) : i \in DOMAIN s}

\* the tokens from left to right
RECURSIVE TokSeq(_), TokSeqs(_, _)
TokSeq(v) == IF v.c = "t" THEN <<v.t>> ELSE TokSeqs(v.k, 1)
TokSeqs(s, i) == IF i > Len(s) THEN <<>> ELSE TokSeq(s[i]) \o TokSeqs(s, i + 1)

\* the order that Ord, Eq and Hash see: variants first, keys of tokens, then children
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE Cmp(_, _), CmpSeq(_, _, _)
Cmp(a, b) == IF a.v # b.v THEN Sign(a.v - b.v)
             ELSE IF a.y # b.y THEN Sign(a.y - b.y)
             ELSE CmpSeq(a.k, b.k, 1)
CmpSeq(s, r, i) == IF i > Len(s) THEN (IF i > Len(r) THEN 0 ELSE -1)
                   ELSE IF i > Len(r) THEN 1
                   ELSE LET d == Cmp(s[i], r[i]) IN IF d # 0 THEN d ELSE CmpSeq(s, r, i + 1)

KeyOf(c, e) == IF c \in MapC THEN e.k[1] ELSE e

\* a total order on trees, refining Cmp; only used to compare bags
RECURSIVE TCmp(_, _), TCmpSeq(_, _, _)
TCmp(a, b) == LET d == Cmp(a, b) IN
              IF d # 0 THEN d ELSE IF a.t # b.t THEN Sign(a.t - b.t) ELSE IF a.g # b.g THEN Sign(a.g - b.g)
              ELSE TCmpSeq(a.k, b.k, 1)
TCmpSeq(s, r, i) == IF i > Len(s) THEN (IF i > Len(r) THEN 0 ELSE -1)
                    ELSE IF i > Len(r) THEN 1
                    ELSE LET d == TCmp(s[i], r[i]) IN IF d # 0 THEN d ELSE TCmpSeq(s, r, i + 1)

\* canonical form: bags sorted, so that equal values are equal trees
RECURSIVE Canon(_)
Canon(v) ==
  LET ks == [i \in DOMAIN v.k |-> Canon(v.k[i])]
  IN  [v EXCEPT !.k = IF v.c \in BagC THEN SortSeq(ks, LAMBDA a, b : TCmp(a, b) < 0) ELSE ks]

SameValue(a, b) == Canon(a) = Canon(b)

\* a well-formed value: what the containers promise about themselves
RECURSIVE WellFormed(_)
WellFormed(v) ==
  /\ \A i \in DOMAIN v.k : WellFormed(v.k[i])
  /\ v.c \in BSetC \cup BMapC =>
       \A i \in 1..(Len(v.k) - 1) : Cmp(KeyOf(v.c, v.k[i]), KeyOf(v.c, v.k[i + 1])) < 0
  /\ v.c \in HSetC \cup HMapC =>
       \A i, j \in DOMAIN v.k : i # j => Cmp(KeyOf(v.c, v.k[i]), KeyOf(v.c, v.k[j])) # 0
  /\ v.c = "BinaryHeap" =>      \* as observed by popping
       \A i \in 1..(Len(v.k) - 1) : Cmp(v.k[i], v.k[i + 1]) >= 0
=============================================================================
