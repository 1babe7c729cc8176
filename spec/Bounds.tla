------------------------------- MODULE Bounds --------------------------------
(***************************************************************************)
(* When is an implementation available, and what does it produce?          *)
(*                                                                         *)
(* A declaration is [lt, ps, preds, enum, vs, sel]:                        *)
(*   ps     parameters: [k, relaxed], k = "ty" or "const"                  *)
(*   preds  the declared bounds, inline or in the where clause             *)
(*   vs     variants, sequences of field types                             *)
(*   lt     is there a lifetime parameter? (questions are about 'static, so *)
(*          bounds between lifetimes, outs, always hold)                   *)
(*   sel    the parameters with implementations (numbers, 0-based)         *)
(* Types are [c, a, n] as in FMTypes; E is an element type, Ptr a use that *)
(* cannot be mapped, User declaration number n.                            *)
(*                                                                         *)
(* Predicates are [k, ty, t, u]:                                           *)
(*   tr    ty : the trait t                                                *)
(*   trp   ty : TrP<u>, where u is an element, Vec<element>, a trait       *)
(*         object about an element, or a reference of any lifetime to one  *)
(*   hrp   ty : for<'x> RelL<'x, u>                                        *)
(*   fnp   ty : Fn(u) -> u8                                                *)
(*   as    ty : Tr<As = u>                                                 *)
(*   astr  <ty as Tr>::As : t                                              *)
(*   ref   for<'x> &'x ty : t                                              *)
(*   life  ty : 'static  or  ty : 'a (the lifetime of the declaration)     *)
(*   self  Self : a trait implemented where ty : t                         *)
(*   sarg  ty : a trait<Self> implemented where ty : t                     *)
(*                                                                         *)
(* The facts about the element types are given: Facts is [e, vec, arr, sl, *)
(* tup, rf, trp, trpv, trpr, trpd, hrp, as], sequences over the elements   *)
(* (0-based numbers + 1).  Fn is the type of functions from an element.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES Defs, Facts

N(c, a, n) == [c |-> c, a |-> a, n |-> n]
Str == 100
U8s == 101

Set(q) == {q[i] : i \in DOMAIN q}

RECURSIVE Subst(_, _)
Subst(ty, args) ==
  CASE ty.c = "V" -> args[ty.n + 1]
    [] ty.c = "K" -> IF ty.n >= 0 THEN ty ELSE args[0 - ty.n]
    [] ty.c = "Arr" -> N("Arr", <<Subst(ty.a[1], args)>>, IF ty.n >= 0 THEN ty.n ELSE args[0 - ty.n].n)
    [] OTHER -> [ty EXCEPT !.a = [i \in DOMAIN ty.a |-> Subst(ty.a[i], args)]]

RECURSIVE Dep(_, _)
Dep(ty, p) == (ty.c = "V" /\ ty.n = p) \/ \E i \in DOMAIN ty.a : Dep(ty.a[i], p)

-----------------------------------------------------------------------------
(* Facts about ground types *)
Elem(ty) == ty.c = "E" /\ ty.n < 100
RECURSIVE HasTr(_, _)
HasTr(ty, t) ==
  LET all == \A i \in DOMAIN ty.a : HasTr(ty.a[i], t)
      x == ty.a[1]
  IN
  CASE ty.c = "E" -> IF ty.n >= 100 THEN t \in {"ord", "hash"} ELSE t \in Set(Facts.e[ty.n + 1])
    [] ty.c = "Fn" -> t \in {"ord", "hash", "copy"}
    [] ty.c = "L" -> (t \in {"ord", "hash"} \/ (t = "copy" /\ ty.n # 1))
    [] t = "ord" -> (ty.c = "Phantom" \/ (ty.c \in {"Option", "Vec", "Box", "Tup", "Arr", "VecDeque", "LinkedList", "Result", "Poll", "BTreeSet", "BTreeMap"} /\ all))
    [] t = "hash" -> (ty.c = "Phantom" \/ (ty.c \in {"Option", "Vec", "Box", "Tup", "Arr", "VecDeque", "LinkedList", "Result", "Poll", "ControlFlow", "Bound", "BTreeSet", "BTreeMap"} /\ all))
    [] t = "copy" -> (ty.c = "Phantom" \/ (ty.c \in {"Option", "Tup", "Arr", "Result", "Poll", "ControlFlow", "Bound"} /\ all))
    [] ty.c = "Vec" /\ Elem(x) -> t \in Set(Facts.vec[x.n + 1])
    [] ty.c = "Arr" /\ Elem(x) /\ ty.n \in {2, 3} -> t \in Set(Facts.arr[x.n + 1])
    [] ty.c = "Slice" /\ Elem(x) -> t \in Set(Facts.sl[x.n + 1])
    [] ty.c = "Tup" /\ Len(ty.a) = 2 /\ Elem(x) /\ Elem(ty.a[2]) -> ty.a[2].n \in Set(Facts.tup[x.n + 1])
    [] OTHER -> FALSE

\* of one element to another
Related(R, ty, u) == Elem(ty) /\ Elem(u) /\ u.n \in Set(R[ty.n + 1])
HasTrP(ty, u) == CASE u.c = "E" -> Related(Facts.trp, ty, u)
                   [] u.c = "Vec" -> Related(Facts.trpv, ty, u.a[1])
                   [] u.c = "Ref" -> Related(Facts.trpr, ty, u.a[1])
                   [] u.c = "Dyn" -> Related(Facts.trpd, ty, u.a[1])
                   [] OTHER -> FALSE
AsOf(ty) == IF ty.c = "E" /\ ty.n < 100 /\ "tr" \in Set(Facts.e[ty.n + 1]) THEN <<N("E", <<>>, Facts.as[ty.n + 1])>> ELSE <<>>

HoldsP(p) ==      \* p is ground
  CASE p.k \in {"tr", "self", "sarg"} -> HasTr(p.ty, p.t)
    [] p.k = "trp" -> HasTrP(p.ty, p.u)
    [] p.k = "hrp" -> Related(Facts.hrp, p.ty, p.u)
    [] p.k = "fnp" -> p.ty.c = "Fn" /\ p.ty.a[1] = p.u
    [] p.k = "as" -> AsOf(p.ty) = <<p.u>>
    [] p.k = "astr" -> AsOf(p.ty) # <<>> /\ HasTr(AsOf(p.ty)[1], p.t)
    [] p.k = "ref" -> p.ty.c = "E" /\ p.ty.n < 100 /\ p.t \in Set(Facts.rf[p.ty.n + 1])
    [] p.k = "life" -> TRUE
SubstP(p, args) == [p EXCEPT !.ty = Subst(p.ty, args), !.u = Subst(p.u, args)]

RECURSIVE Sized(_)
Sized(ty) == IF ty.c = "E" THEN ty.n < 100
             ELSE IF ty.c # "User" THEN TRUE
             ELSE LET d == Defs[ty.n] fs == d.vs[1] IN
                  d.enum \/ fs = <<>> \/ Sized(Subst(fs[Len(fs)], ty.a))

WFargs(d, args) == /\ \A i \in DOMAIN d.preds : HoldsP(SubstP(d.preds[i], args))
                   /\ \A i \in DOMAIN d.ps : d.ps[i].k = "ty" /\ ~d.ps[i].relaxed => Sized(args[i])

-----------------------------------------------------------------------------
(* The types of the library: which parameters, and what the target needs *)
LibArity == [Option |-> 1, Vec |-> 1, Box |-> 1, VecDeque |-> 1, LinkedList |-> 1, BTreeSet |-> 1, HashSet |-> 2, BinaryHeap |-> 1,
  BTreeMap |-> 2, HashMap |-> 3, Result |-> 2, ControlFlow |-> 2, Cell |-> 1, RefCell |-> 1, UnsafeCell |-> 1, Poll |-> 1, Bound |-> 1,
  Range |-> 1, RangeFrom |-> 1, RangeTo |-> 1, RangeInclusive |-> 1, RangeToInclusive |-> 1, Phantom |-> 1, Arr |-> 1,
  OptIter |-> 1, ResIter |-> 1, VecIter |-> 1, VecDequeIter |-> 1, LinkedListIter |-> 1, BTreeSetIter |-> 1, HashSetIter |-> 1,
  BinaryHeapIter |-> 1, BTreeMapIter |-> 2, HashMapIter |-> 2]
LibC == DOMAIN LibArity
Mappable(c) == CASE c = "HashMap" -> {1, 2} [] c = "HashSet" -> {1} [] OTHER -> 1..LibArity[c]
\* traits of the new type ty (with the mapped parameter replaced)
LibReq(c) == CASE c \in {"BTreeSet", "BTreeSetIter", "BinaryHeap", "BinaryHeapIter", "BTreeMap", "BTreeMapIter"} -> {"ord"}
               [] c \in {"HashSet", "HashSetIter", "HashMap", "HashMapIter"} -> {"hash"}
               [] OTHER -> {}

-----------------------------------------------------------------------------
(* Obligations *)
OTr(ty, t) == [k |-> "tr", ty |-> ty, t |-> t, i |-> 0, u |-> ty, v |-> ty]
OSized(ty) == [k |-> "sized", ty |-> ty, t |-> "", i |-> 0, u |-> ty, v |-> ty]
OMap(ty, i, a, b) == [k |-> "map", ty |-> ty, t |-> "", i |-> i, u |-> a, v |-> b]
OPred(p) == [k |-> "pred", ty |-> p.ty, t |-> p.k, i |-> 0, u |-> p.u, v |-> p]

\* what mapping a field of type ty requires, when parameter p goes from a to b and the others are args
RECURSIVE FieldReq(_, _, _, _, _), ArgsReq(_, _, _, _, _, _, _)
FieldReq(ty, p, args, a, b) ==
  LET A == [args EXCEPT ![p + 1] = a] IN
  IF ~Dep(ty, p) THEN <<OSized(Subst(ty, A))>>
  ELSE CASE ty.c = "V" -> <<>>
         [] ty.c \in {"Tup"} -> ArgsReq(ty, 1, p, args, a, b, FALSE)
         [] ty.c = "Paren" -> FieldReq(ty.a[1], p, args, a, b)
         [] OTHER -> ArgsReq(ty, 1, p, args, a, b, TRUE)
ArgsReq(ty, i, p, args, a, b, con) ==
  IF i > Len(ty.a) THEN <<>>
  ELSE LET A == [args EXCEPT ![p + 1] = a]
           B == [args EXCEPT ![p + 1] = b]
           cur == N(ty.c, [j \in 1..Len(ty.a) |-> Subst(ty.a[j], IF j < i THEN B ELSE A)], Subst(ty, A).n)
           rest == ArgsReq(ty, i + 1, p, args, a, b, con)
       IN  IF ~con THEN FieldReq(ty.a[i], p, args, a, b) \o rest
           ELSE IF ~Dep(ty.a[i], p) THEN rest
           ELSE <<OMap(cur, i, Subst(ty.a[i], A), Subst(ty.a[i], B))>> \o FieldReq(ty.a[i], p, args, a, b) \o rest

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))

Yes == [st |-> "yes", os |-> <<>>]
No == [st |-> "no", os |-> <<>>]
Needs(os) == [st |-> "needs", os |-> os]
Bool(x) == IF x THEN Yes ELSE No

\* one step of the solver
Solve(o) ==
  CASE o.k = "tr" -> Bool(HasTr(o.ty, o.t))
    [] o.k = "sized" -> Bool(Sized(o.ty))
    [] o.k = "pred" -> Bool(HoldsP(o.v))
    [] o.k = "map" ->
         IF o.i \notin 1..Len(o.ty.a) THEN No
         ELSE IF o.ty.a[o.i] # o.u THEN No
         ELSE IF o.ty.c = "User" THEN
           LET d == Defs[o.ty.n] p == o.i - 1 args == o.ty.a
               B == [args EXCEPT ![o.i] = o.v]
           IN IF p \notin Set(d.sel) THEN No
              ELSE Needs([j \in DOMAIN d.preds |-> OPred(SubstP(d.preds[j], B))]
                         \o <<OSized(o.u), OSized(o.v)>>
                         \o Cat([x \in DOMAIN d.vs |-> Cat([y \in DOMAIN d.vs[x] |-> FieldReq(d.vs[x][y], p, args, o.u, o.v)])]))
         ELSE IF o.ty.c \in LibC THEN
           IF o.i \notin Mappable(o.ty.c) THEN No
           ELSE LET new == [o.ty EXCEPT !.a[o.i] = o.v] \* keys of the result
                IN Needs([j \in 1..Cardinality(LibReq(o.ty.c)) |-> OTr(new.a[1], CHOOSE t \in LibReq(o.ty.c) : TRUE)]
                         \o <<OSized(o.u), OSized(o.v)>> \o <<>>)
         ELSE No

\* the declarative answer
RECURSIVE Holds(_)
Holds(o) == LET s == Solve(o) IN s.st = "yes" \/ (s.st = "needs" /\ \A j \in DOMAIN s.os : Holds(s.os[j]))

\* the result type, if available
ResultOf(o) == [o.ty EXCEPT !.a[o.i] = o.v]

-----------------------------------------------------------------------------
(* The solver as a machine: s = [st, todo] *)
Start(o) == [st |-> "run", todo |-> <<o>>]
StepS(s) ==
  IF s.todo = <<>> THEN [s EXCEPT !.st = "yes"]
  ELSE LET r == Solve(s.todo[1]) IN
       CASE r.st = "no" -> [st |-> "no", todo |-> <<>>]
         [] r.st = "yes" -> [s EXCEPT !.todo = Tail(@)]
         [] r.st = "needs" -> [s EXCEPT !.todo = r.os \o Tail(@)]
=============================================================================
