------------------------------- MODULE Derive --------------------------------
(***************************************************************************)
(* What the derive macros do with a declaration: read the options, select  *)
(* the parameters, check the items, map the type of every field for every  *)
(* selected parameter.  The outcome is either the set of parameters that   *)
(* get an implementation, or a set of errors, each with its place.         *)
(*                                                                         *)
(* A declaration is [kind, lts, ps, attrs, vs]:                            *)
(*   kind  "struct", "enum" or "union"                                     *)
(*   lts   how many lifetime parameters                                    *)
(*   ps    the other parameters in order, "ty" or "const"                  *)
(*   attrs the #[funcmap] attributes: [form, args], args: [a, v, ps]       *)
(*   vs    variants (one for a struct): [at, fs], fs: [at, ty],            *)
(*         at = number of misplaced #[funcmap] attributes                  *)
(*   derives  which traits are derived: 0, 1 or both                       *)
(*   drop  does the type itself have a destructor?                         *)
(*                                                                         *)
(* A type is [c, a, n] (constructor, arguments, number), as written in the *)
(* declaration:                                                            *)
(*   V    parameter number n          L    one of the independent types    *)
(*   K    a const argument            LT   a lifetime argument             *)
(*   Mac  an invocation of a macro in type position                        *)
(*   Frag a type that a macro_rules macro was given as a fragment          *)
(*   Arr, Paren, Tup, the generic types, and everything unsupported        *)
(*                                                                         *)
(* Places are sequences: <<variant, field>> \o path for types,             *)
(* <<-1, attribute, argument, value>> for options, <<-2>> for the keyword, *)
(* <<-3>> for the parameter list, <<-4, variant, number>> and              *)
(* <<-5, variant, field, number>> for misplaced attributes.  All 0-based.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

N(c, a, n) == [c |-> c, a |-> a, n |-> n]

GenericC == {"Option", "Vec", "Box", "Result", "ControlFlow", "BTreeMap", "HashMap", "Phantom", "VecDeque", "Cell", "Poll",
             "Gen1", "Gen2", "GenD"}
\* c -> what the error says
UnsupOf(c) ==
  CASE c \in {"Ref", "RefMut"} -> "reference"
    [] c \in {"PtrC", "PtrM"} -> "pointer"
    [] c = "Slice" -> "slice"
    [] c \in {"DynT", "DynFn"} -> "trait object"
    [] c \in {"FnArg", "FnRet"} -> "function"
    [] c \in {"AssocV", "AssocQ", "AssocI", "AssocP"} -> "associated"
    [] c = "Mac" -> "macro"
UnsupC == {"Ref", "RefMut", "PtrC", "PtrM", "Slice", "DynT", "DynFn", "FnArg", "FnRet", "AssocV", "AssocQ", "AssocI", "AssocP"}

RECURSIVE Dep(_, _)
Dep(ty, p) == \/ ty.c = "V" /\ ty.n = p
              \/ ty.c # "Mac" /\ \E i \in DOMAIN ty.a : Dep(ty.a[i], p)

Err(loc, k) == [loc |-> loc, k |-> k]

-----------------------------------------------------------------------------
(* Options *)
GoodCrates == {1, 2, 3, 4}
\* parameter references: [k, n]: k in "ty" (n: number in ps; also for consts), "lt", "unknown", "bad"
ArgOk(g) == \/ g.a = "crate" /\ g.v \in GoodCrates
            \/ g.a = "params" /\ g.ps # <<>> /\ \A i \in DOMAIN g.ps : g.ps[i].k # "bad"
AttrOk(at) == at.form = "list" /\ at.args # <<>> /\ \A i \in DOMAIN at.args : ArgOk(at.args[i])

\* all [loc, x] of the well-formed attributes, in order: crate paths and parameters
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
CratesOf(it) == Cat([i \in 1..Len(it.attrs) |->
   IF ~AttrOk(it.attrs[i]) THEN <<>> ELSE
   Cat([j \in 1..Len(it.attrs[i].args) |-> LET g == it.attrs[i].args[j] IN
        IF g.a = "crate" THEN <<[loc |-> <<-1, i - 1, j - 1, 0>>, v |-> g.v]>> ELSE <<>>])])
ParamsOf(it) == Cat([i \in 1..Len(it.attrs) |->
   IF ~AttrOk(it.attrs[i]) THEN <<>> ELSE
   Cat([j \in 1..Len(it.attrs[i].args) |-> LET g == it.attrs[i].args[j] IN
        IF g.a # "params" THEN <<>> ELSE [x \in 1..Len(g.ps) |-> [loc |-> <<-1, i - 1, j - 1, x - 1>>, r |-> g.ps[x]]]])])

OptErrs(it) ==
  LET cs == CratesOf(it) ps == ParamsOf(it) IN
  {Err(<<-1, i - 1>>, "malformed") : i \in {i \in DOMAIN it.attrs : ~AttrOk(it.attrs[i])}}
  \cup {Err(cs[i].loc, "duplicate crate") : i \in 2..Len(cs)}
  \cup {Err(ps[i].loc, "duplicate parameter") : i \in {i \in DOMAIN ps : \E j \in 1..(i - 1) : ps[j].r = ps[i].r}}

\* parameters that are selected: the ones that are named, or else all of them
Named(it) == LET ps == ParamsOf(it) IN {ps[i].r.n : i \in {i \in DOMAIN ps : ps[i].r.k = "ty" /\ it.ps[ps[i].r.n + 1] = "ty"}}
TyPs(it) == {n \in 0..(Len(it.ps) - 1) : it.ps[n + 1] = "ty"}
Selected(it) == IF Named(it) = {} THEN TyPs(it) ELSE Named(it)
CratePath(it) == LET cs == CratesOf(it) IN IF cs = <<>> THEN 1 ELSE cs[1].v

SelErrs(it) ==
  LET ps == ParamsOf(it) IN
  UNION {LET r == ps[i].r IN
         IF r.k = "unknown" THEN {Err(ps[i].loc, "unknown parameter")}
         ELSE IF r.k = "lt" THEN {Err(ps[i].loc, "lifetime parameter")}
         ELSE IF it.ps[r.n + 1] = "const" THEN {Err(ps[i].loc, "const parameter")} ELSE {} : i \in DOMAIN ps}
  \cup (IF TyPs(it) = {} THEN {Err(<<-3>>, "no type parameter")} ELSE {})

ItemErrs(it) ==
  (IF it.kind = "union" THEN {Err(<<-2>>, "union")}
   ELSE UNION {LET v == it.vs[i] IN
          (IF it.kind = "enum" THEN {Err(<<-4, i - 1, x - 1>>, "variant attribute") : x \in 1..v.at} ELSE {})
          \cup UNION {{Err(<<-5, i - 1, j - 1, x - 1>>, "field attribute") : x \in 1..v.fs[j].at} : j \in DOMAIN v.fs}
        : i \in DOMAIN it.vs})

-----------------------------------------------------------------------------
(* Types: the first part that cannot be mapped, reading from the left *)
Kids(ty) == [i \in 1..Len(ty.a) |-> i]
DepKids(ty, p) == SelectSeq(Kids(ty), LAMBDA i : Dep(ty.a[i], p))

RECURSIVE FirstErr(_, _, _), FirstOf(_, _, _, _)
FirstErr(ty, p, loc) ==
  IF ty.c = "Mac" THEN {Err(loc, "macro")}
  ELSE IF ~Dep(ty, p) THEN {}
  ELSE CASE ty.c = "V" -> {}
         [] ty.c \in {"Arr", "Paren", "Frag"} -> FirstErr(ty.a[1], p, Append(loc, 0))
         [] ty.c = "Tup" -> FirstOf(ty, Kids(ty), p, loc)
         [] ty.c \in GenericC -> FirstOf(ty, DepKids(ty, p), p, loc)
         [] ty.c \in UnsupC -> {Err(loc, UnsupOf(ty.c))}
FirstOf(ty, is, p, loc) ==
  IF is = <<>> THEN {}
  ELSE LET e == FirstErr(ty.a[is[1]], p, Append(loc, is[1] - 1)) IN IF e # {} THEN e ELSE FirstOf(ty, Tail(is), p, loc)

MapErrs(it, ps) ==
  UNION {UNION {UNION {FirstErr(it.vs[i].fs[j].ty, p, <<i - 1, j - 1>>) : j \in DOMAIN it.vs[i].fs} : i \in DOMAIN it.vs} : p \in ps}

(* The declarative outcome *)
Errors(it) ==
  IF OptErrs(it) # {} THEN OptErrs(it)
  ELSE LET e == SelErrs(it) \cup ItemErrs(it) IN IF e # {} THEN e ELSE MapErrs(it, Selected(it))
\* errors that would be true as well
Tolerated(it) == OptErrs(it) \cup SelErrs(it) \cup ItemErrs(it) \cup (IF it.kind = "union" THEN {} ELSE MapErrs(it, TyPs(it)))
\* A derived implementation moves the fields out of the value, so each derive asserts that the type has no destructor.  Only the
\* destructor of the type itself counts: neither those of the fields nor bounds `T: Drop' matter, and it counts whatever the fields are.
Traits(it) == CASE it.derives = 0 -> {"FuncMap"} [] it.derives = 1 -> {"TryFuncMap"} [] OTHER -> {"FuncMap", "TryFuncMap"}
Conflicts(it) == IF it.drop /\ Errors(it) = {} THEN Traits(it) ELSE {}
Outcome(it) == [errs |-> Errors(it), conf |-> Conflicts(it), acc |-> IF Errors(it) = {} /\ ~it.drop THEN Selected(it) ELSE {}]

-----------------------------------------------------------------------------
(* The pipeline as a machine: m = [ph, ai, errs, cr, ps, sel, roots, stk, conf, todo] *)
StartM == [ph |-> "opts", ai |-> 1, errs |-> {}, cr |-> 0, ps |-> <<>>, sel |-> {}, roots |-> <<>>, stk |-> <<>>, conf |-> {}, todo |-> {}]

\* reads one attribute: the state after its arguments
RECURSIVE ReadArgs(_, _, _, _, _)
ReadArgs(m, at, i, j, x) ==
  IF j > Len(at.args) THEN m
  ELSE LET g == at.args[j] IN
  IF g.a = "crate"
  THEN ReadArgs(IF m.cr = 0 THEN [m EXCEPT !.cr = g.v] ELSE [m EXCEPT !.errs = @ \cup {Err(<<-1, i - 1, j - 1, 0>>, "duplicate crate")}],
                at, i, j + 1, 1)
  ELSE IF x > Len(g.ps) THEN ReadArgs(m, at, i, j + 1, 1)
  ELSE LET loc == <<-1, i - 1, j - 1, x - 1>>
           dup == \E y \in DOMAIN m.ps : m.ps[y].r = g.ps[x]
       IN  ReadArgs(IF dup THEN [m EXCEPT !.errs = @ \cup {Err(loc, "duplicate parameter")}]
                    ELSE [m EXCEPT !.ps = Append(@, [loc |-> loc, r |-> g.ps[x]])], at, i, j, x + 1)

StepOpts(m, it) ==
  IF m.ai > Len(it.attrs) THEN [m EXCEPT !.ph = IF m.errs = {} THEN "sel" ELSE "done", !.cr = IF m.cr = 0 THEN 1 ELSE m.cr]
  ELSE LET at == it.attrs[m.ai] IN
       [(IF AttrOk(at) THEN ReadArgs(m, at, m.ai, 1, 1) ELSE [m EXCEPT !.errs = @ \cup {Err(<<-1, m.ai - 1>>, "malformed")}])
        EXCEPT !.ai = @ + 1]

StepSel(m, it) ==
  LET one(x) == LET r == x.r IN
        CASE r.k = "unknown" -> {Err(x.loc, "unknown parameter")}
          [] r.k = "lt" -> {Err(x.loc, "lifetime parameter")}
          [] r.k = "ty" -> IF it.ps[r.n + 1] = "const" THEN {Err(x.loc, "const parameter")} ELSE {}
      named == {m.ps[y].r.n : y \in {y \in DOMAIN m.ps : m.ps[y].r.k = "ty" /\ one(m.ps[y]) = {}}}
      all == {n \in 0..(Len(it.ps) - 1) : it.ps[n + 1] = "ty"}
      sel == IF named = {} THEN all ELSE named
  IN  [m EXCEPT !.ph = "items", !.sel = sel, !.ai = 1,
                !.errs = UNION {one(m.ps[y]) : y \in DOMAIN m.ps} \cup (IF sel = {} THEN {Err(<<-3>>, "no type parameter")} ELSE {})]

RootsOf(it, sel) ==
  LET SeqOf(S) == SelectSeq([n \in 1..Len(it.ps) |-> n - 1], LAMBDA n : n \in S)
      ps == SeqOf(sel)
  IN Cat([q \in 1..Len(ps) |-> Cat([i \in 1..Len(it.vs) |-> [j \in 1..Len(it.vs[i].fs) |->
            [p |-> ps[q], loc |-> <<i - 1, j - 1>>, ty |-> it.vs[i].fs[j].ty]]])])

\* one variant at a time
StepItems(m, it) ==
  IF it.kind = "union" THEN [m EXCEPT !.errs = @ \cup {Err(<<-2>>, "union")}, !.ph = "done"]
  ELSE IF m.ai > Len(it.vs) THEN IF m.errs = {} THEN [m EXCEPT !.ph = "map", !.roots = RootsOf(it, m.sel)] ELSE [m EXCEPT !.ph = "done"]
  ELSE LET i == m.ai v == it.vs[i] IN
       [m EXCEPT !.ai = @ + 1,
                 !.errs = @ \cup (IF it.kind = "enum" THEN {Err(<<-4, i - 1, x - 1>>, "variant attribute") : x \in 1..v.at} ELSE {})
                            \cup UNION {{Err(<<-5, i - 1, j - 1, x - 1>>, "field attribute") : x \in 1..v.fs[j].at} : j \in DOMAIN v.fs}]

\* visits one node of one type
StepMap(m, it) ==
  IF m.stk = <<>> THEN IF m.roots = <<>> THEN IF m.errs = {} THEN [m EXCEPT !.ph = "mark", !.todo = Traits(it)] ELSE [m EXCEPT !.ph = "done"]
                       ELSE [m EXCEPT !.stk = <<m.roots[1]>>, !.roots = Tail(m.roots)]
  ELSE LET x == m.stk[Len(m.stk)]
           below == SubSeq(m.stk, 1, Len(m.stk) - 1)
           kid(i) == [p |-> x.p, loc |-> Append(x.loc, i - 1), ty |-> x.ty.a[i]]
           push(is) == below \o [y \in 1..Len(is) |-> kid(is[Len(is) + 1 - y])]
           fail(k) == [m EXCEPT !.errs = @ \cup {Err(x.loc, k)}, !.stk = <<>>]
       IN  IF x.ty.c = "Mac" THEN fail("macro")
           ELSE IF ~Dep(x.ty, x.p) \/ x.ty.c = "V" THEN [m EXCEPT !.stk = below]
           ELSE IF x.ty.c \in UnsupC THEN fail(UnsupOf(x.ty.c))
           ELSE IF x.ty.c \in GenericC THEN [m EXCEPT !.stk = push(DepKids(x.ty, x.p))]
           ELSE [m EXCEPT !.stk = push(Kids(x.ty))]

\* the assertion of one derive
StepMark(m, it) ==
  IF m.todo = {} THEN [m EXCEPT !.ph = "done"]
  ELSE LET t == CHOOSE t \in m.todo : TRUE IN [m EXCEPT !.todo = @ \ {t}, !.conf = IF it.drop THEN @ \cup {t} ELSE @]

Step(m, it) == CASE m.ph = "opts" -> StepOpts(m, it) [] m.ph = "sel" -> StepSel(m, it)
                 [] m.ph = "items" -> StepItems(m, it) [] m.ph = "map" -> StepMap(m, it) [] m.ph = "mark" -> StepMark(m, it)
Accepted(m) == IF m.errs = {} /\ m.conf = {} THEN m.sel ELSE {}
=============================================================================
