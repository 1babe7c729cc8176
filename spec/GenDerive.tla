------------------------------ MODULE GenDerive -------------------------------
(***************************************************************************)
(* Generates declarations and runs the derive machine on each of them; the *)
(* declaration is emitted with the outcome that the machine reaches.       *)
(*                                                                         *)
(* MODE "types":   every kind of leaf in every context of depth DEPTH      *)
(*      "random":  NITEMS drawn declarations                               *)
(* MIX says what the drawn declarations are about, see Mixes.              *)
(***************************************************************************)
EXTENDS Derive, Rnd, Json, IOUtils

NItems == atoi(IOEnv.NITEMS)
Seed   == atoi(IOEnv.GENSEED)
Mode   == IOEnv.MODE
Mix    == IOEnv.MIX
Depth  == atoi(IOEnv.DEPTH)

VARIABLES i, it, m
vars == <<i, it, m>>

V(n) == N("V", <<>>, n)
L(n) == N("L", <<>>, n)
LCount == IF Mix = "c14" THEN 12 ELSE 10      \* the last two have destructors
LT == N("LT", <<>>, 0)
Kc(n) == N("K", <<>>, n)
Mac == N("Mac", <<>>, 0)
One(c, x) == N(c, <<x>>, 0)

\* an unsupported use of type x; s selects which; lt: is there a lifetime parameter?
UnsCount == 13
UnsUse(u, x, lt) ==
  CASE u = 0 -> IF lt THEN One("Ref", x) ELSE One("PtrC", x)
    [] u = 1 -> IF lt THEN One("RefMut", x) ELSE One("PtrM", x)
    [] u = 2 -> One("PtrC", x)
    [] u = 3 -> One("PtrM", x)
    [] u = 4 -> One("Box", One("Slice", x))
    [] u = 5 -> One("Box", One("DynT", x))
    [] u = 6 -> One("Box", One("DynFn", x))
    [] u = 7 -> One("FnArg", x)
    [] u = 8 -> One("FnRet", x)
    [] u = 9 -> IF x.c = "V" THEN One("AssocV", x) ELSE One("AssocI", One("Vec", x))
    [] u = 10 -> IF x.c = "V" THEN One("AssocQ", x) ELSE One("AssocP", x)
    [] u = 11 -> One("AssocI", One("Vec", x))
    [] u = 12 -> One("AssocP", x)

\* a context around x
CtxCount == 21
Ctx(u, x, o) ==
  CASE u = 0 -> One("Option", x)
    [] u = 1 -> One("Vec", x)
    [] u = 2 -> One("Box", x)
    [] u = 3 -> N("Result", <<x, o>>, 0)
    [] u = 4 -> N("Result", <<o, x>>, 0)
    [] u = 5 -> N("Tup", <<x>>, 0)
    [] u = 6 -> N("Tup", <<x, o>>, 0)
    [] u = 7 -> N("Tup", <<o, x>>, 0)
    [] u = 8 -> N("Tup", <<o, x, o>>, 0)
    [] u = 9 -> N("Arr", <<x>>, 2)
    [] u = 10 -> One("Paren", x)
    [] u = 11 -> One("Phantom", x)
    [] u = 12 -> One("Gen1", x)
    [] u = 13 -> N("Gen2", <<LT, x, Kc(2), o>>, 0)
    [] u = 14 -> N("Gen2", <<LT, o, Kc(2), x>>, 0)
    [] u = 15 -> N("BTreeMap", <<L(0), x>>, 0)
    [] u = 16 -> N("ControlFlow", <<x, o>>, 0)
    [] u = 17 -> One("Cell", x)
    [] u = 18 -> One("VecDeque", x)
    [] u = 19 -> N("HashMap", <<L(1), x>>, 0)
    [] u = 20 -> One("Frag", x)

-----------------------------------------------------------------------------
(* Random types: `sel' may be used in supported ways, `uns' in any way *)
RECURSIVE GenTy(_, _, _, _, _, _)
GenTy(s, d, sel, uns, lt, cps) ==
  LET r == Below(s, 100)
      in(x) == GenTy(Sub(s, 10 + x), d - 1, sel, uns, lt, cps)
      k(x) == IF cps # <<>> /\ Chance(Sub(s, 30 + x), 1, 2) THEN Kc(0 - 1 - From(Sub(s, 40 + x), cps)) ELSE Kc(Below(Sub(s, 40 + x), 4))
      key == IF sel # <<>> /\ Chance(Sub(s, 50), 1, 2) THEN V(From(Sub(s, 51), sel)) ELSE L(Below(Sub(s, 51), 2))
  IN
  IF d = 0 \/ r < 15 THEN
     (IF sel # <<>> /\ r % 3 # 0 THEN V(From(Sub(s, 1), sel)) ELSE L(Below(Sub(s, 2), LCount)))
  ELSE IF r < 30 /\ uns # <<>> THEN
     LET p == V(From(Sub(s, 1), uns)) IN
     UnsUse(Below(Sub(s, 2), UnsCount), IF Chance(Sub(s, 3), 1, 3) THEN Ctx(Below(Sub(s, 4), CtxCount - 1), p, p) ELSE p, lt)
  ELSE IF r < 55 THEN One(From(Sub(s, 3), <<"Option", "Vec", "Box", "Phantom", "Cell", "VecDeque", "Poll", "Gen1", "Option", "Vec">> \o (IF Mix = "c14" THEN <<"GenD", "GenD">> ELSE <<>>)), in(1))
  ELSE IF r < 65 THEN N(From(Sub(s, 3), <<"Result", "ControlFlow">>), <<in(1), in(2)>>, 0)
  ELSE IF r < 72 THEN N(From(Sub(s, 3), <<"BTreeMap", "HashMap">>), <<key, in(1)>>, 0)
  ELSE IF r < 86 THEN N("Tup", [x \in 1..From(Sub(s, 3), <<0, 1, 2, 2, 3, 3, 4>>) |-> in(x)], 0)
  ELSE IF r < 91 THEN N("Arr", <<in(1)>>, k(0).n)
  ELSE IF r < 93 THEN One("Paren", in(1))
  ELSE IF r < 96 THEN One("Frag", in(1))
  ELSE N("Gen2", <<LT, in(1), k(1), in(2)>>, 0)

\* sprinkles macros: into arguments of generic types (harmless if independent) and anywhere else
RECURSIVE WithMac(_, _, _)
WithMac(s, ty, anywhere) ==
  IF anywhere /\ ty.c \in {"V", "L"} /\ Chance(Sub(s, 1), 1, 5) THEN Mac
  ELSE IF ty.c \in {"Option", "Vec", "Result", "BTreeMap", "Box", "Gen1"} /\ Len(ty.a) > 0
          /\ ty.a[Len(ty.a)].c = "L" /\ Chance(Sub(s, 2), 1, 2) THEN [ty EXCEPT !.a[Len(ty.a)] = Mac]
  ELSE IF ty.c \in {"BTreeMap", "HashMap"} THEN [ty EXCEPT !.a[2] = WithMac(Sub(s, 5), ty.a[2], anywhere)]
  ELSE IF ty.c \in UnsupC THEN ty
  ELSE [ty EXCEPT !.a = [x \in DOMAIN ty.a |-> WithMac(Sub(s, 10 + x), ty.a[x], anywhere)]]

RECURSIVE ParamsIn(_)
ParamsIn(ty) == IF ty.c = "V" THEN {ty.n} ELSE UNION {ParamsIn(ty.a[x]) : x \in DOMAIN ty.a}
RECURSIVE UsesLt(_)
UsesLt(ty) == ty.c \in {"Ref", "RefMut"} \/ \E x \in DOMAIN ty.a : UsesLt(ty.a[x])

-----------------------------------------------------------------------------
(* Options *)
At(form, args) == [form |-> form, args |-> args]
ACrate(v) == [a |-> "crate", v |-> v, ps |-> <<>>]
AParams(ps) == [a |-> "params", v |-> 0, ps |-> ps]
AJunk(v) == [a |-> "junk", v |-> v, ps |-> <<>>]
RTy(n) == [k |-> "ty", n |-> n]

Rot(q, n) == [x \in 1..Len(q) |-> q[((x - 1 + n) % Len(q)) + 1]]
\* arguments spread over attributes
Spread(s, args) ==
  IF args = <<>> THEN <<>>
  ELSE LET cut == [x \in 1..(Len(args) - 1) |-> Chance(Sub(s, x), 1, 2)]
           starts == {1} \cup {x + 1 : x \in {x \in DOMAIN cut : cut[x]}}
           ss == SelectSeq([x \in 1..Len(args) |-> x], LAMBDA x : x \in starts)
           endOf(y) == IF y = Len(ss) THEN Len(args) ELSE ss[y + 1] - 1
       IN  [y \in 1..Len(ss) |-> At("list", SubSeq(args, ss[y], endOf(y)))]

\* valid options that select the parameters sel (a sequence; <<>>: no params argument)
ValidArgs(s, sel, crates) ==
  LET q == IF sel = <<>> THEN <<>> ELSE Rot(sel, Below(Sub(s, 1), 4))
      c == Below(Sub(s, 2), Len(q) + 1)
      ps == IF q = <<>> THEN <<>>
            ELSE IF c = 0 \/ c = Len(q) THEN <<AParams([x \in DOMAIN q |-> RTy(q[x])])>>
            ELSE <<AParams([x \in 1..c |-> RTy(q[x])]), AParams([x \in 1..(Len(q) - c) |-> RTy(q[x + c])])>>
      cr == IF crates /\ Chance(Sub(s, 3), 1, 2) THEN <<ACrate(1 + Below(Sub(s, 4), 4))>> ELSE <<>>
      all == ps \o cr
  IN IF all = <<>> THEN <<>> ELSE Rot(all, Below(Sub(s, 5), 5))

InsertAt(q, p, x) == SubSeq(q, 1, p) \o <<x>> \o SubSeq(q, p + 1, Len(q))
\* one fault in the options
Fault(s, attrs, np, nlt) ==
  LET r == Below(Sub(s, 1), 16)
      a == IF attrs = <<>> THEN 0 ELSE 1 + Below(Sub(s, 2), Len(attrs))
      addArg(g) == IF a = 0 \/ Chance(Sub(s, 3), 1, 3) THEN InsertAt(attrs, Below(Sub(s, 4), Len(attrs) + 1), At("list", <<g>>))
                   ELSE [attrs EXCEPT ![a].args = InsertAt(@, Below(Sub(s, 5), Len(@) + 1), g)]
      addAttr(x) == InsertAt(attrs, Below(Sub(s, 4), Len(attrs) + 1), x)
      anyP == RTy(Below(Sub(s, 6), np))
  IN CASE r = 0 -> addArg(AParams(<<[k |-> "unknown", n |-> Below(Sub(s, 7), 3)]>>))
       [] r = 1 -> addArg(AParams(<<anyP, [k |-> "unknown", n |-> Below(Sub(s, 7), 3)]>>))
       [] r = 2 -> addArg(AParams(<<IF nlt > 0 THEN [k |-> "lt", n |-> Below(Sub(s, 7), nlt)] ELSE [k |-> "unknown", n |-> 2]>>))
       [] r = 3 -> addArg(AParams(<<anyP, anyP>>))
       [] r = 4 -> addArg(AParams(<<anyP>>))
       [] r = 5 -> addArg(ACrate(1 + Below(Sub(s, 7), 4)))
       [] r = 6 -> addArg(ACrate(5 + Below(Sub(s, 7), 7)))
       [] r = 7 -> addArg(AParams(<<>>))
       [] r = 8 -> addArg(AParams(<<[k |-> "bad", n |-> Below(Sub(s, 7), 3)]>>))
       [] r = 9 -> addArg(AJunk(Below(Sub(s, 7), 6)))
       [] r = 10 -> addAttr(At("path", <<>>))
       [] r = 11 -> addAttr(At("nv", <<>>))
       [] r = 12 -> addAttr(At("list", <<>>))
       [] r = 13 -> addAttr(At("juxt", <<>>))
       [] r = 14 -> addArg(AParams(<<[k |-> "unknown", n |-> 0], [k |-> "unknown", n |-> 1], [k |-> "unknown", n |-> 0]>>))
       [] r = 15 -> addAttr(At("list", <<ACrate(1), AParams(<<anyP>>), ACrate(2)>>))

RECURSIVE Faults(_, _, _, _, _)
Faults(s, n, attrs, np, nlt) == IF n = 0 THEN attrs ELSE Faults(Sub(s, 9), n - 1, Fault(s, attrs, np, nlt), np, nlt)

-----------------------------------------------------------------------------
Fld(ty) == [at |-> 0, ty |-> ty]
Vrt(fs) == [at |-> 0, fs |-> fs]

\* a declaration: parameters, lifetime flag, kind, fields, options
Mk(s, kind, lts, ps, attrs, vs) ==
  [kind |-> kind, lts |-> lts, ps |-> ps, attrs |-> attrs, vs |-> vs,
   styles |-> [x \in DOMAIN vs |-> IF vs[x].fs = <<>> THEN From(Sub(s, 700 + x), <<"unit", "tuple", "named">>) ELSE From(Sub(s, 700 + x), <<"tuple", "named">>)],
   drop |-> FALSE, pb |-> [x \in DOMAIN ps |-> "none"],
   derives |-> Below(Sub(s, 800), 5), names |-> Below(Sub(s, 801), 100), spell |-> Below(Sub(s, 802), 1000)]

ParamLists == << <<"ty">>, <<"ty">>, <<"ty">>, <<"ty", "ty">>, <<"ty", "ty">>, <<"ty", "ty", "ty">>, <<"const", "ty">>, <<"ty", "const", "ty">>,
                <<"ty", "ty", "const">>, <<"const", "ty", "const", "ty">>, <<"ty", "ty", "ty", "ty">> >>
Mixes(mix) ==
  CASE mix = "c10" -> <<"good", "indep", "bad", "bad", "bad", "mac", "macbad", "attrs", "kind", "opts", "good">>
    [] mix = "c11" -> <<"sel", "sel", "sel", "opts", "opts", "opts2", "opts2", "attrs", "kind">>
    [] mix = "c14" -> <<"good", "indep", "mac", "sel", "copy", "copy", "copy", "copysel">>
    [] mix = "c16" -> <<"good", "indep", "bad", "bad", "mac", "macbad", "attrs", "opts", "opts2", "opts2", "sel", "copy">>
    [] mix = "good" -> <<"good", "indep", "mac", "sel", "good">>

\* types that can be copied if T can: without the assertion nothing would stop moving out of a value with a destructor
RECURSIVE CopyTy(_, _, _)
CopyTy(s, d, tps) ==
  LET r == Below(s, 12) in(x) == CopyTy(Sub(s, 10 + x), d - 1, tps) IN
  IF d = 0 \/ r < 5 THEN IF r % 2 = 0 THEN V(From(Sub(s, 1), tps)) ELSE IF r = 1 THEN L(From(Sub(s, 2), <<0, 3, 4>>)) ELSE One("Phantom", V(From(Sub(s, 1), tps)))
  ELSE IF r < 7 THEN One("Option", in(1))
  ELSE IF r = 7 THEN N("Arr", <<in(1)>>, 2)
  ELSE IF r = 8 THEN N("Result", <<in(1), in(2)>>, 0)
  ELSE IF r = 9 THEN One("Poll", in(1))
  ELSE N("Tup", [x \in 1..From(Sub(s, 3), <<0, 1, 2, 3>>) |-> in(x)], 0)

GenItem(s) ==
  LET what == From(Sub(s, 1), Mixes(Mix))
      ps == IF what = "kind" /\ Chance(Sub(s, 2), 1, 2) THEN From(Sub(s, 3), << <<>>, <<"const">>, <<"const", "const">>, <<"ty">> >>)
            ELSE From(Sub(s, 3), ParamLists)
      nlt == From(Sub(s, 4), IF what \in {"opts", "opts2", "kind"} THEN <<0, 1, 2>> ELSE <<0, 0, 1, 2>>)
      lt == nlt > 0
      num == [x \in 1..Len(ps) |-> x - 1]
      tps == SelectSeq(num, LAMBDA x : ps[x + 1] = "ty")
      cps == SelectSeq(num, LAMBDA x : ps[x + 1] = "const")
      some == SelectSeq(tps, LAMBDA x : Chance(Sub(s, 20 + x), 1, 2))
      sel == IF what \in {"indep", "sel", "opts2", "copysel"} /\ tps # <<>> THEN IF some = <<>> THEN <<From(Sub(s, 5), tps)>> ELSE some
             ELSE IF Chance(Sub(s, 6), 1, 4) /\ what \notin {"good", "mac", "bad"} THEN some ELSE <<>>
      mapped == IF sel = <<>> THEN tps ELSE sel
      rest == SelectSeq(tps, LAMBDA x : \A y \in DOMAIN mapped : mapped[y] # x)
      uns == IF what \in {"bad", "macbad", "opts2"} THEN tps ELSE rest
      kind == IF what = "kind" /\ Chance(Sub(s, 7), 1, 2) THEN "union"
              ELSE IF Chance(Sub(s, 8), 1, 2) THEN "struct" ELSE "enum"
      nv == IF kind = "enum" THEN From(Sub(s, 9), <<1, 2, 3, 4>>) ELSE 1
      nf(v) == From(Sub(s, 100 + v), IF kind = "enum" THEN <<0, 1, 1, 2, 3>> ELSE <<1, 1, 2, 3, 4>>)
      ty(v, x) == LET t == GenTy(Sub(Sub(s, 200 + v), x), From(Sub(s, 10), <<1, 2, 3, 3>>), mapped, uns, lt, cps)
                  IN IF what \in {"copy", "copysel"} THEN CopyTy(Sub(Sub(s, 200 + v), x), From(Sub(s, 10), <<0, 1, 2>>), tps)
                     ELSE IF kind = "union" THEN One("Copyable", N("V", <<>>, 0))
                     ELSE IF what = "mac" THEN WithMac(Sub(s, 300 + v + 10 * x), t, FALSE)
                     ELSE IF what = "macbad" THEN WithMac(Sub(s, 300 + v + 10 * x), t, TRUE) ELSE t
      drawn == [v \in 1..nv |-> [x \in 1..nf(v) |-> ty(v, x)]]
      used == UNION {UNION {ParamsIn(drawn[v][x]) : x \in DOMAIN drawn[v]} : v \in DOMAIN drawn}
      missing == SelectSeq(tps, LAMBDA x : x \notin used)
      extra == IF kind = "union" THEN <<>> ELSE [x \in 1..Len(missing) |-> IF Chance(Sub(s, 400 + x), 1, 2) THEN One("Phantom", V(missing[x])) ELSE V(missing[x])]
               \o [x \in 1..nlt |-> N("LRef", <<>>, x - 1)]
      full == IF kind = "union" THEN << <<L(0)>> >> ELSE [drawn EXCEPT ![nv] = @ \o extra]
      vs0 == [v \in 1..nv |-> Vrt([x \in DOMAIN full[v] |-> Fld(full[v][x])])]
      mis(v) == IF what = "attrs" THEN Below(Sub(s, 500 + v), 3) ELSE 0
      misf(v, x) == IF what \in {"attrs", "kind"} /\ Chance(Sub(s, 550 + v), 1, 2) THEN Below(Sub(s, 600 + v + 10 * x), 3) ELSE 0
      vs == [v \in 1..nv |-> [vs0[v] EXCEPT !.at = IF kind = "enum" THEN mis(v) ELSE 0,
                                            !.fs = [x \in DOMAIN vs0[v].fs |-> [vs0[v].fs[x] EXCEPT !.at = misf(v, x)]]]]
      args == ValidArgs(Sub(s, 11), sel, Mix = "c11" \/ Chance(Sub(s, 12), 1, 3))
      attrs0 == Spread(Sub(s, 13), args)
      nfault == IF what \in {"opts", "opts2"} THEN 1 + Below(Sub(s, 14), 3) ELSE 0
      attrs == IF Len(ps) = 0 THEN <<>> ELSE Faults(Sub(s, 15), nfault, attrs0, Len(ps), nlt)
      copy == what \in {"copy", "copysel"} /\ Chance(Sub(s, 16), 3, 4)
      pb == [x \in 1..Len(ps) |-> IF ps[x] = "const" THEN "none" ELSE IF copy THEN "copy" ELSE IF Chance(Sub(s, 650 + x), 1, 5) THEN "drop" ELSE "none"]
      made == Mk(s, kind, nlt, ps, attrs, vs)
  IN IF Mix = "c16" THEN [made EXCEPT !.pb = pb]
     ELSE IF Mix = "c14" THEN [made EXCEPT !.drop = Chance(Sub(s, 17), 1, 2), !.pb = pb] ELSE made

-----------------------------------------------------------------------------
(* Every leaf in every context *)
\* leaves: unsupported uses of T (0..12), T itself, an independent type, a macro, and the unsupported uses of U
LeafCount == 2 * UnsCount + 3
Leaf(u) == IF u < UnsCount THEN UnsUse(u, V(0), TRUE)
           ELSE IF u = UnsCount THEN V(0)
           ELSE IF u = UnsCount + 1 THEN L(3)
           ELSE IF u = UnsCount + 2 THEN Mac
           ELSE UnsUse(u - UnsCount - 3, V(1), TRUE)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
TypesCount == LeafCount * Pow(CtxCount, Depth)
RECURSIVE Nest(_, _, _, _)
Nest(n, d, x, s) == IF d = 0 THEN x
                    ELSE Nest(n \div CtxCount, d - 1, Ctx(n % CtxCount, x, IF Chance(Sub(s, d), 1, 2) THEN V(0) ELSE L(Below(Sub(s, 10 + d), LCount))), s)
TypesItem(n) ==
  LET s == Sub(Sub(Seed, 77), n)
      t == Nest(n \div LeafCount, Depth, Leaf(n % LeafCount), s)
      enum == n % 2 = 1
      fs == <<Fld(t), Fld(V(0)), Fld(V(1)), Fld(N("LRef", <<>>, 0))>>
  IN  Mk(s, IF enum THEN "enum" ELSE "struct", 1, <<"ty", "ty">>,
         <<At("list", <<AParams(<<RTy(0)>>)>>)>>, IF enum THEN <<Vrt(<<>>), Vrt(fs)>> ELSE <<Vrt(fs)>>)

Total == IF Mode = "types" THEN TypesCount ELSE NItems
Item(n) == IF Mode = "types" THEN TypesItem(n) ELSE GenItem(Sub(Sub(Seed, 5), n))

None == [kind |-> "none"]
Init == i = 0 /\ it = None /\ m = StartM

Begin == /\ it = None /\ i < Total
         /\ it' = Item(i) /\ m' = StartM /\ i' = i

Run == /\ it # None /\ m.ph # "done" /\ m' = Step(m, it) /\ UNCHANGED <<i, it>>

Emit == /\ it # None /\ m.ph = "done"
        /\ Assert([errs |-> m.errs, conf |-> m.conf, acc |-> Accepted(m)] = Outcome(it), <<"machine and rules disagree", it>>)
        /\ PrintT("CASE " \o ToJson([id |-> i, it |-> it, errs |-> m.errs, tol |-> Tolerated(it), acc |-> Accepted(m), conf |-> m.conf, cr |-> m.cr]))
        /\ it' = None /\ m' = StartM /\ i' = i + 1

Next == Begin \/ Run \/ Emit
=============================================================================
