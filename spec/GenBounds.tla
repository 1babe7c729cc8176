------------------------------ MODULE GenBounds --------------------------------
(***************************************************************************)
(* Draws a world of element types with facts about them, declarations with *)
(* bounds over it, and questions about which implementations exist; every  *)
(* question is answered by the solver machine of Bounds and emitted.       *)
(***************************************************************************)
EXTENDS Bounds, Rnd, Json, IOUtils

NDefs   == atoi(IOEnv.NDEFS)
NPer    == atoi(IOEnv.NPER)
Seed    == atoi(IOEnv.GENSEED)
What    == IOEnv.WHAT          \* "pos" (C06) or "bnd" (C12)

VARIABLES ph, i, q, s
vars == <<Defs, Facts, ph, i, q, s>>

V(n) == N("V", <<>>, n)
L(n) == N("L", <<>>, n)
E(n) == N("E", <<>>, n)
K(n) == N("K", <<>>, n)
One(c, x) == N(c, <<x>>, 0)
Traits == <<"m0", "m1", "m2", "copy", "ord", "hash", "tr">>
NE == 6

\* elements 0 and 1 satisfy everything, 5 nothing
Draw(sd, q_, num, den) == SelectSeq(q_, LAMBDA x : Chance(Sub(sd, CHOOSE j \in DOMAIN q_ : q_[j] = x), num, den))
Ms == <<"m0", "m1", "m2">>
Els == [x \in 1..NE |-> x - 1]
GenFacts(sd) ==
  LET one(e, q_, w) == IF e <= 1 THEN q_ ELSE IF e = 5 THEN <<>> ELSE Draw(Sub(Sub(sd, w), e), q_, 3, 5) 
      \* 0 and 1 are related to each other and to themselves
      rel(w) == [x \in 1..NE |-> LET r == Draw(Sub(Sub(sd, w), x), Els, 1, 2) IN IF x <= 2 THEN <<0, 1>> \o SelectSeq(r, LAMBDA y : y > 1) ELSE r]
  IN
  [e |-> [x \in 1..NE |-> one(x - 1, Traits, 1)],
   vec |-> [x \in 1..NE |-> one(x - 1, Ms, 2)], arr |-> [x \in 1..NE |-> one(x - 1, Ms, 3)], rf |-> [x \in 1..NE |-> one(x - 1, Ms, 4)],
   sl |-> [x \in 1..NE |-> one(x - 1, Ms, 8)], tup |-> rel(9), trp |-> rel(5), trpv |-> rel(6), trpr |-> rel(10), trpd |-> rel(11), hrp |-> rel(12),
   as |-> [x \in 1..NE |-> IF x <= 2 THEN 0 ELSE Below(Sub(Sub(sd, 7), x), NE)]]

-----------------------------------------------------------------------------
(* Declarations *)
P(k, ty, t, u) == [k |-> k, ty |-> ty, t |-> t, u |-> u, pl |-> 0]

GenPred(sd, tps, rel, cps, sel) ==      \* a sequence (one bound may come with another)
  LET p == From(Sub(sd, 1), tps)
      p2 == From(Sub(sd, 2), tps)
      norel == SelectSeq(tps, LAMBDA x : x \notin rel)
      n1 == IF norel = <<>> THEN 0 ELSE From(Sub(sd, 1), norel)
      n2 == IF norel = <<>> THEN 0 ELSE From(Sub(sd, 2), norel)
      m == From(Sub(sd, 3), Ms)
      r == Below(Sub(sd, 4), IF norel = <<>> THEN 2 ELSE 32)
      pl(x) == [x EXCEPT !.pl = Below(Sub(sd, 5), 6)]
  IN CASE r = 0 -> <<pl(P("tr", V(p), m, E(0)))>>
       [] r = 1 -> <<pl(P("life", V(p), "", E(0)))>>
       [] r \in {2, 3, 4} -> <<pl(P("tr", V(n1), From(Sub(sd, 6), Traits), E(0)))>>
       [] r = 5 -> <<pl(P("trp", V(n1), "", V(n2)))>>
       [] r = 6 -> <<pl(P("trp", V(n1), "", V(n1)))>>
       [] r = 7 -> <<pl(P("trp", V(n1), "", One("Vec", V(n2))))>>
       [] r = 8 -> <<pl(P("tr", One("Vec", V(n1)), m, E(0)))>>
       [] r = 9 -> <<pl(P("tr", N("Arr", <<V(n1)>>, IF cps # <<>> /\ Chance(Sub(sd, 7), 1, 2) THEN 0 - 1 - From(Sub(sd, 8), cps) ELSE 2), m, E(0)))>>
       [] r = 18 -> <<pl(P("tr", One("Slice", V(n1)), m, E(0)))>>
       [] r \in {19, 20} -> <<pl(P("tr", N("Tup", <<V(n1), V(n2)>>, 0), m, E(0)))>>
       [] r \in {21, 22, 23} -> <<pl(P("hrp", V(n1), "", V(n2)))>>
       [] r \in {24, 25} -> <<pl(P("trp", V(n1), "", One("Ref", V(n2))))>>
       [] r \in {26, 27} -> <<pl(P("trp", V(n1), "", One("Dyn", V(n2))))>>
       [] r = 28 /\ n1 # n2 -> <<pl(P("fnp", V(n1), "", V(n2)))>>
       \* an equation about a mapped parameter would leave nothing to map
       [] r = 29 /\ n1 # n2 /\ n2 \notin Set(sel) -> <<pl(P("as", V(n1), "", V(n2)))>>
       [] r \in 28..31 -> <<pl(P("tr", V(n1), m, E(0))), pl(P("hrp", V(n2), "", V(n1)))>>
       [] r = 10 -> <<pl(P("ref", V(n1), m, E(0)))>>
       [] r = 11 -> <<pl(P("as", V(n1), "", E(0)))>>
       [] r = 12 -> <<pl(P("tr", V(n1), "tr", E(0))), pl(P("astr", V(n1), m, E(0)))>>
       [] r = 13 -> <<pl(P("trp", E(Below(Sub(sd, 6), 2)), "", V(n1)))>>
       [] r \in {14, 15} -> <<pl(P("self", V(n1), m, E(0)))>>
       [] r \in {16, 17} -> <<pl(P("sarg", V(n1), m, E(0)))>>

RECURSIVE Ground(_)
Ground(ty) == ty.c # "V" /\ \A x \in DOMAIN ty.a : Ground(ty.a[x])
InPreds(d, n) == \E x \in DOMAIN d.preds : Dep(d.preds[x].ty, n) \/ Dep(d.preds[x].u, n)

\* declarations that others do not use
Alone(d) == \E x \in DOMAIN d.preds : d.preds[x].k = "fnp" \/ (d.preds[x].k = "as" /\ d.preds[x].u.c = "V")

Keyish(sd, tps) == IF tps # <<>> /\ Chance(Sub(sd, 1), 2, 3)
                   THEN LET v == V(From(Sub(sd, 2), tps)) IN
                        From(Sub(sd, 3), <<v, v, One("Option", v), One("Vec", v), N("Tup", <<L(0), v>>, 0), One("Phantom", v), N("Arr", <<v>>, 2)>>)
                   ELSE L(Below(Sub(sd, 2), 2))

\* a field type over the parameters tps; uses earlier declarations
RECURSIVE FTy(_, _, _, _, _), UserTy(_, _, _, _, _, _)
FTy(sd, d, tps, cps, uns) ==
  LET r == Below(Sub(sd, 0), 100)
      in(x) == FTy(Sub(sd, 10 + x), d - 1, tps, cps, uns)
  IN
  IF d = 0 \/ r < 20 THEN IF tps # <<>> /\ r % 4 # 0 THEN V(From(Sub(sd, 1), tps)) ELSE L(Below(Sub(sd, 2), 3))
  ELSE IF r < 24 /\ uns # <<>> THEN One("Ptr", V(From(Sub(sd, 1), uns)))
  ELSE IF r < 44 THEN One(From(Sub(sd, 3), <<"Option", "Vec", "Box", "VecDeque", "LinkedList", "Cell", "RefCell", "Poll", "Bound", "Range", "RangeTo",
                                            "Phantom", "VecIter", "OptIter", "ResIter", "UnsafeCell", "RangeFrom", "RangeInclusive", "RangeToInclusive", "VecDequeIter", "LinkedListIter">>), in(1))
  ELSE IF r < 52 THEN N(From(Sub(sd, 3), <<"Result", "ControlFlow">>), <<in(1), in(2)>>, 0)
  ELSE IF r < 64 THEN N(From(Sub(sd, 3), <<"BTreeMap", "HashMap", "BTreeMapIter", "HashMapIter">>), <<Keyish(Sub(sd, 4), tps), in(2)>>, 0)
  ELSE IF r < 72 THEN One(From(Sub(sd, 3), <<"BTreeSet", "HashSet", "BinaryHeap", "BTreeSetIter", "HashSetIter", "BinaryHeapIter">>), Keyish(Sub(sd, 4), tps))
  ELSE IF r < 78 THEN N("Tup", [x \in 1..From(Sub(sd, 3), <<1, 2, 2, 3>>) |-> in(x)], 0)
  ELSE IF r < 82 THEN N("Arr", <<in(1)>>, IF cps # <<>> /\ Chance(Sub(sd, 3), 1, 2) THEN 0 - 1 - From(Sub(sd, 4), cps) ELSE Below(Sub(sd, 4), 3))
  ELSE IF r < 84 THEN One("Paren", in(1))
  ELSE IF Defs = <<>> THEN in(1)
  ELSE LET e == 1 + Below(Sub(sd, 5), Len(Defs)) IN IF Alone(Defs[e]) THEN in(1) ELSE UserTy(sd, e, d, tps, cps, uns)
UserTy(sd, e, d, tps, cps, uns) ==
  LET def == Defs[e]
      rot == IF tps = <<>> THEN <<>> ELSE [x \in 1..Len(tps) |-> tps[((x - 1 + Below(Sub(sd, 6), Len(tps))) % Len(tps)) + 1]]
      arg(n) ==
        IF def.ps[n].k = "const" THEN K(IF cps # <<>> /\ Chance(Sub(sd, 20 + n), 1, 2) THEN 0 - 1 - From(Sub(sd, 30 + n), cps) ELSE 2 + Below(Sub(sd, 30 + n), 2))
        ELSE IF def.preds # <<>>
             THEN IF n <= Len(rot) THEN V(rot[n]) ELSE E(Below(Sub(sd, 40 + n), 2))
             ELSE FTy(Sub(sd, 50 + n), d - 1, tps, cps, uns)
  IN N("User", [n \in 1..Len(def.ps) |-> arg(n)], e)

\* the bounds that the types used need
RECURSIVE NeedsOf(_)
NeedsOf(ty) ==
  (IF ty.c = "User" THEN LET ps == Defs[ty.n].preds
                             inst == [x \in DOMAIN ps |-> [SubstP(ps[x], ty.a) EXCEPT !.k = IF @ \in {"self", "sarg"} THEN "tr" ELSE @, !.pl = IF ps[x].pl % 2 = 0 THEN 0 ELSE 5]]
                         IN SelectSeq(inst, LAMBDA p : ~Ground(p.ty) \/ ~Ground(p.u)) ELSE <<>>)
  \o Cat([x \in DOMAIN ty.a |-> NeedsOf(ty.a[x])])

ParamLists == << <<"ty">>, <<"ty">>, <<"ty", "ty">>, <<"ty", "ty">>, <<"ty", "ty", "ty">>, <<"const", "ty">>, <<"ty", "const", "ty">>, <<"ty", "ty", "const">>, <<"const", "ty", "const", "ty">>,
                <<"const", "ty", "ty">>, <<"const", "const", "ty">> >>

RECURSIVE ParamsIn(_)
ParamsIn(ty) == IF ty.c = "V" THEN {ty.n} ELSE UNION {ParamsIn(ty.a[x]) : x \in DOMAIN ty.a}

GenDef(sd) ==
  LET ks == From(Sub(sd, 1), ParamLists)
      num == [x \in 1..Len(ks) |-> x - 1]
      tps == SelectSeq(num, LAMBDA x : ks[x + 1] = "ty")
      cps == SelectSeq(num, LAMBDA x : ks[x + 1] = "const")
      rel == {tps[x] : x \in {x \in DOMAIN tps : Chance(Sub(sd, 20 + x), 1, 4)}}
      norel == SelectSeq(tps, LAMBDA x : x \notin rel)
      allsel == Chance(Sub(sd, 2), 2, 3)
      some == SelectSeq(tps, LAMBDA x : Chance(Sub(sd, 30 + x), 1, 2))
      sel == IF allsel THEN tps ELSE IF some = <<>> THEN <<From(Sub(sd, 3), tps)>> ELSE some
      uns == SelectSeq(norel, LAMBDA x : x \notin Set(sel))
      own0 == Cat([x \in 1..Below(Sub(sd, 4), 4) |-> GenPred(Sub(sd, 40 + x), tps, rel, cps, sel)])
      nlt == From(Sub(sd, 8), <<0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 4>>)
      lt == nlt > 0
      \* lifetimes that outlive others, said where they are declared or in the where clause
      outs == IF nlt < 2 THEN <<>> ELSE [x \in 1..Below(Sub(sd, 10), nlt + 1) |->
                [a |-> Below(Sub(sd, 130 + x), nlt), b |-> Below(Sub(sd, 140 + x), nlt), inl |-> Chance(Sub(sd, 150 + x), 1, 3)]]
      own == [x \in DOMAIN own0 |-> IF own0[x].k = "life" THEN [own0[x] EXCEPT !.t = IF lt /\ Chance(Sub(sd, 120 + x), 2, 3) THEN "own" ELSE "static"] ELSE own0[x]]
      enum == Chance(Sub(sd, 5), 1, 2)
      nv == IF enum THEN From(Sub(sd, 6), <<1, 2, 3>>) ELSE 1
      relf(p, sd2) == From(sd2, <<One("Phantom", V(p)), One("Box", V(p)), One("Phantom", V(p)), One("Ptr", V(p))>>)
      vs0 == [v \in 1..nv |-> [x \in 1..From(Sub(sd, 60 + v), <<0, 1, 2, 2>>) |-> FTy(Sub(Sub(sd, 70 + v), x), 2, norel, cps, uns)]]
      used == UNION {UNION {ParamsIn(vs0[v][x]) : x \in DOMAIN vs0[v]} : v \in DOMAIN vs0}
      relq == SelectSeq(tps, LAMBDA x : x \in rel)
      miss == SelectSeq(norel, LAMBDA x : x \notin used)
      \* a pointer would be an unsupported use of a selected parameter
      okrel(p) == LET t == relf(p, Sub(sd, 90 + p)) IN IF t.c = "Ptr" /\ p \in Set(sel) THEN One("Phantom", V(p)) ELSE t
      tail == IF ~enum /\ relq # <<>> /\ Chance(Sub(sd, 7), 1, 3) THEN <<V(relq[1])>> ELSE <<>>
      extra == [x \in 1..Len(relq) |-> okrel(relq[x])] \o [x \in 1..Len(miss) |-> From(Sub(sd, 100 + x), <<One("Phantom", V(miss[x])), V(miss[x])>>)] \o tail
      vs == [vs0 EXCEPT ![nv] = @ \o extra]
      needed == Cat([v \in DOMAIN vs |-> Cat([x \in DOMAIN vs[v] |-> NeedsOf(vs[v][x])])])
  IN [lt |-> lt, nlt |-> nlt, outs |-> outs, ps |-> [x \in 1..Len(ks) |-> [k |-> ks[x], relaxed |-> (x - 1) \in rel]],
      preds |-> own \o needed, enum |-> enum, vs |-> vs, sel |-> sel, named |-> ~allsel,
      styles |-> [v \in 1..nv |-> IF vs[v] = <<>> THEN "unit" ELSE From(Sub(sd, 110 + v), <<"tuple", "named">>)],
      spell |-> Below(Sub(sd, 9), 1000)]

-----------------------------------------------------------------------------
(* Questions *)
El(sd, good) == IF good \/ Chance(Sub(sd, 1), 1, 3) THEN E(Below(Sub(sd, 2), 2)) ELSE E(Below(Sub(sd, 2), NE))
FnOf(d, n, args) == {d.preds[x].u.n : x \in {x \in DOMAIN d.preds : d.preds[x].k = "fnp" /\ d.preds[x].ty = V(n - 1)}}
ArgsFor(sd, d, good) ==
  LET args == [n \in 1..Len(d.ps) |-> IF d.ps[n].k = "const" THEN K(2 + Below(Sub(sd, n), 2))
                          ELSE IF d.ps[n].relaxed /\ Chance(Sub(sd, 20 + n), 1, 4) THEN E(From(Sub(sd, 30 + n), <<Str, U8s>>))
                          ELSE El(Sub(sd, 40 + n), good)]
  IN [n \in 1..Len(d.ps) |-> IF FnOf(d, n, args) = {} THEN args[n]
                             ELSE One("Fn", args[1 + CHOOSE y \in FnOf(d, n, args) : TRUE])]
\* one question about declaration e
UserQ(sd, e) ==
  LET d == Defs[e]
      good == What = "pos"
      args == ArgsFor(Sub(sd, 1), d, good)
      tys == SelectSeq([x \in 1..Len(d.ps) |-> x], LAMBDA x : d.ps[x].k = "ty" /\ Sized(args[x]))
      x == IF What = "pos" THEN 1 + Below(Sub(sd, 2), Len(d.ps) + 1)
           ELSE IF tys = <<>> THEN 1 ELSE From(Sub(sd, 2), tys)
      src == IF x <= Len(args) /\ args[x].c \in {"E", "Fn"} /\ Sized(args[x]) /\ ~(What = "pos" /\ Chance(Sub(sd, 3), 1, 6)) THEN args[x] ELSE E(Below(Sub(sd, 4), 2))
      dst0 == El(Sub(sd, 5), good)
      dst == IF x <= Len(args) /\ args[x].c = "Fn" /\ Chance(Sub(sd, 9), 2, 3)
             THEN IF Chance(Sub(sd, 10), 2, 3) THEN args[x] ELSE One("Fn", dst0) ELSE dst0
      isty == x <= Len(d.ps) /\ d.ps[x].k = "ty"
      unsz(A) == d.enum \/ \A v \in DOMAIN d.vs : d.vs[v] = <<>> \/ Sized(Subst(d.vs[v][Len(d.vs[v])], A))
  IN [ok |-> WFargs(d, args) /\ (What = "pos" \/ tys # <<>>) /\ (What = "bnd" => isty),
      ty |-> N("User", args, e), x |-> x, omit |-> What = "pos" /\ x = 1 /\ Chance(Sub(sd, 6), 1, 2), src |-> src, dst |-> dst,
      \* the result can be named if it is well-formed
      out |-> isty /\ WFargs(d, [args EXCEPT ![x] = dst]) /\ Chance(Sub(sd, 7), IF What = "pos" THEN 5 ELSE 1, 6),
      tr |-> From(Sub(sd, 8), <<"FuncMap", "TryFuncMap">>)]

LibNames == <<"Option", "Vec", "Box", "VecDeque", "LinkedList", "BTreeSet", "HashSet", "BinaryHeap", "BTreeMap", "HashMap", "Result", "ControlFlow",
  "Cell", "RefCell", "UnsafeCell", "Poll", "Bound", "Range", "RangeFrom", "RangeTo", "RangeInclusive", "RangeToInclusive", "Phantom", "Arr",
  "OptIter", "ResIter", "VecIter", "VecDequeIter", "LinkedListIter", "BTreeSetIter", "HashSetIter", "BinaryHeapIter", "BTreeMapIter", "HashMapIter">>
\* every library type, position and trait; n counts them
LibPer == 8   \* 4 positions, 2 traits
LibTotal == Len(LibNames) * LibPer
LibQ(sd, n) ==
  LET c == LibNames[1 + (n \div LibPer)]
      x == 1 + ((n \div 2) % 4)
      good == What = "pos"
      ar == LibArity[c]
      custom == c \in {"HashMap", "HashSet"} /\ n >= LibTotal
      el(y) == El(Sub(sd, 20 + y), good)
      args == [y \in 1..(IF c \in {"HashMap", "HashSet"} /\ ~custom THEN ar - 1 ELSE ar) |-> IF custom /\ y = ar THEN L(20) ELSE el(y)]
      src == IF x <= Len(args) THEN args[x] ELSE E(0)
  IN [ok |-> x <= ar + 1, ty |-> N(c, args, 2), x |-> x, omit |-> x = 1 /\ Chance(Sub(sd, 6), 1, 2), src |-> src, dst |-> El(Sub(sd, 5), good),
      out |-> x \in Mappable(c), tr |-> IF n % 2 = 0 THEN "FuncMap" ELSE "TryFuncMap"]
\* the hash collections with their own hasher, after everything else
HashQ(sd, n) ==
  LET c == IF n < 4 THEN "HashMap" ELSE "HashSet"
      x == IF n < 4 THEN 1 + (n \div 2) ELSE 1
      args == IF n < 4 THEN <<E(0), E(1), L(20)>> ELSE <<E(0), L(20)>>
  IN [ok |-> TRUE, ty |-> N(c, args, 0), x |-> x, omit |-> FALSE, src |-> args[x], dst |-> E(1 - args[x].n), out |-> TRUE,
      tr |-> IF n % 2 = 0 THEN "FuncMap" ELSE "TryFuncMap"]

LibRounds == IF What = "pos" THEN 1 ELSE 3
Total == NDefs * NPer + LibRounds * LibTotal + (IF What = "pos" THEN 6 ELSE 0)
Question(n) ==
  LET sd == Sub(Sub(Seed, 9), n) IN
  IF n < NDefs * NPer THEN UserQ(sd, 1 + (n \div NPer))
  ELSE IF n < NDefs * NPer + LibRounds * LibTotal THEN LibQ(sd, (n - NDefs * NPer) % LibTotal)
  ELSE HashQ(sd, n - NDefs * NPer - LibRounds * LibTotal)

NoQ == [ok |-> FALSE]
Init == /\ Defs = <<>> /\ Facts = GenFacts(Sub(Seed, 1)) /\ ph = "defs" /\ i = 0 /\ q = NoQ /\ s = [st |-> "none", todo |-> <<>>]
Define == /\ ph = "defs" /\ Len(Defs) < NDefs
          /\ Defs' = Append(Defs, GenDef(Sub(Sub(Seed, 2), Len(Defs))))
          /\ UNCHANGED <<Facts, ph, i, q, s>>
Publish == /\ ph = "defs" /\ Len(Defs) = NDefs
           /\ PrintT("WORLD " \o ToJson([facts |-> Facts, defs |-> Defs]))
           /\ ph' = "ask" /\ UNCHANGED <<Defs, Facts, i, q, s>>
Ask == /\ ph = "ask" /\ i < Total
       /\ LET x == Question(i) IN
          IF x.ok THEN /\ q' = x /\ s' = Start(OMap(x.ty, x.x, x.src, x.dst)) /\ ph' = "run" /\ i' = i
                  ELSE i' = i + 1 /\ UNCHANGED <<ph, q, s>>
       /\ UNCHANGED <<Defs, Facts>>
Run == ph = "run" /\ s.st = "run" /\ s' = StepS(s) /\ UNCHANGED <<Defs, Facts, ph, i, q>>
Answer == /\ ph = "run" /\ s.st # "run"
          /\ Assert((s.st = "yes") = Holds(OMap(q.ty, q.x, q.src, q.dst)), <<"solver and rules disagree", q>>)
          /\ PrintT("ASK " \o ToJson([id |-> i, q |-> q, yes |-> s.st = "yes",
                                     out |-> IF q.out THEN ResultOf(OMap(q.ty, q.x, q.src, q.dst)) ELSE q.ty]))
          /\ ph' = "ask" /\ i' = i + 1 /\ q' = NoQ /\ s' = [st |-> "none", todo |-> <<>>] /\ UNCHANGED <<Defs, Facts>>
Next == Define \/ Publish \/ Ask \/ Run \/ Answer
=============================================================================
