------------------------------- MODULE GenMap --------------------------------
(***************************************************************************)
(* Generates the mapping cases: user-defined types, values, and the        *)
(* replies of the mapping function (its key function and which calls fail  *)
(* or panic).  Library roots are enumerated, user-defined types are drawn. *)
(***************************************************************************)
EXTENDS FMTypes, Rnd, Json, IOUtils

NoDefs == <<>>
NDefs    == atoi(IOEnv.NDEFS)        \* how many user-defined types
NVals    == atoi(IOEnv.NVALS)        \* values per user root
Seed     == atoi(IOEnv.GENSEED)
SizeMax  == atoi(IOEnv.SIZEMAX)
Bias     == IOEnv.BIAS               \* "", "multi" (several parameters) or "keyed" (ordered and hashed containers)

VARIABLES ds, phase, i
vars == <<ds, phase, i>>

V(n) == TyN("V", <<>>, n)
LitTy(n) == TyN("L", <<>>, n)         \* 0: u8  1: String  2: &'static str  3: fn(u8) -> u8  4: ()  5: &'a u8
Konst(n) == TyN("K", <<>>, n)         \* a const argument; n < 0: const parameter number -1-n

-----------------------------------------------------------------------------
(* Types *)
TyParams(d) == SelectSeq([x \in 1..Len(d.ps) |-> x - 1], LAMBDA x : d.ps[x + 1] = "ty")

\* types that are Ord + Hash whenever the tokens are
RECURSIVE GenKey(_, _, _)
GenKey(s, d, tps) ==
  LET r == Below(s, 12) IN
  IF d = 0 \/ r < 6 THEN V(From(Sub(s, 1), tps))
  ELSE CASE r = 6 -> Ty("Option", <<GenKey(Sub(s, 2), d - 1, tps)>>)
         [] r = 7 -> Ty("Box", <<GenKey(Sub(s, 2), d - 1, tps)>>)
         [] r = 8 -> Ty("Vec", <<GenKey(Sub(s, 2), d - 1, tps)>>)
         [] r = 9 -> Ty("Tup", <<GenKey(Sub(s, 2), d - 1, tps), GenKey(Sub(s, 3), d - 1, tps)>>)
         [] r = 10 -> TyN("Arr", <<GenKey(Sub(s, 2), d - 1, tps)>>, 1 + Below(Sub(s, 4), 2))
         [] r = 11 -> Ty("Result", <<GenKey(Sub(s, 2), d - 1, tps), GenKey(Sub(s, 3), d - 1, tps)>>)

Uni1Seq == <<"Box", "Cell", "RefCell", "UnsafeCell", "RangeFrom", "RangeTo", "RangeToInclusive", "Range",
             "RangeInclusive", "Option", "Option", "OptIter", "ResIter", "Poll", "Bound", "Vec", "Vec", "VecIter", "VecDeque",
             "VecDequeIter", "LinkedList", "LinkedListIter", "Phantom">>
\* towers of constructors with one argument
RECURSIVE Tower(_, _, _)
Tower(s, h, tps) == IF h = 0 THEN V(From(Sub(s, 1), tps))
                    ELSE IF Chance(Sub(s, 2), 1, 8) THEN TyN("Arr", <<Tower(Sub(s, 3), h - 1, tps)>>, 1 + Below(Sub(s, 4), 2))
                    ELSE IF Chance(Sub(s, 2), 1, 7) THEN Ty("Tup", <<Tower(Sub(s, 3), h - 1, tps), V(From(Sub(s, 5), tps))>>)
                    ELSE Ty(From(Sub(s, 6), Uni1Seq), <<Tower(Sub(s, 3), h - 1, tps)>>)

KeySeq1 == <<"BTreeSet", "BTreeSet", "BTreeSetIter", "HashSet", "HashSetIter", "BinaryHeap", "BinaryHeapIter">>
KeySeq2 == <<"BTreeMap", "BTreeMap", "BTreeMapIter", "HashMap", "HashMap", "HashMapIter">>

\* field types of a definition with type parameters tps and const parameters cps, referring to the definitions prev
RECURSIVE GenTy(_, _, _, _, _)
GenTy(s, d, tps, cps, prev) ==
  LET r == Below(s, 100)
      inner(x) == GenTy(Sub(s, 10 + x), d - 1, tps, cps, prev)
  IN
  IF d = 0 \/ r < 12 THEN (IF r % 12 = 0 THEN LitTy(Below(Sub(s, 1), 5)) ELSE V(From(Sub(s, 2), tps)))
  ELSE IF r < (IF Bias = "keyed" THEN 28 ELSE 50) THEN Ty(From(Sub(s, 3), Uni1Seq), <<inner(1)>>)
  ELSE IF r < 58 THEN Ty(From(Sub(s, 3), KeySeq1), <<GenKey(Sub(s, 4), 2, tps)>>)
  ELSE IF r < 66 THEN Ty(From(Sub(s, 3), KeySeq2), <<GenKey(Sub(s, 4), 2, tps), inner(1)>>)
  ELSE IF r < 73 THEN Ty(From(Sub(s, 3), <<"Result", "Result", "ControlFlow">>), <<inner(1), inner(2)>>)
  ELSE IF r < 81 THEN Ty("Tup", [x \in 1..From(Sub(s, 3), <<1, 2, 2, 2, 2, 3, 3, 3, 4, 5, 8>>) |-> inner(x)])
  ELSE IF r < 85 THEN IF cps # <<>> /\ Chance(Sub(s, 5), 1, 2) THEN TyN("Arr", <<inner(1)>>, 0 - 1 - From(Sub(s, 6), cps))
                      ELSE TyN("Arr", <<inner(1)>>, Below(Sub(s, 6), 5))
  ELSE IF r < 88 THEN Ty("Paren", <<inner(1)>>)
  ELSE IF prev # <<>> THEN
       LET u == Below(Sub(s, 7), Len(prev)) + 1
           def == prev[u]
       IN  TyN("User", [x \in 1..Len(def.ps) |->
             IF def.ps[x] = "const"
             THEN IF cps # <<>> /\ Chance(Sub(s, 20 + x), 1, 2) THEN Konst(0 - 1 - From(Sub(s, 30 + x), cps)) ELSE Konst(Below(Sub(s, 30 + x), 4))
             ELSE IF x - 1 \in def.kps THEN GenKey(Sub(s, 40 + x), 1, tps)
             ELSE GenTy(Sub(s, 50 + x), IF d > 2 THEN 1 ELSE 0, tps, cps, <<>>)], u)
  ELSE V(From(Sub(s, 2), tps))

\* parameters that occur where an ordered or hashed element is needed
RECURSIVE Params(_)
Params(ty) == IF ty.c = "V" THEN {ty.n} ELSE UNION {Params(ty.a[x]) : x \in DOMAIN ty.a}
RECURSIVE KeyPs(_, _)
KeyPs(ty, prev) ==
  UNION {KeyPs(ty.a[x], prev) : x \in DOMAIN ty.a}
  \cup (IF ty.c \in SetC \cup HeapC \cup MapC THEN Params(ty.a[1]) ELSE {})
  \cup (IF ty.c = "User" THEN UNION {Params(ty.a[x + 1]) : x \in prev[ty.n].kps} ELSE {})

RECURSIVE UsesHeap(_, _)
UsesHeap(ty, prev) == \/ ty.c \in HeapC \/ \E x \in DOMAIN ty.a : UsesHeap(ty.a[x], prev)
                      \/ ty.c = "User" /\ prev[ty.n].heap

\* do keys depend on more than one dependent argument?  (then a surviving key decides what is called later)
GenDef(s, prev) ==
  LET \* parameters, e.g. <<"ty">>, <<"const", "ty">>, <<"ty", "ty", "const">>
      ps == IF Bias = "multi" THEN From(Sub(s, 1), << <<"ty", "ty">>, <<"ty", "ty">>, <<"ty", "ty", "ty">>, <<"ty", "const", "ty">> >>) ELSE From(Sub(s, 1), << <<"ty">>, <<"ty">>, <<"ty">>, <<"ty">>, <<"ty", "ty">>, <<"ty", "ty">>, <<"ty", "ty", "ty">>,
                              <<"const", "ty">>, <<"ty", "const", "ty">>, <<"ty", "const">>, <<"const", "ty", "const", "ty">>,
                              <<"ty", "ty", "const", "ty", "ty", "ty">> >>)
      d0 == [ps |-> ps]
      tps == TyParams(d0)
      cps == SelectSeq([x \in 1..Len(ps) |-> x - 1], LAMBDA x : ps[x + 1] = "const")
      lt == IF Chance(Sub(s, 2), 1, 4) THEN 1 ELSE 0
      nv == From(Sub(s, 3), <<1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 5, 5, 13>>)
      enum == nv > 1 \/ Chance(Sub(s, 4), 1, 6)
      nf(v) == From(Sub(s, 100 + v), IF enum THEN <<0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 9>> ELSE <<1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 12, 27>>)
      drawn == [v \in 1..nv |-> [x \in 1..nf(v) |-> IF Chance(Sub(Sub(s, 250 + v), x), 1, 30) THEN Tower(Sub(Sub(s, 200 + v), x), 4 + Below(Sub(Sub(s, 260 + v), x), 5), tps)
                                              ELSE GenTy(Sub(Sub(s, 200 + v), x), IF nf(v) > 8 THEN 1 ELSE 3, tps, cps, prev)]]
      used == UNION {UNION {Params(drawn[v][x]) : x \in DOMAIN drawn[v]} : v \in DOMAIN drawn}
      missing == SelectSeq(tps, LAMBDA x : x \notin used)
      \* unused parameters get a field of their own, a lifetime is used by a reference
      extra == [x \in 1..Len(missing) |-> IF Chance(Sub(s, 300 + x), 1, 2) THEN Ty("Phantom", <<V(missing[x])>>) ELSE V(missing[x])]
               \o (IF lt = 1 THEN <<LitTy(5)>> ELSE <<>>)
      vs == [drawn EXCEPT ![nv] = @ \o extra]
      all == UNION {{vs[v][x] : x \in DOMAIN vs[v]} : v \in DOMAIN vs}
      style(v) == IF Len(vs[v]) = 0 THEN From(Sub(s, 400 + v), <<"unit", "unit", "tuple", "named">>) ELSE From(Sub(s, 400 + v), <<"tuple", "named">>)
  IN  [ps |-> ps, np |-> Len(ps), lt |-> lt, enum |-> enum, vs |-> vs,
       styles |-> [v \in 1..nv |-> style(v)],
       names |-> Below(Sub(s, 5), 1000),
       kps |-> UNION {KeyPs(ty, prev) : ty \in all},
       heap |-> \E ty \in all : UsesHeap(ty, prev)]

-----------------------------------------------------------------------------
(* Values: first the shape (tokens unnumbered), then numbers, then normal form *)
RECURSIVE GenVal(_, _, _, _)
GenVal(s, ty, sizes, dd) ==
  LET el(x) == GenVal(Sub(s, 10 + x), ty.a[1], sizes, dd)
      size == From(Sub(s, 1), sizes)
  IN
  CASE ty.c \in {"V", "P", "O"} -> Tok(0, 0)
    [] ty.c = "L" -> Lit(IF ty.n = 4 THEN 0 ELSE Below(s, 250))
    [] ty.c = "Paren" -> el(1)
    [] ty.c = "Tup" -> Node("Tup", 0, [x \in 1..Len(ty.a) |-> GenVal(Sub(s, 10 + x), ty.a[x], sizes, dd)])
    [] ty.c = "Arr" -> Node("Arr", 0, [x \in 1..ty.n |-> el(x)])
    [] ty.c \in OneC -> Node(ty.c, 0, <<el(1)>>)
    [] ty.c \in TwoC -> Node(ty.c, 0, <<el(1), el(2)>>)
    [] ty.c \in OptC -> IF Chance(Sub(s, 2), 1, 5) THEN Node(ty.c, 0, <<>>) ELSE Node(ty.c, 1, <<el(1)>>)
    [] ty.c \in BoundC -> LET x == Below(Sub(s, 2), 5) IN IF x = 4 THEN Node(ty.c, 2, <<>>) ELSE Node(ty.c, x % 2, <<el(1)>>)
    [] ty.c = "Phantom" -> Node("Phantom", 0, <<>>)
    [] ty.c \in ListC \cup SetC \cup HeapC -> Node(ty.c, 0, [x \in 1..size |-> el(x)])
    [] ty.c \in MapC -> Node(ty.c, 0, [x \in 1..size |->
          Node("KV", 0, <<GenVal(Sub(s, 10 + 2 * x), ty.a[1], sizes, dd), GenVal(Sub(s, 11 + 2 * x), ty.a[2], sizes, dd)>>)])
    [] ty.c \in SumC -> LET x == Below(Sub(s, 2), 2) IN Node(ty.c, x, <<GenVal(Sub(s, 10), ty.a[x + 1], sizes, dd)>>)
    [] ty.c = "User" ->
         LET def == dd[ty.n]
             x == Below(Sub(s, 2), Len(def.vs))
             Inst(t) == LET RECURSIVE I(_)
                            I(q) == IF q.c = "V" THEN ty.a[q.n + 1]
                                    ELSE IF q.c \in {"Arr", "K"} /\ q.n < 0
                                    THEN [q EXCEPT !.a = [j \in DOMAIN q.a |-> I(q.a[j])], !.n = ty.a[0 - q.n].n]
                                    ELSE [q EXCEPT !.a = [j \in DOMAIN q.a |-> I(q.a[j])]]
                        IN I(t)
         IN  Node("User", x, [j \in 1..Len(def.vs[x + 1]) |-> GenVal(Sub(s, 10 + j), Inst(def.vs[x + 1][j]), sizes, dd)])

RECURSIVE Numb(_, _), NumbSeq(_, _, _)
Numb(v, n) == IF v.c = "t" THEN [v |-> [v EXCEPT !.t = n + 1, !.y = ((n + 1) * 389 + Seed * 7) % 1009], n |-> n + 1]
              ELSE LET r == NumbSeq(v.k, <<>>, n) IN [v |-> [v EXCEPT !.k = r.v], n |-> r.n]
NumbSeq(s, acc, n) == IF Len(acc) = Len(s) THEN [v |-> acc, n |-> n]
                      ELSE LET r == Numb(s[Len(acc) + 1], n) IN NumbSeq(s, Append(acc, r.v), r.n)

\* makes elements equal
RECURSIVE Alike(_, _)
Alike(v, q) == IF v.c = "t" THEN [v EXCEPT !.y = v.y % q] ELSE [v EXCEPT !.k = [x \in DOMAIN v.k |-> Alike(v.k[x], q)]]

RECURSIVE Norm(_)
Norm(v) ==
  LET ks == [x \in DOMAIN v.k |-> Norm(v.k[x])]
      key(x) == KeyOf(v.c, ks[x])
      firsts == SelectSeq([x \in 1..Len(ks) |-> x], LAMBDA x : \A z \in 1..(x - 1) : Cmp(key(x), key(z)) # 0)
      uniq == [x \in 1..Len(firsts) |-> ks[firsts[x]]]
  IN [v EXCEPT !.k = IF v.c \in BSetC \cup BMapC THEN SortSeq(uniq, LAMBDA a, b : Cmp(KeyOf(v.c, a), KeyOf(v.c, b)) < 0)
                     ELSE IF v.c \in KeyedC THEN uniq ELSE ks]

\* values are kept below Cap tokens by drawing smaller containers
Cap == 40
Value(s, ty, sizes, dd, alike) ==
  LET v(q) == LET n == Numb(GenVal(s, ty, q, dd), 0).v IN Norm(IF alike > 0 THEN Alike(n, alike) ELSE n)
      a == v(sizes)
  IN IF Len(TokSeq(a)) <= Cap THEN a
     ELSE LET b == v(<<0, 1, 1, 2>>) IN IF Len(TokSeq(b)) <= Cap THEN b
     ELSE LET c == v(<<0, 1, 1>>) IN IF Len(TokSeq(c)) <= Cap THEN c ELSE v(<<0, 0, 1>>)

-----------------------------------------------------------------------------
(* Replies *)
Inj(s) == [a |-> 1 + Below(Sub(s, 1), 1008), b |-> Below(Sub(s, 2), 1009), m |-> 1009]
Coll(s) == [a |-> 1, b |-> Below(Sub(s, 2), 5), m |-> 1 + Below(Sub(s, 1), 4)]
Same == [a |-> 1, b |-> 0, m |-> 1009]
\* first f, then g, in one go (both modulo 1009)
Then(f, g) == [a |-> (f.a * g.a) % 1009, b |-> (f.b * g.a + g.b) % 1009, m |-> 1009]

Fail(t, k) == [t |-> t, k |-> k]
Idx(t, q) == CHOOSE x \in DOMAIN q : q[x] = t
\* a step: map parameter `arg', by func_map ("F") or try_func_map ("T"), by the plain method or the
\* *_over one, from tokens of generation `from' to `to' (on the level of types)
Step(arg, tr, over, from, to, kf, fails) ==
  [arg |-> arg, tr |-> tr, over |-> over, from |-> from, to |-> to, kf |-> kf, fails |-> fails]
S1(arg, tr, over, kf, fails) == <<Step(arg, tr, over, 0, 1, kf, fails)>>
\* cases of the same group (grp # "") have to agree; val names the value they start from
\* lay: how the elements of each generation are laid out in memory
Case(tag, val, steps, grp, lay) == [tag |-> tag, val |-> val, steps |-> steps, grp |-> grp, lay |-> lay]
\* plain: three words; fat: large and aligned to 64 bytes; long and wide: the same size, different alignments;
\* nil: no size at all (the runtime hands out identities in the order of creation)
Sized3 == << <<"Plain", "Plain", "Plain">>, <<"Plain", "Fat", "Plain">>, <<"Fat", "Plain", "Long">>, <<"Long", "Wide", "Fat">>, <<"Wide", "Long", "Wide">> >>
Nil3   == << <<"Plain", "Nil", "Plain">>, <<"Nil", "Plain", "Plain">>, <<"Nil", "Nil", "Plain">> >>
\* types whose elements are made and looked at in the same order
NilC == OneC \cup TwoC \cup OptC \cup BoundC \cup SumC \cup ListC
Layout(c, x) == LET q == IF c \in NilC THEN Sized3 \o Nil3 ELSE Sized3 IN q[(x % Len(q)) + 1]
SizedLayout(x) == Sized3[(x % Len(Sized3)) + 1]
Emit(x) == PrintT("CASE " \o ToJson(x))
EmitVal(val, ty, v) == PrintT("VAL " \o ToJson([val |-> val, ty |-> ty, v |-> v]))

On(tag) == IOEnv["T_" \o tag] = "1"
Kinds(tr) == IF tr = "F" THEN {"p"} ELSE {"e", "p"}
If(c, S) == IF c THEN S ELSE {}

-----------------------------------------------------------------------------
(* Library roots: every constructor, both traits, every small failure *)
LibSizes == {x \in {0, 1, 2, 3, 4, 5, 8, 9, 13, 16, 17, 31, 33, 64, 100} : x <= SizeMax}
ArrSizes == {x \in {0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 256} : x <= 3 * SizeMax}
\* a few large ones, with few cases each
BigMax == atoi(IOEnv.BIGMAX)
Large == 101
BigSizes(c) == LET S == {x \in (IF c \in KeyedC \cup HeapC THEN {150, 257} ELSE {150, 260, 520, 1030}) : x <= BigMax}
               IN  IF c = "Arr" THEN {x \in S : x > 300} ELSE S
LibSeq == <<"Box", "Cell", "RefCell", "UnsafeCell", "RangeFrom", "RangeTo", "RangeToInclusive", "Range", "RangeInclusive",
            "Option", "OptIter", "ResIter", "Poll", "Bound", "Arr", "Vec", "VecIter", "VecDeque", "VecDequeIter", "LinkedList",
            "LinkedListIter", "Phantom", "BTreeSet", "BTreeSetIter", "HashSet", "HashSetIter", "BinaryHeap", "BinaryHeapIter",
            "BTreeMap", "BTreeMapIter", "HashMap", "HashMapIter", "Result", "ControlFlow">>

LibArgs(c) == 0..(ArgCount(c) - 1)
LibTy(c, n) == TyN(c, [x \in 1..ArgCount(c) |-> TyP], IF c = "Arr" THEN n ELSE 0)
Shapes(c) ==
  CASE c \in OneC -> {Node(c, 0, <<Tok(0, 0)>>)}
    [] c \in TwoC -> {Node(c, 0, <<Tok(0, 0), Tok(0, 0)>>)}
    [] c \in OptC -> {Node(c, 0, <<>>), Node(c, 1, <<Tok(0, 0)>>)}
    [] c \in BoundC -> {Node(c, 0, <<Tok(0, 0)>>), Node(c, 1, <<Tok(0, 0)>>), Node(c, 2, <<>>)}
    [] c = "Phantom" -> {Node(c, 0, <<>>)}
    [] c \in SumC -> {Node(c, 0, <<Tok(0, 0)>>), Node(c, 1, <<Tok(0, 0)>>)}
    [] c = "Arr" -> {Node(c, 0, [x \in 1..n |-> Tok(0, 0)]) : n \in ArrSizes \cup BigSizes(c)}
    [] c \in (ListC \cup SetC \cup HeapC) \ {"Arr"} -> {Node(c, 0, [x \in 1..n |-> Tok(0, 0)]) : n \in LibSizes \cup BigSizes(c)}
    [] c \in MapC -> {Node(c, 0, [x \in 1..n |-> Node("KV", 0, <<Tok(0, 0), Tok(0, 0)>>)]) : n \in LibSizes \cup BigSizes(c)}

\* failure positions worth trying among n calls
Spots(s, n) == IF n <= 5 THEN 1..n ELSE {1, 2, n - 1, n, 3 + Below(s, n - 4)}
Mappable(ty, arg, v) ==       \* the tokens that will be mapped
  CASE v.c \in MapC -> [x \in 1..Len(v.k) |-> v.k[x].k[arg + 1].t]
    [] v.c \in SumC -> IF v.v = arg THEN <<v.k[1].t>> ELSE <<>>
    [] OTHER -> [x \in 1..Len(v.k) |-> v.k[x].t]

\* the laws, for one value: identity, composition
Laws(val, arg, z, g, trs, lay) ==
  LET f == Inj(Sub(z, 71)) h == Inj(Sub(z, 72)) IN
  UNION {{Case("id", val, <<Step(arg, tr, Below(Sub(z, 73), 2), 0, 0, Same, <<>>)>>, "", lay),
          Case("law", val, <<Step(arg, tr, 0, 0, 1, f, <<>>), Step(arg, tr, 1, 1, 2, h, <<>>)>>, g \o tr, lay),
          Case("law", val, <<Step(arg, tr, 0, 0, 2, Then(f, h), <<>>)>>, g \o tr, lay)} : tr \in trs}
Commute(val, a1, a2, z, g, lay) ==
  LET f == Inj(Sub(z, 74)) h == Inj(Sub(z, 75)) IN
  UNION {{Case("comm", val, <<Step(a1, tr, 1, 0, 1, f, <<>>), Step(a2, tr, 1, 0, 1, h, <<>>)>>, g \o tr, lay),
          Case("comm", val, <<Step(a2, tr, 1, 0, 1, h, <<>>), Step(a1, tr, 1, 0, 1, f, <<>>)>>, g \o tr, lay)} : tr \in {"F", "T"}}

AlikeSizes == {2, 3, 5, 9, 17}
LibCases(c, s) ==
  UNION {UNION {UNION {
    LET v0 == Numb(sh, 0).v
        v == Norm(IF alike > 0 THEN Alike(v0, alike) ELSE v0)
        n == Len(v.k)
        ty == LibTy(c, n)
        ts == Mappable(ty, arg, v)
        z == Sub(s, n + 7 * arg + 100 * v.v)
        val == "L." \o c \o "." \o ToString(v.v) \o "." \o ToString(n) \o (IF alike > 0 THEN "a" ELSE "")
        g == val \o "." \o ToString(arg)
        \* some keys collide in every other group of cases
        big == n >= Large
        flat == [a |-> 0, b |-> 5, m |-> 8]
        kfs == IF c \in (ListC \cup HeapC) \ KeyedC /\ ~On("COLL") /\ n \in AlikeSizes THEN {Inj(z), flat}
               ELSE IF ~big /\ c \in KeyedC \cup HeapC /\ On("COLL") THEN {Inj(z), Coll(z), flat} ELSE {Inj(z)}
        lay(x) == Layout(c, Below(Sub(z, 500 + x), 100) + n)
        slay == SizedLayout(Below(Sub(z, 600), 100))
        ok(tag, grp) == {Case(tag, val, S1(arg, tr, over, kf, <<>>), IF grp THEN g \o ToString(kf) ELSE "",
                              lay(IF grp THEN kf.b ELSE over + kf.b + (IF tr = "F" THEN 0 ELSE 2))) :
                           tr \in {"F", "T"}, over \in (IF big /\ ~grp THEN {n % 2} ELSE {0, 1}), kf \in kfs}
        one == UNION {{Case("fail", val, S1(arg, tr, x % 2, Inj(z), <<Fail(ts[x], k)>>), "", lay(x)) :
                 k \in Kinds(tr)} : tr \in {"F", "T"}, x \in IF big THEN {Len(ts) - 1 - Below(z, 9)} ELSE Spots(z, Len(ts))}
        two == IF big \/ Len(ts) < 2 THEN {} ELSE
               {Case("fail", val, S1(arg, "T", 1 - (x % 2), Coll(z), <<Fail(ts[x], k), Fail(ts[Len(ts)], "e")>>), "", lay(x)) :
                  x \in Spots(z, Len(ts)) \ {Len(ts)}, k \in {"e", "p"}}
        \* one call fails, and the destructor of another element panics
        all == TokSeq(v)
        boom(x) == LET d == From(Sub(z, 700 + x), [y \in 1..(Len(all) - 1) |-> IF y >= Idx(ts[x], all) THEN all[y + 1] ELSE all[y]])
                   IN  Case("fail", val, S1(arg, "T", x % 2, Inj(z), <<Fail(ts[x], "e"), Fail(d, "d")>>), "", lay(x))
        three == IF Len(all) < 2 \/ ~On("BOOM") THEN {} ELSE {boom(x) : x \in IF big THEN {Len(ts) - 1 - Below(z, 9)} ELSE Spots(z, Len(ts))}
    IN If(arg > 0 \/ EmitVal(val, ty, v), {}) \cup If(On("OK"), ok("ok", FALSE)) \cup If(On("EQV"), ok("eqv", TRUE)) \cup If(On("FAIL"), one \cup two \cup three)
       \cup If(On("LAW") /\ (~big \/ n < 300), Laws(val, arg, z, g, {"F", "T"}, slay))
       \cup If(On("COMM") /\ n < 200 /\ ArgCount(c) = 2 /\ arg = 0, Commute(val, 0, 1, z, g, slay))
    : alike \in IF c \in ListC \cup HeapC /\ Len(sh.k) \in AlikeSizes THEN {0, 3} ELSE {0}} : sh \in Shapes(c)} : arg \in LibArgs(c)}

-----------------------------------------------------------------------------
(* User roots *)
RootTy(n, def) == TyN("User", [x \in 1..Len(def.ps) |-> IF def.ps[x] = "const" THEN Konst(x) ELSE TyP], n)
AsSet(q) == {q[x] : x \in DOMAIN q}

UserCases(n, s, dd) ==
  LET def == dd[n]
      ty == RootTy(n, def)
  IN UNION {
    LET z == Sub(s, 50 + w)
        v == Value(z, ty, IF w = 1 THEN <<1, 2, 2, 3>> ELSE IF SizeMax > 9 /\ w > 4 THEN <<0, 1, 2, 3, 4, 5, 9>> ELSE <<0, 1, 1, 2, 3, 4>>, dd,
                   IF Chance(Sub(z, 11), 1, 4) THEN 2 + Below(Sub(z, 12), 4) ELSE 0)
        ts == TokSeq(v)
        inj == Inj(z)
        slay == SizedLayout(Below(Sub(Sub(s, 9), n), 100))
        val == "U." \o ToString(n) \o "." \o ToString(w)
        g == val
        kf == IF On("COLL") /\ def.kps # {} /\ ~def.heap /\ Chance(Sub(z, 1), 1, 2) THEN Coll(z) ELSE inj
        pick(x) == From(Sub(z, 60 + x), ts)
        args == AsSet(def.tps)
        ok == {Case("ok", val, S1(arg, tr, (w + arg) % 2, kf, <<>>), "", slay) : arg \in args, tr \in {"F", "T"}}
        eqv == {Case("eqv", val, S1(arg, tr, over, kf, <<>>), g \o "." \o ToString(arg), slay) : arg \in args, tr \in {"F", "T"}, over \in {0, 1}}
        fails == IF ts = <<>> THEN {} ELSE
                 UNION {{Case("fail", val, S1(arg, "T", x % 2, inj, <<Fail(pick(x + 10 * arg), "e")>>), "", slay),
                         Case("fail", val, S1(arg, "T", 1 - (x % 2), inj, <<Fail(pick(x + 10 * arg + 3), "p"), Fail(pick(x + 10 * arg + 5), "e")>>), "", slay),
                         Case("fail", val, S1(arg, "T", x % 2, inj, <<Fail(pick(x + 10 * arg + 6), "e"), Fail(pick(x + 10 * arg + 7), "e")>>), "", slay),
                         Case("fail", val, S1(arg, "F", x % 2, inj, <<Fail(pick(x + 10 * arg + 8), "p")>>), "", slay)}
                         : arg \in args, x \in 1..2}
        booms == IF Len(ts) < 2 \/ ~On("BOOM") THEN {} ELSE
                 {LET t == pick(x + 10 * arg + 9)
                      y == Idx(t, ts)
                      d == From(Sub(z, 800 + x + 10 * arg), [q \in 1..(Len(ts) - 1) |-> IF q >= y THEN ts[q + 1] ELSE ts[q]])
                  IN  Case("fail", val, S1(arg, "T", x % 2, inj, <<Fail(t, "e"), Fail(d, "d")>>), "", slay) : arg \in args, x \in 1..4}
        pairs == {<<a1, a2>> \in args \X args : a1 < a2}
    IN If(EmitVal(val, ty, v), {}) \cup If(On("OK"), ok) \cup If(On("EQV"), eqv) \cup If(On("FAIL"), fails \cup booms)
       \cup If(On("LAW"), UNION {Laws(val, arg, Sub(z, 80 + arg), g \o "." \o ToString(arg), {IF (n + arg) % 2 = 0 THEN "F" ELSE "T"}, slay) : arg \in args})
       \cup If(On("COMM"), UNION {Commute(val, p[1], p[2], Sub(z, 90 + p[1] + 7 * p[2]), g \o "." \o ToString(p[1]) \o "." \o ToString(p[2]), slay) : p \in pairs})
    : w \in 1..NVals}

-----------------------------------------------------------------------------
EmitAll(S) == \A x \in S : Emit(x)

Init == ds = <<>> /\ phase = "defs" /\ i = 1

NewDef ==
  /\ phase = "defs" /\ Len(ds) < NDefs
  /\ LET d == GenDef(Sub(Sub(Seed, 1), Len(ds)), ds)
         d1 == [ps |-> d.ps, np |-> d.np, lt |-> d.lt, enum |-> d.enum, vs |-> d.vs, styles |-> d.styles, names |-> d.names,
                kps |-> d.kps, heap |-> d.heap, tps |-> TyParams(d)]
     IN  /\ ds' = Append(ds, d1)
         /\ PrintT("DEF " \o ToJson(d1))
  /\ UNCHANGED <<phase, i>>

DefsDone == /\ phase = "defs" /\ Len(ds) = NDefs /\ phase' = "lib" /\ i' = 1 /\ UNCHANGED ds

LibStep ==
  /\ phase = "lib" /\ i <= Len(LibSeq)
  /\ (On("LIB") => EmitAll(LibCases(LibSeq[i], Sub(Sub(Seed, 2), i))))
  /\ IF i = Len(LibSeq) THEN phase' = "user" /\ i' = 1 ELSE phase' = phase /\ i' = i + 1
  /\ UNCHANGED ds

UserStep ==
  /\ phase = "user" /\ i <= Len(ds)
  /\ EmitAll(UserCases(i, Sub(Sub(Seed, 3), i), ds))
  /\ i' = i + 1 /\ UNCHANGED <<ds, phase>>

Next == NewDef \/ DefsDone \/ LibStep \/ UserStep
=============================================================================
