------------------------------ MODULE GenHygiene --------------------------------
(***************************************************************************)
(* Draws scenarios, runs the machine on each, and emits them.              *)
(* MODE "random": scenarios without holes (they have to work)              *)
(* MODE "holes":  the smallest scenarios for the holes of the design       *)
(***************************************************************************)
EXTENDS Hygiene, Rnd, Json, IOUtils
NItems == atoi(IOEnv.NITEMS)
Seed   == atoi(IOEnv.GENSEED)
Mode   == IOEnv.MODE
VARIABLES i, sc, m
vars == <<i, sc, m>>

Prelude == <<"Option", "Some", "None", "Ok", "Err", "Result", "Sized", "FnMut", "Fn", "Box", "Vec", "Drop", "Clone", "Copy", "Iterator", "Into", "From", "String", "u8", "usize", "str", "bool">>
Lib == <<"core", "std", "alloc", "funcmap", "FuncMap", "TryFuncMap", "TypeParam", "Output", "func_map", "try_func_map", "func_map_over", "ops", "marker", "result", "compile_error">>
Gens == <<"A", "B", "E", "F", "A", "B", "E", "F", "C", "D", "G", "T", "U", "Z">>
Low == <<"f", "value", "field_0", "field_1", "field_x", "x", "r", "self_", "a", "b", "field_f", "_0", "uni1", "__f">>
Fm == <<"__FUNCMAP_A", "__FUNCMAP_B", "__FUNCMAP_F", "__FUNCMAP_E">>
Kw == <<"await", "match", "type", "fn", "async", "dyn", "try", "gen", "loop", "struct", "impl">>
Pool == <<Prelude, Lib, Gens, Gens, Low, Low, Fm, Kw>>
AnyName(s) == From(Sub(s, 2), From(Sub(s, 1), Pool))
TyName(s) == From(Sub(s, 2), From(Sub(s, 1), <<Gens, Gens, Gens, Prelude, Lib, Low, Fm, Kw>>))

\* the first of the draws that is not among the taken ones
RECURSIVE Draw(_, _, _, _)
Draw(s, taken, what, tries) ==
  LET x == CASE what = "any" -> AnyName(Sub(s, tries)) [] what = "ty" -> TyName(Sub(s, tries)) [] what = "low" -> From(Sub(s, tries), Low \o Kw \o Gens) IN
  IF x \notin taken THEN x ELSE IF tries > 40 THEN "q" \o ToString(Cardinality(taken)) \o what ELSE Draw(s, taken, what, tries + 1)
RECURSIVE Names(_, _, _, _)
Names(s, taken, what, k) == IF k = 0 THEN <<>> ELSE LET x == Draw(Sub(s, k), taken, what, 1) IN <<x>> \o Names(s, taken \cup {x}, what, k - 1)

Kinds == <<"struct", "struct", "struct", "tstruct", "enum", "trait", "btrait", "mod", "mod", "alias", "fn", "fn", "const", "static">>
Orders == << <<"ty">>, <<"ty">>, <<"ty", "ty">>, <<"ty", "ty">>, <<"ty", "const">>, <<"const", "ty">>, <<"lt", "ty">>, <<"lt", "ty", "ty">>, <<"ty", "const", "ty">>, <<"ty", "ty", "ty">> >>
Ty(c, p, n) == [c |-> c, p |-> p, n |-> n]

Scenario(s) ==
  LET ks == From(Sub(s, 1), Orders)
      pn == Names(Sub(s, 2), {}, "ty", Len(ks))
      item == Draw(Sub(s, 3), IF Chance(Sub(s, 4), 1, 20) THEN {} ELSE Set(pn), "any", 1)
      en == Names(Sub(s, 5), {item}, "any", Below(Sub(s, 6), 7))
      env0 == [x \in DOMAIN en |-> [n |-> en[x], k |-> From(Sub(s, 100 + x), Kinds)]]
      alph == From(Sub(s, 7), <<0, 0, 0, 0, 0, 0, 0, 1, 1, 2>>)
      fmletters == [x \in 1..26 |-> Prefixed(Letters[x], 1)]
      extra == SelectSeq(IF alph = 0 THEN <<>> ELSE IF alph = 1 THEN Letters ELSE Letters \o fmletters, LAMBDA x : x \notin Set(pn) \cup {item} \cup Set(en))
      env == env0 \o [x \in DOMAIN extra |-> [n |-> extra[x], k |-> "struct"]]
      usable == SelectSeq(env0, LAMBDA e : e.k \in {"struct", "tstruct", "enum", "alias"} /\ e.n \notin Set(pn))
      un == [x \in DOMAIN usable |-> usable[x].n]
      tys == SelectSeq([x \in DOMAIN ks |-> x], LAMBDA x : ks[x] = "ty")
      sel0 == SelectSeq(tys, LAMBDA x : Chance(Sub(s, 20 + x), 2, 3))
      all == Chance(Sub(s, 8), 1, 2)
      sel == IF all THEN tys ELSE IF sel0 = <<>> THEN <<From(Sub(s, 9), tys)>> ELSE sel0
      ps == [x \in DOMAIN ks |-> [k |-> ks[x], n |-> pn[x], raw |-> Chance(Sub(s, 30 + x), 1, 6), sel |-> x \in Set(sel),
                                  b |-> IF ks[x] # "ty" \/ un = <<>> \/ Chance(Sub(s, 40 + x), 1, 2) THEN <<>> ELSE <<From(Sub(s, 50 + x), un)>>]]
      kind == From(Sub(s, 10), <<"struct", "struct", "enum">>)
      nv == IF kind = "struct" THEN 1 ELSE 1 + Below(Sub(s, 11), 3)
      vn == IF kind = "struct" THEN <<"">> ELSE Names(Sub(s, 12), {"Output"}, "any", nv)
      st == [v \in 1..nv |-> From(Sub(s, 60 + v), IF kind = "enum" /\ v > 1 THEN <<"tuple", "named", "unit">> ELSE <<"tuple", "named">>)]
      fty(s2) == LET r == Below(Sub(s2, 1), 10) p == From(Sub(s2, 2), tys) IN
                 IF r < 3 THEN Ty("V", p, "") ELSE IF r < 5 THEN Ty("Opt", p, "") ELSE IF r = 5 THEN Ty("Arr", p, "") ELSE IF r = 6 THEN Ty("Tup", p, "")
                 ELSE IF un = <<>> THEN Ty("V", p, "") ELSE Ty("Env", 0, From(Sub(s2, 3), un))
      first == [x \in DOMAIN ks |-> IF ks[x] = "lt" THEN Ty("Lt", x, "") ELSE IF ks[x] = "ty" THEN Ty(From(Sub(s, 70 + x), <<"V", "Opt", "Ph", "Arr", "Tup">>), x, "") ELSE Ty("Kc", x, "")]
      tyseq(v) == IF st[v] = "unit" THEN <<>> ELSE (IF v = 1 THEN SelectSeq(first, LAMBDA t : t.c # "Kc") ELSE <<>>) \o [x \in 1..Below(Sub(s, 80 + v), 3) |-> fty(Sub(Sub(s, 90 + v), x))]
      fields(v) == LET ts == tyseq(v) ns == IF st[v] = "named" THEN Names(Sub(s, 110 + v), {}, "low", Len(ts)) ELSE <<>> IN
                   [x \in DOMAIN ts |-> [n |-> IF st[v] = "named" THEN ns[x] ELSE "", raw |-> FALSE, ty |-> ts[x]]]
      vs == [v \in 1..nv |-> [n |-> vn[v], raw |-> FALSE, style |-> st[v], fs |-> fields(v)]]
      mods == SelectSeq(env0, LAMBDA e : e.k = "mod")
      pf == IF mods = <<>> THEN From(Sub(s, 13), <<"none", "none", "abs">>) ELSE From(Sub(s, 13), <<"rel", "rel", "self", "crate", "none">>)
      pm == IF mods = <<>> THEN "" ELSE From(Sub(s, 14), mods).n
      macn == IF un = <<>> \/ Chance(Sub(s, 15), 3, 5) THEN <<>> ELSE <<From(Sub(s, 16), un)>>
  IN [env |-> env, item |-> [n |-> item, raw |-> Chance(Sub(s, 17), 1, 8)], kind |-> kind, style |-> st[1], ps |-> ps, vs |-> vs, extra |-> extra,
      macs |-> macn, path |-> IF pf = "rel" THEN pm ELSE "", derives |-> From(Sub(s, 18), << <<"FuncMap", "TryFuncMap">>, <<"TryFuncMap", "FuncMap">>, <<"FuncMap">>, <<"TryFuncMap">> >>),
      pform |-> pf, pmod |-> pm, all |-> all, place |-> From(Sub(s, 19), <<"mod", "mod", "fn", "const", "macro", "macrohard">>), nip |-> Chance(Sub(s, 99), 1, 4),
      edition |-> From(Sub(s, 98), <<"2015", "2018", "2021", "2021", "2024">>), spell |-> Below(Sub(s, 97), 1000), plain |-> Chance(Sub(s, 96), 1, 3)]

-----------------------------------------------------------------------------
P1(k, n, sel) == [k |-> k, n |-> n, raw |-> FALSE, sel |-> sel, b |-> <<>>]
F1(n, ty) == [n |-> n, raw |-> FALSE, ty |-> ty]
Base(env, item, ps, st, fs) == [env |-> env, item |-> [n |-> item, raw |-> FALSE], kind |-> "struct", style |-> st, ps |-> ps, extra |-> <<>>, macs |-> <<>>, path |-> "",
  vs |-> <<[n |-> "", raw |-> FALSE, style |-> st, fs |-> fs]>>, derives |-> <<"FuncMap">>, pform |-> "none", pmod |-> "", all |-> TRUE, place |-> "mod", nip |-> FALSE, edition |-> "2021", spell |-> 0, plain |-> FALSE]
En(n, k) == [n |-> n, k |-> k]
TT == <<P1("ty", "T", TRUE)>>
FT == <<F1("", Ty("V", 1, ""))>>
Holes == <<
  [Base(<<>>, "S", TT, "tuple", FT) EXCEPT !.kind = "enum", !.vs[1].n = "Output"],
  Base(<<En("f", "const")>>, "S", TT, "tuple", FT), Base(<<En("f", "static")>>, "S", TT, "tuple", FT), Base(<<En("f", "struct")>>, "S", TT, "tuple", FT), Base(<<En("f", "tstruct")>>, "S", TT, "tuple", FT),
  Base(<<En("field_0", "const")>>, "S", TT, "tuple", FT), Base(<<En("field_x", "struct")>>, "S", TT, "named", <<F1("x", Ty("V", 1, ""))>>),
  Base(<<En("value", "const")>>, "S", TT, "tuple", <<F1("", Ty("Opt", 1, ""))>>), Base(<<En("value", "static")>>, "S", TT, "tuple", <<F1("", Ty("Opt", 1, ""))>>),
  Base(<<>>, "f", TT, "tuple", FT), Base(<<>>, "field_0", TT, "tuple", FT), Base(<<>>, "value", TT, "tuple", <<F1("", Ty("Opt", 1, ""))>>),
  Base(<<>>, "S", TT \o <<P1("const", "f", FALSE)>>, "tuple", FT), Base(<<>>, "S", TT \o <<P1("const", "field_0", FALSE)>>, "tuple", FT),
  Base(<<>>, "T", TT, "tuple", FT), Base(<<>>, "S", <<P1("ty", "S", FALSE), P1("ty", "T", TRUE)>>, "tuple", <<F1("", Ty("V", 1, "")), F1("", Ty("V", 2, ""))>>),
  [Base(<<En("T", "mod")>>, "S", TT, "tuple", FT) EXCEPT !.path = "T", !.pform = "rel", !.pmod = "T"],
  [Base(<<>>, "S", TT, "named", <<F1("async", Ty("V", 1, ""))>>) EXCEPT !.edition = "2015", !.plain = TRUE],
  [Base(<<>>, "S", TT, "named", <<F1("dyn", Ty("V", 1, ""))>>) EXCEPT !.edition = "2015", !.plain = TRUE],
  [Base(<<>>, "try", TT, "named", <<F1("x", Ty("V", 1, ""))>>) EXCEPT !.edition = "2015", !.plain = TRUE] >>

-----------------------------------------------------------------------------
Count == IF Mode = "holes" THEN Len(Holes) ELSE NItems
Get(k) == IF Mode = "holes" THEN Holes[k] ELSE Scenario(Sub(Sub(Seed, 1), k))
\* drawn scenarios without holes only
\* (nor a parameter in a macro, nor a macro that gives one of the prefixed names)
Skips(x) == Mode = "random" /\ (Hole(x) \/ Set(x.macs) \cap ({p.n : p \in Set(x.ps)} \cup Set(Fm)) # {})
Init == i = 1 /\ sc = Get(1) /\ m = StartM
Skip == i <= Count /\ m.ph = "collect" /\ Skips(sc) /\ i' = i + 1 /\ sc' = (IF i < Count THEN Get(i + 1) ELSE sc) /\ UNCHANGED m
Run == i <= Count /\ ~(m.ph = "collect" /\ Skips(sc)) /\ m.ph # "done" /\ m' = Step(m, sc) /\ UNCHANGED <<i, sc>>
Emit == /\ i <= Count /\ m.ph = "done"
        /\ Assert(Immune(m, sc), <<"the model captures a name", sc, m>>)
        /\ PrintT("ITEM " \o ToJson([id |-> i, sc |-> sc, got |-> m.got, cap |-> m.cap # {}]))
        /\ i' = i + 1 /\ m' = StartM /\ sc' = (IF i < Count THEN Get(i + 1) ELSE sc)
Next == Skip \/ Run \/ Emit
Freshness == Fresh(m, sc)
=============================================================================
