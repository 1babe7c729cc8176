------------------------------- MODULE Hygiene --------------------------------
(***************************************************************************)
(* Names.  A scenario is a declaration together with what its names are    *)
(* and what else is in scope; the machine collects the identifiers of the  *)
(* declaration, picks names for the generated parameters, lays out the     *)
(* scopes of the generated code and resolves every name in it, one by one. *)
(* A name is captured if it resolves to something else than it should.     *)
(*                                                                         *)
(* A scenario is a record                                                  *)
(*   env    what is in scope at the declaration: sequence of [n, k]        *)
(*   item   [n, raw]  name of the type                                     *)
(*   kind   "struct" or "enum";   style "tuple" or "named" or "unit"       *)
(*   ps     parameters [k, n, raw, sel, b]: k = "ty", "lt", "const"; sel:  *)
(*          mapped; b: the types in its bound                              *)
(*   vs     variants [n, raw, style, fs], fs fields [n, raw, ty]           *)
(*   extra  further names of types in the declaration, in a last field     *)
(*   macs   names that come out of macros inside the declaration           *)
(*   path   first name of the path of the library, "" for an absolute path *)
(*   derives  which of the two traits                                      *)
(*   edition, plain  keywords of later editions are written without r#     *)
(* Field types: [c, p, n]: V, Opt, Arr, Tup, Ph of parameter p, Env of     *)
(* name n, Lt of the first lifetime.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Letters == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Pos(l) == CHOOSE i \in 1..26 : Letters[i] = l
Set(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))

-----------------------------------------------------------------------------
(* The identifiers of a declaration, in the order in which they occur *)
FieldNames(f) == (IF f.n = "" THEN <<>> ELSE <<f.n>>) \o (IF f.ty.n = "" THEN <<>> ELSE <<f.ty.n>>)
Idents(sc) ==
  <<sc.item.n>> \o [i \in DOMAIN sc.ps |-> sc.ps[i].n] \o Cat([i \in DOMAIN sc.ps |-> sc.ps[i].b])
  \o Cat([v \in DOMAIN sc.vs |-> (IF sc.vs[v].n = "" THEN <<>> ELSE <<sc.vs[v].n>>) \o Cat([f \in DOMAIN sc.vs[v].fs |-> FieldNames(sc.vs[v].fs[f])])])
  \o sc.extra \o (IF sc.path = "" THEN <<>> ELSE <<sc.path>>)

\* the candidates for a generated parameter: letters from the desired one, around once, then prefixed ones
Around(l) == [i \in 1..27 |-> Letters[((Pos(l) + i - 2) % 26) + 1]]
Prefixed(l, k) == "__FUNCMAP_" \o l \o (IF k = 1 THEN "" ELSE ToString(k))
Candidate(l, j) == LET c == Around(l)[((j - 1) % 27) + 1] k == (j - 1) \div 27 IN IF k = 0 THEN c ELSE Prefixed(c, k)

-----------------------------------------------------------------------------
(* Scopes: sequences of bindings [n, ns, d], innermost scope last; d says what it is *)
B(n, ns, d) == [n |-> n, ns |-> ns, d |-> d]
EnvNs(k) == CASE k \in {"struct", "tstruct"} -> {"t", "v"} [] k \in {"enum", "trait", "mod", "alias", "btrait"} -> {"t"}
              [] k \in {"fn", "const", "static"} -> {"v"} [] OTHER -> {}
\* a value of these kinds is taken for a constant when its name is written in a pattern
PatternKinds == {"struct", "tstruct", "const", "static"}
EnvD(e) == <<"env", e.n, e.k>>
ItemKind(sc) == IF sc.kind = "enum" THEN "enum" ELSE IF sc.style = "tuple" THEN "tstruct" ELSE IF sc.style = "unit" THEN "struct" ELSE "named"
ModScope(sc) == UNION {{B(e.n, ns, EnvD(e)) : ns \in EnvNs(e.k)} : e \in Set(sc.env)} \cup {B(sc.item.n, "t", <<"item">>)}
                \cup (IF ItemKind(sc) \in {"tstruct", "struct"} THEN {B(sc.item.n, "v", <<"env", sc.item.n, "tstruct">>)} ELSE {})
ParamScope(sc, but) == {B(sc.ps[i].n, IF sc.ps[i].k = "ty" THEN "t" ELSE "v", <<"param", i>>) : i \in {i \in DOMAIN sc.ps : sc.ps[i].k # "lt" /\ i # but}}

RECURSIVE Lookup(_, _, _)
Lookup(scopes, n, ns) ==
  IF scopes = <<>> THEN <<"none">>
  ELSE LET last == scopes[Len(scopes)] hit == {b \in last : b.n = n /\ b.ns = ns} IN
       IF Cardinality(hit) > 1 THEN <<"ambiguous">> ELSE IF hit # {} THEN (CHOOSE b \in hit : TRUE).d
       ELSE Lookup(SubSeq(scopes, 1, Len(scopes) - 1), n, ns)

\* a reference: in which scopes, what name, what it should be; k = "ref" or "bind" (a name in a pattern, meant to be a new variable) or "outp"
R(k, scopes, n, ns, d) == [k |-> k, scopes |-> scopes, n |-> n, ns |-> ns, d |-> d]

\* the references of the implementation for parameter i and trait t, with the generated names nm = [a, b, f, e]
UserRefs(sc, scopes, i, nm) ==
  LET here(n) == Lookup(<<ModScope(sc), ParamScope(sc, 0)>>, n, "t")
      subst(n) == n = sc.ps[i].n
      bounds == Cat([j \in DOMAIN sc.ps |-> sc.ps[j].b]) \o Cat([v \in DOMAIN sc.vs |-> Cat([f \in DOMAIN sc.vs[v].fs |-> IF sc.vs[v].fs[f].ty.n = "" THEN <<>> ELSE <<sc.vs[v].fs[f].ty.n>>])]) \o sc.extra \o sc.macs
      mine == SelectSeq(bounds, LAMBDA n : ~subst(n) \/ n \in Set(sc.macs))
      others == SelectSeq([j \in DOMAIN sc.ps |-> j], LAMBDA j : j # i /\ sc.ps[j].k # "lt")
  IN [x \in DOMAIN mine |-> R("ref", scopes, mine[x], "t", here(mine[x]))]
     \o [x \in DOMAIN others |-> R("ref", scopes, sc.ps[others[x]].n, IF sc.ps[others[x]].k = "ty" THEN "t" ELSE "v", <<"param", others[x]>>)]
FieldNo(v, f) == "field_" \o ToString(f - 1)
Fields(sc) ==
  Cat([v \in DOMAIN sc.vs |-> [f \in DOMAIN sc.vs[v].fs |-> IF sc.vs[v].fs[f].n = "" THEN FieldNo(v, f) ELSE "field_" \o sc.vs[v].fs[f].n]])
  \* the field that holds the further names
  \o (IF sc.extra = <<>> THEN <<>> ELSE IF sc.vs[1].style = "named" THEN <<"field___zzq">> ELSE <<FieldNo(1, Len(sc.vs[1].fs) + 1)>>)
HasClosure(sc, i) == \E v \in DOMAIN sc.vs : \E f \in DOMAIN sc.vs[v].fs : sc.vs[v].fs[f].ty.p = i /\ sc.vs[v].fs[f].ty.c \in {"Opt", "Arr", "Ph"}
MapRefs(sc, i, t, nm) ==
  LET mod == ModScope(sc)
      impl == ParamScope(sc, i) \cup {B(nm.a, "t", <<"A">>), B(nm.b, "t", <<"B">>)}
      fn == (IF t = "FuncMap" THEN {} ELSE {B(nm.e, "t", <<"E">>)}) \cup {B(nm.f, "t", <<"F">>), B("f", "v", <<"f">>)}
      arm == {B(x, "v", <<"field", x>>) : x \in Set(Fields(sc))}
      S1 == <<mod, impl>> S2 == <<mod, impl, fn>>
  IN UserRefs(sc, S1, i, nm)
     \o <<R("ref", S1, sc.item.n, "t", <<"item">>), R("ref", S1, nm.a, "t", <<"A">>), R("ref", S1, nm.b, "t", <<"B">>),
          R("ref", S2, nm.a, "t", <<"A">>), R("ref", S2, nm.b, "t", <<"B">>), R("ref", S2, nm.f, "t", <<"F">>)>>
     \o (IF t = "FuncMap" THEN <<>> ELSE <<R("ref", S2, nm.e, "t", <<"E">>)>>)
     \o (IF sc.path = "" THEN <<>> ELSE <<R("ref", S1, sc.path, "t", Lookup(<<mod>>, sc.path, "t")), R("ref", S2, sc.path, "t", Lookup(<<mod>>, sc.path, "t"))>>)
     \o <<R("outp", S2, "Output", "t", <<"assoc">>), R("bind", S1, "f", "v", <<"f">>)>>
     \o [x \in DOMAIN Fields(sc) |-> R("bind", S1, Fields(sc)[x], "v", <<"field", Fields(sc)[x]>>)]
     \o (IF HasClosure(sc, i) THEN <<R("bind", S2, "value", "v", <<"value">>)>> ELSE <<>>)
\* the implementation that keeps out destructors
DropRefs(sc) == LET S == <<ModScope(sc), ParamScope(sc, 0)>> IN
  <<R("ref", S, sc.item.n, "t", <<"item">>)>>
  \o [x \in DOMAIN sc.ps |-> IF sc.ps[x].k = "lt" THEN R("ref", S, sc.item.n, "t", <<"item">>) ELSE R("ref", S, sc.ps[x].n, IF sc.ps[x].k = "ty" THEN "t" ELSE "v", <<"param", x>>)]
  \o (IF sc.path = "" THEN <<>> ELSE <<R("ref", S, sc.path, "t", Lookup(<<ModScope(sc)>>, sc.path, "t"))>>)

Selected(sc) == SelectSeq([i \in DOMAIN sc.ps |-> i], LAMBDA i : sc.ps[i].k = "ty" /\ sc.ps[i].sel)
\* the implementations: 0 is the one that keeps out destructors
Impls(sc) == Cat([t \in DOMAIN sc.derives |-> <<<<sc.derives[t], 0>>>> \o [x \in DOMAIN Selected(sc) |-> <<sc.derives[t], Selected(sc)[x]>>]])
Refs(sc, nm, impl) == IF impl[2] = 0 THEN DropRefs(sc) ELSE MapRefs(sc, impl[2], impl[1], nm)

\* what a reference resolves to
Resolve(sc, r) ==
  CASE r.k = "outp" -> IF \E v \in DOMAIN sc.vs : sc.vs[v].n = "Output" THEN <<"ambiguous">> ELSE <<"assoc">>
    [] r.k = "bind" -> LET x == Lookup(r.scopes, r.n, "v") IN
                       IF x[1] = "param" \/ (x[1] = "env" /\ x[3] \in PatternKinds) THEN x ELSE r.d
    [] OTHER -> Lookup(r.scopes, r.n, r.ns)

\* names that are none for the parser of the macro
Late == {"async", "await", "dyn", "try"}
Rejected(sc) == IF sc.plain /\ sc.edition = "2015" THEN Set(Idents(sc)) \cap Late ELSE {}

-----------------------------------------------------------------------------
(* The machine *)
StartM == [ph |-> "collect", at |-> 1, res |-> {}, j |-> 1, got |-> <<>>, cap |-> {}]
Want == <<"A", "B", "F", "E">>
Step(m, sc) ==
  CASE m.ph = "collect" ->
         IF Rejected(sc) # {} THEN [m EXCEPT !.ph = "done", !.cap = {<<"rejected", n, <<"none">>>> : n \in Rejected(sc)}]
         ELSE [m EXCEPT !.ph = "reserve", !.res = Set(Idents(sc)) \cup (IF sc.macs = <<>> THEN {} ELSE Set(Letters))]
    [] m.ph = "reserve" ->
         IF m.at > 4 THEN [m EXCEPT !.ph = "resolve", !.at = 1, !.res = {}]
         ELSE LET c == Candidate(Want[m.at], m.j) IN
              IF c \in m.res THEN [m EXCEPT !.j = @ + 1]
              ELSE [m EXCEPT !.got = Append(@, c), !.res = @ \cup {c}, !.at = @ + 1, !.j = 1]
    [] m.ph = "resolve" ->
         LET is == Impls(sc) IN
         IF m.at > Len(is) THEN [m EXCEPT !.ph = "done"]
         ELSE LET rs == Refs(sc, [a |-> m.got[1], b |-> m.got[2], f |-> m.got[3], e |-> m.got[4]], is[m.at])
                  bad == {x \in DOMAIN rs : Resolve(sc, rs[x]) # rs[x].d}
              IN [m EXCEPT !.at = @ + 1, !.cap = @ \cup {<<rs[x].k, rs[x].n, Resolve(sc, rs[x])>> : x \in bad}]

-----------------------------------------------------------------------------
(* The names that the design cannot cope with *)
ValueNames(sc) == {"f"} \cup Set(Fields(sc)) \cup (IF \E i \in DOMAIN sc.ps : HasClosure(sc, i) /\ sc.ps[i].sel THEN {"value"} ELSE {})
PatternNames(sc) == {e.n : e \in {e \in Set(sc.env) : e.k \in PatternKinds}} \cup (IF ItemKind(sc) \in {"tstruct", "struct"} THEN {sc.item.n} ELSE {})
                    \cup {p.n : p \in {p \in Set(sc.ps) : p.k = "const"}}
Hole(sc) == \/ Rejected(sc) # {}
            \/ \E v \in DOMAIN sc.vs : sc.vs[v].n = "Output"                      \* a variant called like the result type
            \/ ValueNames(sc) \cap PatternNames(sc) # {}                           \* a constant called like a generated variable
            \/ \E p \in Set(sc.ps) : p.k = "ty" /\ p.n = sc.item.n                 \* a type parameter called like its type
            \/ sc.path # "" /\ \E p \in Set(sc.ps) : p.k = "ty" /\ p.n = sc.path  \* a parameter called like the relative path of the library

Fresh(m, sc) == m.ph = "resolve" => /\ Cardinality(Set(m.got)) = 4
                                    /\ Set(m.got) \cap (Set(Idents(sc)) \cup Set(sc.macs)) = {}
Immune(m, sc) == m.ph = "done" => ((m.cap = {}) = ~Hole(sc))
=============================================================================
