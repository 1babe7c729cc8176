------------------------------ MODULE MCHygiene --------------------------------
(* Every small choice of names: no capture except where the design has a hole *)
EXTENDS Hygiene
VARIABLES sc, m
vars == <<sc, m>>
Ns == {"A", "B", "F", "T", "f", "field_0"}
Nz == Ns \cup {"value", "Output"}
Ty(c, p, n) == [c |-> c, p |-> p, n |-> n]
Fl(n, ty) == [n |-> n, raw |-> FALSE, ty |-> ty]
Par(k, n, sel, b) == [k |-> k, n |-> n, raw |-> FALSE, sel |-> sel, b |-> b]
Envs == {<<>>} \cup {<<[n |-> n, k |-> k]>> : n \in Nz, k \in {"struct", "trait", "fn", "const"}}
Sc(env, item, kind, ps, vs, macs, path) ==
  [env |-> env, item |-> [n |-> item, raw |-> FALSE], kind |-> kind, style |-> vs[1].style, ps |-> ps, vs |-> vs, extra |-> <<>>,
   macs |-> macs, path |-> path, edition |-> "2021", plain |-> FALSE, derives |-> <<"FuncMap", "TryFuncMap">>]
Var(n, style, fs) == [n |-> n, raw |-> FALSE, style |-> style, fs |-> fs]
TypesIn(env) == {e.n : e \in {e \in Set(env) : e.k = "struct"}}
Opts(S) == {<<>>} \cup {<<x>> : x \in S}
Fits(env, n) == \A e \in Set(env) : e.n # n
EnvTy(env, p) == LET c == TypesIn(env) \ {p} IN IF c = {} THEN "" ELSE CHOOSE n \in c : TRUE
Structs ==
  \E env \in Envs, it \in {"A", "S", "f"}, p1 \in Ns, p2 \in Ns, k2 \in {"ty", "const"}, st \in {"tuple", "named"}, c \in {"V", "Opt"} :
    /\ Fits(env, it) /\ p1 # p2
    /\ \E b \in Opts(TypesIn(env)), mc \in Opts(TypesIn(env) \ {p1, p2}) :
       sc = Sc(env, it, "struct", <<Par("ty", p1, TRUE, b), Par(k2, p2, k2 = "ty", <<>>)>>,
               <<Var("", st, <<Fl(IF st = "named" THEN "f" ELSE "", Ty(c, 1, "")), Fl(IF st = "named" THEN "x" ELSE "", Ty("Env", 0, EnvTy(env, p1)))>>)>>, mc, "")
Enums ==
  \E env \in Envs, it \in {"B", "S"}, p1 \in Ns, v \in Nz, path \in Nz \cup {""} :
    /\ Fits(env, it) /\ (path = "" \/ path \in TypesIn(env))
    /\ sc = Sc(env, it, "enum", <<Par("ty", p1, TRUE, <<>>)>>, <<Var(v, "tuple", <<Fl("", Ty("V", 1, ""))>>)>>, <<>>, path)
Init == (Structs \/ Enums) /\ m = StartM
Next == m.ph # "done" /\ m' = Step(m, sc) /\ UNCHANGED sc
NoCapture == Immune(m, sc)
Freshness == Fresh(m, sc)
=============================================================================
