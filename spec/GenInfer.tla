------------------------------ MODULE GenInfer --------------------------------
(***************************************************************************)
(* Draws chains of calls on values of declared types and types of the      *)
(* library, and lets the machine of Infer say what the compiler infers.    *)
(* The world and the declarations are those of GenBounds.                  *)
(***************************************************************************)
EXTENDS GenBounds, Infer

VARIABLES n, prog, k, ty, done
gvars == <<vars, ivars, n, prog, k, ty, done>>

NLib == atoi(IOEnv.NLIB)
NTotal == NDefs * NPer + NLib

\* arguments that are not elements: numbers from NE on
Compounds == <<One("Option", E(0)), One("Option", E(1)), One("Vec", E(0)), N("Tup", <<E(0), E(1)>>, 0), One("Box", E(1)), N("Result", <<E(0), E(1)>>, 0),
               N("Arr", <<E(0)>>, 2), One("Option", One("Option", E(0))), One("Option", N("Result", <<E(0), E(1)>>, 0)), One("Vec", One("Vec", E(1)))>>
NArgs == NE + Len(Compounds)
GoOf == [e \in 0..(NArgs - 1) |-> Below(Sub(Sub(Seed, 21), e), NE)]
ArgOf(t) == IF Elem(t) THEN t.n
            ELSE IF t \in Set(Compounds) THEN NE - 1 + CHOOSE x \in DOMAIN Compounds : Compounds[x] = t ELSE Other
ValueOf(t) ==
  LET heads == IF t.c = "User" THEN {x + 1 : x \in Set(Defs[t.n].sel)} ELSE Mappable(t.c) \cap DOMAIN t.a
  IN [arg |-> [x \in DOMAIN t.a |-> ArgOf(t.a[x])], heads |-> heads,
      fits |-> {f \in heads \X (0..(NE - 1)) : Holds(OMap(t, f[1], t.a[f[1]], E(f[2])))}]

\* how a call is written: with or without a position, or at the default position
Hows == <<"plain", "plain", "plain", "plain", "via", "via", "ufcs", "over", "over", "over", "ufcspos", "bound", "hole">>
DrawCall(sd, t) ==
  LET how == From(Sub(sd, 1), Hows)
      np == Len(t.a)
      els == SelectSeq([x \in 1..np |-> ArgOf(t.a[x])], LAMBDA x : x # Other)
      s0 == IF els # <<>> /\ Chance(Sub(sd, 2), 9, 10) THEN From(Sub(sd, 3), els) ELSE Below(Sub(sd, 3), 2)
      p == CASE how \in {"plain", "via", "ufcs"} -> Free
             [] how = "hole" -> Hole
             [] how = "bound" -> 1
             [] OTHER -> 1 + Below(Sub(sd, 4), np + (IF Chance(Sub(sd, 5), 1, 6) THEN 1 ELSE 0))
      at == IF p \in 1..np /\ ArgOf(t.a[p]) # Other /\ Chance(Sub(sd, 6), 5, 6) THEN ArgOf(t.a[p]) ELSE s0
  IN [how |-> how, try |-> Chance(Sub(sd, 8), 1, 2),
      call |-> [fun |-> IF Chance(Sub(sd, 9), 2, 5) THEN "clos" ELSE "item", pos |-> p, src |-> at,
                dst |-> IF Chance(Sub(sd, 10), 3, 4) THEN Below(Sub(sd, 11), 2) ELSE Below(Sub(sd, 11), NE)]]

TypeFor(sd, m) ==
  IF m < NDefs * NPer THEN
    LET d == Defs[1 + (m \div NPer)]
        args == ArgsFor(Sub(sd, 1), d, Chance(Sub(sd, 2), 2, 3))
        comp == [x \in DOMAIN args |-> IF d.ps[x].k = "ty" /\ Chance(Sub(sd, 60 + x), 1, 3) THEN From(Sub(sd, 70 + x), Compounds) ELSE args[x]]
        use == IF Chance(Sub(sd, 3), 1, 3) /\ WFargs(d, comp) THEN comp ELSE args
    IN N("User", use, 1 + (m \div NPer))
  ELSE LET c == LibNames[1 + (m % Len(LibNames))]
           ar == IF c = "HashMap" THEN 2 ELSE IF c = "HashSet" THEN 1 ELSE LibArity[c]
       IN N(c, [x \in 1..ar |-> IF Chance(Sub(sd, 30 + x), 1, 3) THEN From(Sub(sd, 40 + x), Compounds) ELSE El(Sub(sd, 20 + x), TRUE)], 2)
Usable(t) == /\ \A x \in DOMAIN t.a : Sized(t.a[x])
             /\ t.c = "User" => WFargs(Defs[t.n], t.a)

NoProg == <<>>
None == [arg |-> <<>>, heads |-> {}, fits |-> {}]
NoCall == [fun |-> "item", pos |-> Free, src |-> 0, dst |-> 0]
GInit == /\ Init /\ StartI(None, NoCall, GoOf) /\ n = 0 /\ prog = NoProg /\ k = 0 /\ ty = E(0) /\ done = FALSE
KeepB == UNCHANGED <<Facts, i, q, s>>
KeepI == UNCHANGED ivars

GDefine == ph = "defs" /\ Len(Defs) < NDefs /\ Define /\ KeepI /\ UNCHANGED <<n, prog, k, ty, done>>
GPublish == /\ ph = "defs" /\ Len(Defs) = NDefs
            /\ PrintT("WORLD " \o ToJson([facts |-> Facts, defs |-> Defs, go |-> [x \in 1..NArgs |-> GoOf[x - 1]], compounds |-> Compounds]))
            /\ ph' = "pick" /\ UNCHANGED Defs /\ KeepB /\ KeepI /\ UNCHANGED <<n, prog, k, ty, done>>
Skip == n' = n + 1 /\ ph' = "pick" /\ UNCHANGED Defs /\ KeepB /\ UNCHANGED <<prog, k, ty, done>>
Pick == /\ ph = "pick" /\ n < NTotal
        /\ LET t == TypeFor(Sub(Sub(Seed, 22), n), n) IN
           IF ~Usable(t) THEN Skip /\ KeepI
           ELSE ph' = "call" /\ ty' = t /\ prog' = [ty |-> t, calls |-> <<>>] /\ k' = From(Sub(Sub(Seed, 23), n), <<1, 1, 2, 3>>) /\ UNCHANGED <<Defs, n, done>> /\ KeepB /\ KeepI
Place == /\ ph = "call"
         /\ LET c == DrawCall(Sub(Sub(Sub(Seed, 24), n), k), ty)
                v == ValueOf(ty)
            IN IF Open(v, c.call) THEN Skip /\ KeepI
               ELSE /\ val' = v /\ call' = c.call /\ go' = go /\ src' = Unknown /\ dst' = Unknown /\ pos' = Unknown /\ marker' = Unknown /\ st' = "run"
                    /\ prog' = [prog EXCEPT !.calls = Append(@, c)] /\ ph' = "infer" /\ UNCHANGED <<Defs, n, k, ty, done>> /\ KeepB
Infer1 == /\ ph = "infer" /\ st = "run" 
          /\ NextI /\ UNCHANGED <<Defs, ph, n, prog, k, ty, done>> /\ KeepB
Emit(yes, out) == PrintT("PROG " \o ToJson([id |-> n, ty |-> prog.ty, calls |-> prog.calls, yes |-> yes, why |-> st, out |-> out]))
Inferred ==
  /\ ph = "infer" /\ st # "run"
  /\ Assert((st = "yes") = Accepted(val, call, go), <<"machine and rules disagree", val, call>>)
  /\ IF st # "yes" THEN Emit(FALSE, ty) /\ n' = n + 1 /\ ph' = "pick" /\ UNCHANGED <<Defs, prog, k, ty, done>>
     ELSE LET out == [ty EXCEPT !.a[pos] = E(dst)] IN
          IF k > 1 THEN ty' = out /\ k' = k - 1 /\ ph' = "call" /\ UNCHANGED <<Defs, n, prog, done>>
          ELSE Emit(TRUE, out) /\ n' = n + 1 /\ ph' = "pick" /\ UNCHANGED <<Defs, prog, k, ty, done>>
  /\ KeepB /\ KeepI
Mark == /\ ph = "pick" /\ n = NTotal /\ ~done /\ done' = TRUE
        /\ \A x, y \in Markers : PrintT("MARK " \o ToJson([q |-> x, p |-> y, yes |-> IsMarker(x, y)]))
        /\ UNCHANGED <<Defs, ph, n, prog, k, ty>> /\ KeepB /\ KeepI
GNext == GDefine \/ GPublish \/ Pick \/ Place \/ Infer1 \/ Inferred \/ Mark
=============================================================================
