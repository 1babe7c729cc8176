------------------------------- MODULE TraceMap -------------------------------
(***************************************************************************)
(* Checks recorded executions against the specification.                   *)
(*                                                                         *)
(* Vals[i]   [ty, v]            root types and starting values             *)
(* Cases[i]  [i, val, steps, tag, st, e, tr, post, r]                      *)
(*           steps  what was asked (see GenMap)                            *)
(*           st     "ok", "err", "panic" or "crash" (the process died)     *)
(*           e      the token that the error or the panic carried          *)
(*           tr     per executed step [calls, drops, fd]                   *)
(*           post   tokens dropped after the last step came back           *)
(*           r      the observed result                                    *)
(* Grps[i] [kind, cs]         cases that have to agree                   *)
(*                                                                         *)
(* Every case is judged twice: by the machine of FuncMap (is there a run   *)
(* of the machine with exactly these calls, drops and this result?) and by *)
(* the declarative rules, which also say which property is broken.         *)
(***************************************************************************)
EXTENDS FuncMap, Json, IOUtils

File(x)  == ndJsonDeserialize(IOEnv.TRDIR \o "/" \o x \o ".ndjson")
RawDefs  == File("defs")
TheDefs  == RawDefs      \* (TLC keeps the value of RawDefs, but not that of a substituted constant)
Vals     == File("vals")
Cases    == File("cases")
Grps     == File("groups")

VARIABLES ci, k, m, pos
vars == <<ci, k, m, pos>>

SetOf(s) == {s[x] : x \in DOMAIN s}
Idx(t, s) == SelectSeq([x \in 1..Len(s) |-> x], LAMBDA x : s[x] = t)
Count(t, s) == Len(SelectSeq(s, LAMBDA x : x = t))

C(c) == Cases[c]
RTy(c) == Vals[C(c).val].ty
RV(c)  == Vals[C(c).val].v

-----------------------------------------------------------------------------
(* The machine, following the recorded calls *)

Tr(c, j) == C(c).tr[j]
\* the calls that fail, and the element whose destructor panics (0: none)
Fails(st) == SelectSeq(st.fails, LAMBDA x : x.k # "d")
Bomb(st)  == LET h == SelectSeq(st.fails, LAMBDA x : x.k = "d") IN IF h = <<>> THEN 0 ELSE h[1].t
\* what std leaks when a destructor panics: the rest of a hash table
RECURSIVE Leaky(_)
Leaky(v) == IF v.c \in HSetC \cup HMapC THEN TokensOf(v) ELSE UNION {Leaky(v.k[x]) : x \in DOMAIN v.k}
PickFor(calls, p, rest, kts) ==
  IF p > Len(calls) THEN {1}
  ELSE LET hit == {x \in DOMAIN rest : calls[p] \in TokensOf(rest[x])} IN IF hit = {} THEN {1} ELSE hit
KeyFor(drops, c, s, g) ==
  LET hit == {x \in g : TokensOf(KeyOf(c, s[x])) \cap drops = {}} IN IF hit = {} THEN g ELSE hit

\* the machine can answer the pending call as recorded
Answers(mm, p, t, st) ==
  /\ AtCall(mm) /\ p <= Len(t.calls) /\ PendingToken(mm).t = t.calls[p]
  /\ ~\E x \in DOMAIN Fails(st) : Fails(st)[x].t = t.calls[p]

\* the next positions <<m, p>>
Moves(mm, p, t, drops, st) ==
  IF Answers(mm, p, t, st) THEN {<<Answer(mm, KeyFn(st.kf, PendingToken(mm).y)), p + 1>>}
  ELSE {<<x, p>> : x \in Silent(mm, LAMBDA rest, kts : PickFor(t.calls, p, rest, kts),
                                    LAMBDA c, s, g : KeyFor(drops, c, s, g))}

\* outcome of the step, given that the machine stands at mm with call number p pending
StepOk(mm, p, t) == /\ Finished(mm) /\ p = Len(t.calls) + 1
                    /\ t.fd = 1
                    /\ SetOf(t.drops) = mm.garb /\ Len(t.drops) = Cardinality(mm.garb)
StepFails(mm, p, t, st) ==    \* "e", "p" or ""
  IF AtCall(mm) /\ p = Len(t.calls) /\ p > 0 /\ PendingToken(mm).t = t.calls[p]
  THEN LET hit == SelectSeq(Fails(st), LAMBDA x : x.t = t.calls[p]) IN IF hit = <<>> THEN "" ELSE hit[1].k
  ELSE ""

\* goes on for a while, as long as there is no choice
RECURSIVE Advance(_, _, _, _, _, _)
Advance(mm, p, t, drops, st, fuel) ==
  IF fuel = 0 THEN <<mm, p>>
  ELSE LET nx == Moves(mm, p, t, drops, st) IN
       IF Cardinality(nx) = 1 THEN LET x == CHOOSE x \in nx : TRUE IN Advance(x[1], x[2], t, drops, st, fuel - 1)
       ELSE <<mm, p>>

Init == /\ ci \in 1..(Len(Cases) + Len(Grps)) /\ k = 0 /\ pos = 0 /\ m = <<>>

Enter(c, j, v) == k' = j /\ m' = Start(RTy(c), C(c).steps[j].arg, v) /\ pos' = 1 /\ ci' = c

Accept(c) == PrintT("ACC " \o ToString(C(c).i)) /\ k' = -1 /\ m' = <<>> /\ pos' = 0 /\ ci' = c

Begin == /\ k = 0 /\ ci <= Len(Cases) /\ C(ci).st # "crash" /\ Len(C(ci).tr) > 0
         /\ Enter(ci, 1, RV(ci))

Move == /\ k > 0
        /\ LET t == Tr(ci, k)
               st == C(ci).steps[k]
               drops == SetOf(t.drops)
           IN \E x \in Moves(m, pos, t, drops, st) :
                LET y == Advance(x[1], x[2], t, drops, st, 16) IN m' = y[1] /\ pos' = y[2]
        /\ UNCHANGED <<ci, k>>

StepDone == /\ k > 0 /\ StepOk(m, pos, Tr(ci, k))
            /\ IF k < Len(C(ci).steps)
               THEN Len(C(ci).tr) > k /\ Enter(ci, k + 1, Result(m))
               ELSE /\ C(ci).st = "ok" /\ C(ci).post = <<>> /\ Len(C(ci).tr) = k
                    /\ SameValue(Result(m), C(ci).r)
                    /\ Accept(ci)

Broken == /\ k > 0 /\ Len(C(ci).tr) = k /\ C(ci).post = <<>>
          /\ LET t == Tr(ci, k)
                 st == C(ci).steps[k]
                 f == StepFails(m, pos, t, st)
                 alive == TokensOf(RV(ci)) \ UNION {SetOf(Tr(ci, j).drops) : j \in 1..(k - 1)}
                 boom == Bomb(st) # 0
                 gone == IF f = "e" /\ ~boom THEN alive \ {t.calls[pos]} ELSE alive
                 \* a panicking destructor takes the error with it
                 lost == IF boom THEN Leaky(RV(ci)) \cup {t.calls[pos]} ELSE {}
             IN  /\ f # ""
                 /\ IF f = "e" /\ ~boom THEN C(ci).st = "err" /\ st.tr = "T" ELSE C(ci).st = "panic"
                 /\ C(ci).e = IF boom THEN Bomb(st) ELSE t.calls[pos]
                 /\ t.fd = 1
                 /\ SetOf(t.drops) \subseteq gone /\ gone \ SetOf(t.drops) \subseteq lost /\ Len(t.drops) = Cardinality(SetOf(t.drops))
          /\ Accept(ci)

-----------------------------------------------------------------------------
(* The declarative rules *)

RECURSIVE HasC(_, _)
HasC(v, S) == v.c \in S \/ \E x \in DOMAIN v.k : HasC(v.k[x], S)

RECURSIVE StripG(_)
StripG(v) == [v EXCEPT !.g = 0, !.k = [x \in DOMAIN v.k |-> StripG(v.k[x])]]

\* the value from which step j starts (as expected; steps before the last one are injective)
RECURSIVE Before(_, _)
Before(c, j) == IF j = 1 THEN RV(c)
                ELSE LET st == C(c).steps[j - 1] IN ExpectPass(RTy(c), st.arg, Before(c, j - 1), st.kf)

Injective(kf) == kf.m = 1009 /\ kf.a % 1009 # 0

\* innermost constructor at which the observed value departs from the expectation
RECURSIVE Where(_, _)
Where(v, e) ==
  IF e.c = "?" THEN "?"
  ELSE IF v.c # e.c \/ v.v # e.v \/ v.t # e.t \/ v.g # e.g \/ v.y # e.y \/ Len(v.k) # Len(e.k) THEN e.c
  ELSE IF v.c \in BagC THEN e.c
  ELSE LET bad == {x \in DOMAIN v.k : ~Meets(v.k[x], e.k[x])}
       IN  IF bad = {} THEN e.c
           ELSE LET w == Where(v.k[MinOf(bad)], e.k[MinOf(bad)]) IN IF w \in {"t", "KV", "?"} THEN e.c ELSE w

StepRules(c, j) ==
  LET t == Tr(c, j)
      st == C(c).steps[j]
      last == j = Len(C(c).tr)
      v == Before(c, j)
      order == PassOrder(RTy(c), st.arg, v)
      leaves == CallsIn(order)
      failing == {Fails(st)[x].t : x \in DOMAIN Fails(st)}
      boom == Bomb(st) # 0
      hits == SelectSeq([x \in 1..Len(t.calls) |-> x], LAMBDA x : t.calls[x] \in failing)
      kind(tk) == LET h == SelectSeq(Fails(st), LAMBDA x : x.t = tk) IN h[1].k
      keyed == HasC(v, KeyedC)
      done == IF last THEN C(c).st = "ok" ELSE TRUE
      ordRule == ~keyed \/ RTy(c).c # "User"
      calls == t.calls
  IN  (IF Cardinality(SetOf(calls)) # Len(calls) THEN {"C01 called twice"} ELSE {})
  \cup (IF \E x \in DOMAIN calls : calls[x] \notin leaves THEN {"C01 called on something else"} ELSE {})
  \cup (IF done /\ (~keyed \/ Injective(st.kf)) /\ \E z \in leaves : z \notin SetOf(calls) THEN {"C01 never called"} ELSE {})
  \cup (IF ordRule /\ SetOf(calls) \subseteq leaves /\ ~Consumes(order, calls) THEN {"C02 order of calls"} ELSE {})
  \cup (IF t.fd # 1 THEN {"C04 mapping function not dropped exactly once"} ELSE {})
  \cup (IF hits = <<>> /\ ~done THEN {IF C(c).st = "err" THEN "C03 error without failure" ELSE "C01 panic without reason"} ELSE {})
  \cup (IF hits # <<>> /\ hits[1] # Len(calls) THEN {"C03 called again after a failure"} ELSE {})
  \cup (IF hits # <<>> /\ kind(calls[hits[1]]) = "e" /\ (done \/ (~boom /\ C(c).st # "err")) THEN {"C03 failure not reported"} ELSE {})
  \cup (IF hits # <<>> /\ ~done /\ ~boom /\ C(c).e # calls[hits[1]] THEN {"C03 not the first failure"} ELSE {})
  \cup (IF hits # <<>> /\ kind(calls[hits[1]]) = "p" /\ (done \/ C(c).st # "panic") THEN {"C04 panic swallowed"} ELSE {})
  \cup (IF hits # <<>> /\ boom /\ ~done /\ (C(c).st # "panic" \/ C(c).e # Bomb(st)) THEN {"C04 panic of a destructor swallowed"} ELSE {})

CaseRules(c) ==
  LET x == C(c)
      all == TokensOf(RV(c))
      drops == LET RECURSIVE Cat(_)
                   Cat(j) == IF j = 0 THEN x.post ELSE Cat(j - 1) \o x.tr[j].drops
               IN Cat(Len(x.tr))
      kept == IF x.st = "ok" THEN TokSeq(x.r) ELSE IF x.st = "err" THEN <<x.e>> ELSE <<>>
      exp == Before(c, Len(x.steps) + 1)
      n(t) == Count(t, drops) + Count(t, kept)
      \* with everything injective nothing may be dropped by a mapping that goes through
      inj == \A j \in DOMAIN x.steps : Injective(x.steps[j].kf)
      lost == IF x.st = "panic" /\ Bomb(x.steps[Len(x.steps)]) # 0 THEN Leaky(RV(c)) \cup {Fails(x.steps[Len(x.steps)])[y].t : y \in DOMAIN Fails(x.steps[Len(x.steps)])} ELSE {}
  IN IF x.st = "crash" THEN {"C04 crash"} ELSE
     UNION {StepRules(c, j) : j \in DOMAIN x.tr}
     \cup (IF \E t \in all \ lost : n(t) = 0 THEN {"C04 leaked"} ELSE {})
     \cup (IF \E t \in all : n(t) > 1 THEN {"C04 dropped twice"} ELSE {})
     \cup (IF \E t \in SetOf(drops) \cup SetOf(kept) : t \notin all THEN {"C04 unknown token"} ELSE {})
     \cup (IF x.post # <<>> THEN {"C04 dropped too late"} ELSE {})
     \cup (IF x.st = "ok" THEN
             (IF inj /\ drops # <<>> THEN {"C01 lost an element"} ELSE {})
             \cup (IF Meets(x.r, exp) THEN {}
                   ELSE LET w == Where(x.r, exp) IN {"C01 result differs at " \o w}
                        \cup (IF w \in KeyedC \cup HeapC \cup {"?"} THEN {"C09 result differs at " \o w} ELSE {}))
             \cup (IF WellFormed(x.r) THEN {} ELSE {"C09 invariant of a container"})
             \cup (IF x.tag = "id" /\ ~SameValue(StripG(x.r), RV(c)) THEN {"C08 identity"} ELSE {})
           ELSE {})

GroupRules(g) ==
  LET cs == Grps[g].cs
      kd == Grps[g].kind
      a == cs[1]
      ok(c) == C(c).st = "ok"
      same(x, y) ==
        IF kd = "eqv" THEN
             /\ C(x).st = C(y).st
             /\ HasC(RV(a), UnordC) \/ [j \in DOMAIN C(x).tr |-> C(x).tr[j].calls] = [j \in DOMAIN C(y).tr |-> C(y).tr[j].calls]
             /\ ok(x) => \/ HasC(RV(a), UnordC) /\ ~Injective(C(a).steps[1].kf)
                         \/ SameValue(C(x).r, C(y).r)
        ELSE ok(x) /\ ok(y) /\ SameValue(StripG(C(x).r), StripG(C(y).r))
  IN  IF kd = "none" \/ \A x \in DOMAIN cs : same(a, cs[x]) THEN {}
      ELSE {CASE kd = "eqv" -> "C05 the methods disagree" [] kd = "comm" -> "C07 mappings do not commute" [] kd = "law" -> "C08 composition"}

Rules ==
  /\ k = 0
  /\ LET R == IF ci <= Len(Cases) THEN CaseRules(ci) ELSE GroupRules(ci - Len(Cases))
         id == IF ci <= Len(Cases) THEN C(ci).i ELSE C(Grps[ci - Len(Cases)].cs[1]).i
     IN  \A r \in R : PrintT("BAD " \o ToString(id) \o " " \o r)
  /\ k' = -2 /\ UNCHANGED <<ci, m, pos>>

Next == Begin \/ Move \/ StepDone \/ Broken \/ Rules
=============================================================================
