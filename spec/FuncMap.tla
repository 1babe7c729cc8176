------------------------------- MODULE FuncMap -------------------------------
(***************************************************************************)
(* The mapping machine: what one call of func_map / try_func_map does.     *)
(*                                                                         *)
(* The machine walks the value with an explicit stack.  The only visible   *)
(* steps are calls of the mapping function (one token goes in; a mapped    *)
(* token, an error or a panic comes out) and the return.  Everything that  *)
(* the crate leaves open (iteration order of hash containers and heaps,    *)
(* which of several equal keys survives) is a nondeterministic choice.     *)
(***************************************************************************)
EXTENDS FMTypes

ItMap(ty, v)       == [op |-> "map",  ty |-> ty,  v |-> v, args |-> <<>>, kts |-> <<>>, rest |-> <<>>, done |-> <<>>, w |-> FALSE]
ItPass(ty, args)   == [op |-> "pass", ty |-> ty,  v |-> Node("", 0, <<>>), args |-> args, kts |-> <<>>, rest |-> <<>>, done |-> <<>>, w |-> FALSE]
ItKids(v, kts, ks) == [op |-> "kids", ty |-> TyO, v |-> [v EXCEPT !.k = <<>>], args |-> <<>>, kts |-> kts, rest |-> ks, done |-> <<>>, w |-> FALSE]

(***************************************************************************)
(* Rebuilding a container from its mapped elements, in the order in which  *)
(* they were mapped.  Keyed containers re-establish their own invariants:  *)
(* of each group of entries with equal keys, one key survives (the         *)
(* container decides which) with the value of the entry that came last.    *)
(***************************************************************************)
GroupOf(c, s, i) == {j \in DOMAIN s : Cmp(KeyOf(c, s[j]), KeyOf(c, s[i])) = 0}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Groups(c, s) == {GroupOf(c, s, i) : i \in DOMAIN s}

\* one way of rebuilding: `pick' says which key survives in each group
Rebuilt(c, s, groups, pick) ==
  LET entry(g) == IF c \in MapC THEN Node("KV", 0, <<s[pick[g]].k[1], s[MaxOf(g)].k[2]>>) ELSE s[pick[g]]
      firsts   == {MinOf(g) : g \in groups}
      ordered  == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i \in firsts)
      raw      == [i \in 1..Len(ordered) |-> entry(CHOOSE g \in groups : ordered[i] \in g)]
  IN  IF c \in BSetC \cup BMapC THEN SortSeq(raw, LAMBDA a, b : Cmp(KeyOf(c, a), KeyOf(c, b)) < 0) ELSE raw

\* KeyPref(c, s, g) narrows the choice of the surviving key (identity in the specification)
Rebuilds(hdr, s, KeyPref(_, _, _)) ==
  IF hdr.c \notin KeyedC THEN {[hdr EXCEPT !.k = s]}
  ELSE LET groups == Groups(hdr.c, s) IN
       IF \A g \in groups : Cardinality(g) = 1
       THEN {[hdr EXCEPT !.k = Rebuilt(hdr.c, s, groups, [g \in groups |-> MaxOf(g)])]}
       ELSE LET RECURSIVE Prod(_)
                Prod(gs) == IF gs = {} THEN {<<>>}
                            ELSE LET h == CHOOSE h \in gs : TRUE
                                     rest == Prod(gs \ {h})
                                 IN  {(h :> x) @@ p : x \in KeyPref(hdr.c, s, h), p \in rest}
            IN  {[hdr EXCEPT !.k = Rebuilt(hdr.c, s, groups, p)] : p \in Prod(groups)}

AnyKey(c, s, g) == g

-----------------------------------------------------------------------------
(* One silent step of the machine state m = [stk, vals, garb] *)

Top(m)  == m.stk[Len(m.stk)]
Pop(s)  == SubSeq(s, 1, Len(s) - 1)
RemoveIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Start(ty, arg, v) == [stk |-> <<ItPass(ty, <<arg>>)>>, vals |-> <<v>>, garb |-> {}]

AtCall(m) == /\ m.stk # <<>>
             /\ LET x == Top(m) IN x.op = "map" /\ x.ty.c = "P"
Finished(m) == m.stk = <<>>
Result(m) == m.vals[1]
PendingToken(m) == Top(m).v

\* PickPref(rest, kts) narrows the choice of the next element of an unordered container
Silent(m, PickPref(_, _), KeyPref(_, _, _)) ==
  IF Finished(m) \/ AtCall(m) THEN {} ELSE
  LET x == Top(m)
      below == Pop(m.stk)
      replaceBy(y) == {[m EXCEPT !.stk = Append(below, y)]}
  IN
  CASE x.op = "map" /\ ~Dep(x.ty) -> {[m EXCEPT !.stk = below, !.vals = Append(m.vals, x.v)]}
    [] x.op = "map" /\ Dep(x.ty) /\ x.ty.c \in {"Tup", "KV"} -> replaceBy(ItKids(x.v, x.ty.a, x.v.k))
    [] x.op = "map" /\ Dep(x.ty) /\ x.ty.c = "Paren" -> replaceBy(ItMap(x.ty.a[1], x.v))
    [] x.op = "map" /\ Dep(x.ty) /\ x.ty.c \notin {"Tup", "KV", "Paren"} ->
         {[m EXCEPT !.stk = Append(below, ItPass(x.ty, DepArgs(x.ty))), !.vals = Append(m.vals, x.v)]}
    [] x.op = "pass" /\ x.args = <<>> -> {[m EXCEPT !.stk = below]}
    [] x.op = "pass" /\ x.args # <<>> ->
         LET v == m.vals[Len(m.vals)]
         IN  {[m EXCEPT !.stk = below \o <<[x EXCEPT !.args = Tail(x.args)],
                                           ItKids(v, KidTypes(x.ty, Head(x.args), v), v.k)>>,
                        !.vals = Pop(m.vals)]}
    [] x.op = "kids" /\ x.w ->
         {[m EXCEPT !.stk = Append(below, [x EXCEPT !.w = FALSE, !.done = Append(x.done, m.vals[Len(m.vals)])]),
                    !.vals = Pop(m.vals)]}
    [] x.op = "kids" /\ ~x.w /\ x.rest = <<>> ->
         {[m EXCEPT !.stk = below, !.vals = Append(m.vals, r),
                    !.garb = m.garb \cup (TokensOfSeq(x.done) \ TokensOf(r))] :
          r \in Rebuilds(x.v, x.done, KeyPref)}
    [] x.op = "kids" /\ ~x.w /\ x.rest # <<>> ->
         {LET y == [x EXCEPT !.kts = RemoveIdx(x.kts, i), !.rest = RemoveIdx(x.rest, i)] IN
          IF Dep(x.kts[i])
          THEN [m EXCEPT !.stk = Append(below, [y EXCEPT !.w = TRUE]) \o <<ItMap(x.kts[i], x.rest[i])>>]
          ELSE [m EXCEPT !.stk = Append(below, [y EXCEPT !.done = Append(x.done, x.rest[i])])] :
          i \in IF x.v.c \in UnordC THEN PickPref(x.rest, x.kts) ELSE {1}}

AnyPick(rest, kts) == DOMAIN rest

\* the mapping function answers with a token of key y
Answer(m, y) ==
  LET t == PendingToken(m)
  IN  [m EXCEPT !.stk = Pop(m.stk), !.vals = Append(m.vals, [t EXCEPT !.y = y, !.g = t.g + 1])]

-----------------------------------------------------------------------------
(***************************************************************************)
(* The declarative reading of the same thing: the value that a successful  *)
(* mapping with the key function K must produce.  Where several outcomes   *)
(* are allowed (equal keys) the tree has a "?" node with the candidates.   *)
(***************************************************************************)
\* key functions: y is replaced by (a*y + b) % m; injective below m if m is prime and a # 0
KeyFn(kf, y) == (kf.a * y + kf.b) % kf.m

OneOf(S) == [c |-> "?", v |-> 0, t |-> 0, g |-> 0, y |-> 0, k |-> S]   \* S: sequence of candidates
Pick1(S) == IF Len(S) = 1 THEN S[1] ELSE OneOf(S)

\* a representative of a tree with "?" nodes (candidates of a key node compare equal)
RECURSIVE Rep(_)
Rep(v) == IF v.c = "?" THEN Rep(v.k[1]) ELSE [v EXCEPT !.k = [i \in DOMAIN v.k |-> Rep(v.k[i])]]

\* the expectation for a keyed container whose entries were mapped to s (in iteration order)
ExpectKeyed(hdr, s) ==
  LET c == hdr.c
      key(i) == Rep(KeyOf(c, s[i]))
      group(i) == {j \in DOMAIN s : Cmp(key(j), key(i)) = 0}
      firsts == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : \A j \in group(i) : i <= j)
      inOrder(S) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i \in S)
      cands(S, sel(_)) == LET q == inOrder(S) IN [x \in 1..Len(q) |-> sel(s[q[x]])]
      entry(i) ==
        LET g == group(i) IN
        IF c \in MapC
        THEN Node("KV", 0, <<Pick1(cands(g, LAMBDA e : e.k[1])),
                             IF c \in BMapC THEN s[MaxOf(g)].k[2] ELSE Pick1(cands(g, LAMBDA e : e.k[2]))>>)
        ELSE Pick1(cands(g, LAMBDA e : e))
      raw == [x \in 1..Len(firsts) |-> entry(firsts[x])]
  IN [hdr EXCEPT !.k = IF c \in BSetC \cup BMapC
                       THEN SortSeq(raw, LAMBDA a, b : Cmp(Rep(KeyOf(c, a)), Rep(KeyOf(c, b))) < 0) ELSE raw]

RECURSIVE Expect(_, _, _), ExpectPass(_, _, _, _), ExpectPasses(_, _, _, _)
Expect(ty, v, kf) ==
  IF v.c = "?" THEN [v EXCEPT !.k = [i \in DOMAIN v.k |-> Expect(ty, v.k[i], kf)]]
  ELSE IF ~Dep(ty) THEN v
  ELSE CASE ty.c = "P" -> [v EXCEPT !.y = KeyFn(kf, v.y), !.g = v.g + 1]
         [] ty.c \in {"Tup", "KV"} -> [v EXCEPT !.k = [i \in DOMAIN v.k |-> Expect(ty.a[i], v.k[i], kf)]]
         [] ty.c = "Paren" -> Expect(ty.a[1], v, kf)
         [] OTHER -> ExpectPasses(ty, DepArgs(ty), v, kf)
ExpectPasses(ty, args, v, kf) ==
  IF args = <<>> THEN v ELSE ExpectPasses(ty, Tail(args), ExpectPass(ty, Head(args), v, kf), kf)
ExpectPass(ty, arg, v, kf) ==
  LET kts == KidTypes(ty, arg, v)
      s == [i \in DOMAIN v.k |-> Expect(kts[i], v.k[i], kf)]
  IN  IF v.c \in KeyedC THEN ExpectKeyed(v, s) ELSE [v EXCEPT !.k = s]

\* does the value v meet the expectation e?
RECURSIVE Meets(_, _), MeetsBag(_, _)
Meets(v, e) ==
  IF e.c = "?" THEN \E i \in DOMAIN e.k : Meets(v, e.k[i])
  ELSE /\ v.c = e.c /\ v.v = e.v /\ v.t = e.t /\ v.g = e.g /\ v.y = e.y
       /\ Len(v.k) = Len(e.k)
       /\ IF v.c \in BagC THEN MeetsBag(v.k, e.k)
          ELSE \A i \in DOMAIN v.k : Meets(v.k[i], e.k[i])
MeetsBag(s, es) ==
  IF s = <<>> THEN TRUE
  ELSE \E j \in DOMAIN es : Meets(s[1], es[j]) /\ MeetsBag(Tail(s), RemoveIdx(es, j))

(***************************************************************************)
(* The declarative order of calls, for types in which no container is      *)
(* keyed: a tree of sequences ("seq") and unordered blocks ("bag").        *)
(***************************************************************************)
Blk(o, ks) == [o |-> o, t |-> 0, ks |-> ks]
RECURSIVE CallOrder(_, _), PassOrder(_, _, _)
CallOrder(ty, v) ==
  IF ~Dep(ty) THEN Blk("seq", <<>>)
  ELSE CASE ty.c = "P" -> [o |-> "call", t |-> v.t, ks |-> <<>>]
         [] ty.c \in {"Tup", "KV"} -> Blk("seq", [i \in DOMAIN v.k |-> CallOrder(ty.a[i], v.k[i])])
         [] ty.c = "Paren" -> CallOrder(ty.a[1], v)
         [] OTHER -> LET as == DepArgs(ty) IN Blk("seq", [i \in DOMAIN as |-> PassOrder(ty, as[i], v)])
PassOrder(ty, arg, v) ==
  LET kts == KidTypes(ty, arg, v)
  IN  Blk(IF v.c \in UnordC THEN "bag" ELSE "seq", [i \in DOMAIN v.k |-> CallOrder(kts[i], v.k[i])])

RECURSIVE CallsIn(_)
CallsIn(b) == IF b.o = "call" THEN {b.t} ELSE UNION {CallsIn(b.ks[i]) : i \in DOMAIN b.ks}

\* x must be called before z
RECURSIVE MustPrecede(_, _, _)
MustPrecede(b, x, z) ==
  /\ b.o # "call"
  /\ \E i, j \in DOMAIN b.ks :
       /\ x \in CallsIn(b.ks[i]) /\ z \in CallsIn(b.ks[j])
       /\ \/ i = j /\ MustPrecede(b.ks[i], x, z)
          \/ i < j /\ b.o = "seq"

(***************************************************************************)
(* The same as a recogniser: how many of the calls s, from position p on,  *)
(* belong to block b, with no call left out before the last one?           *)
(* <<next position, done>>; done is FALSE if the calls end inside b;       *)
(* position 0 if the calls are not in order.                               *)
(***************************************************************************)
RECURSIVE Eat(_, _, _), EatSeq(_, _, _, _), EatBag(_, _, _, _)
Eat(b, s, p) ==
  IF b.o = "call" THEN IF p > Len(s) THEN <<p, FALSE>> ELSE IF s[p] = b.t THEN <<p + 1, TRUE>> ELSE <<0, FALSE>>
  ELSE IF b.o = "seq" THEN EatSeq(b.ks, 1, s, p)
  ELSE EatBag(b.ks, {i \in DOMAIN b.ks : CallsIn(b.ks[i]) # {}}, s, p)
EatSeq(ks, i, s, p) ==
  IF i > Len(ks) THEN <<p, TRUE>>
  ELSE LET r == Eat(ks[i], s, p) IN IF r[2] THEN EatSeq(ks, i + 1, s, r[1]) ELSE r
EatBag(ks, left, s, p) ==
  IF left = {} THEN <<p, TRUE>>
  ELSE IF p > Len(s) THEN <<p, FALSE>>
  ELSE LET hit == {i \in left : s[p] \in CallsIn(ks[i])} IN
       IF hit = {} THEN <<0, FALSE>>
       ELSE LET h == CHOOSE h \in hit : TRUE
                r == Eat(ks[h], s, p)
            IN  IF r[2] THEN EatBag(ks, left \ {h}, s, r[1]) ELSE r

\* s is a beginning of an order of calls that b allows
Consumes(b, s) == Eat(b, s, 1)[1] = Len(s) + 1
=============================================================================
