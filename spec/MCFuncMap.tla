------------------------------ MODULE MCFuncMap ------------------------------
(***************************************************************************)
(* Exhaustive check of the mapping machine on a small universe: every root *)
(* of the universe, every reply (mapped with one of three key functions,   *)
(* error, panic) at every call, every choice the crate leaves open.        *)
(***************************************************************************)
EXTENDS FuncMap

\* user-defined types of the universe
MCDefs == <<
  [np |-> 1, vs |-> << <<TyN("V", <<>>, 0), TyO, TyN("V", <<>>, 0)>> >>],                          \* struct A<T>(T, _, T)
  [np |-> 2, vs |-> << <<TyN("V", <<>>, 1), TyN("V", <<>>, 0), Ty("Vec", <<TyN("V", <<>>, 0)>>)>> >>], \* struct B<T, U>(U, T, Vec<T>)
  [np |-> 2, vs |-> << <<>>, <<TyN("V", <<>>, 0), TyN("V", <<>>, 1)>>, <<Ty("Tup", <<TyN("V", <<>>, 1), TyN("V", <<>>, 0)>>)>> >>], \* enum
  [np |-> 1, vs |-> << <<TyN("User", <<TyN("V", <<>>, 0), Ty("Option", <<TyN("V", <<>>, 0)>>)>>, 2), TyN("V", <<>>, 0)>> >>] \* struct D<T>(B<T, Option<T>>, T)
>>

VARIABLES ty, arg, src, kf, try, m, calls, status, errtok
vars == <<ty, arg, src, kf, try, m, calls, status, errtok>>

\* key functions: injective and order-reversing; two-to-one; constant
KFs == {[a |-> 100, b |-> 1, m |-> 101], [a |-> 1, b |-> 0, m |-> 2], [a |-> 0, b |-> 7, m |-> 8]}

A1 == <<TyP>>
T1 == Tok(1, 1)  T2 == Tok(2, 2)  T3 == Tok(3, 3)  T4 == Tok(4, 4)  T5 == Tok(5, 5)
KV(a, b) == Node("KV", 0, <<a, b>>)

R(t, a, v) == [ty |-> t, arg |-> a, v |-> v]
Roots ==
       {R(Ty(c, A1), 0, Node(c, 0, <<T1>>)) : c \in OneC}
  \cup {R(Ty(c, A1), 0, Node(c, 0, <<T1, T2>>)) : c \in TwoC}
  \cup {R(Ty(c, A1), 0, Node(c, 0, <<>>)) : c \in OptC} \cup {R(Ty(c, A1), 0, Node(c, 1, <<T1>>)) : c \in OptC}
  \cup {R(Ty("Bound", A1), 0, Node("Bound", x, IF x = 2 THEN <<>> ELSE <<T1>>)) : x \in 0..2}
  \cup {R(Ty("Phantom", A1), 0, Node("Phantom", 0, <<>>))}
  \cup {R(Ty(c, A1), 0, Node(c, 0, SubSeq(<<T1, T2, T3>>, 1, l))) : c \in ListC \cup SetC \cup HeapC, l \in 0..3}
  \cup {R(Ty(c, IF a = 0 THEN <<TyP, TyO>> ELSE <<TyO, TyP>>), a,
           Node(c, 0, SubSeq(<<KV(T1, T4), KV(T2, T3), KV(T3, T2)>>, 1, l)))
         : c \in MapC, a \in {0, 1}, l \in {0, 1, 2}}
  \cup {R(Ty(c, <<TyP, TyO>>), 0, Node(c, 0, <<KV(T1, Tok(11, 11)), KV(T2, Tok(12, 12)), KV(T3, Tok(13, 13))>>)) : c \in MapC}
  \cup {R(Ty(c, IF a = 0 THEN <<TyP, TyO>> ELSE <<TyO, TyP>>), a, Node(c, x, <<T1>>)) : c \in SumC, a \in {0, 1}, x \in {0, 1}}
  \cup {R(TyN("User", <<TyP>>, 1), 0, Node("User", 0, <<T1, T2, T3>>)),
        R(TyN("User", <<TyP, TyO>>, 2), 0, Node("User", 0, <<T1, T2, Node("Vec", 0, <<T3, T4>>)>>)),
        R(TyN("User", <<TyO, TyP>>, 2), 1, Node("User", 0, <<T1, T2, Node("Vec", 0, <<T3, T4>>)>>)),
        R(TyN("User", <<TyP>>, 4), 0,
          Node("User", 0, <<Node("User", 0, <<Node("Option", 1, <<T1>>), T2, Node("Vec", 0, <<T3, T4>>)>>), T5>>))}
  \cup {R(TyN("User", IF a = 0 THEN <<TyP, TyO>> ELSE <<TyO, TyP>>, 3), a, v) : a \in {0, 1},
          v \in {Node("User", 0, <<>>), Node("User", 1, <<T1, T2>>), Node("User", 2, <<Node("Tup", 0, <<T1, T2>>)>>)}}
  \* nested: a set of sets, a map from sets, a heap of vectors, a bag of maps
  \cup {R(TyN("User", <<Ty("BTreeSet", A1), Ty("HashSet", A1)>>, 2), a,
          Node("User", 0, <<Node("HashSet", 0, <<T1, T2>>), Node("BTreeSet", 0, <<T3>>), Node("Vec", 0, <<Node("BTreeSet", 0, <<T4, T5>>)>>)>>)) : a \in {0, 1}}
  \cup {R(Ty("HashMap", <<Ty("HashSet", A1), TyO>>), 0, Node("HashMap", 0,
          <<KV(Node("HashSet", 0, <<T1, T2>>), T4), KV(Node("HashSet", 0, <<T3>>), T5)>>)),
        R(Ty("BTreeMap", <<Ty("Tup", <<TyP, TyO>>), Ty("Vec", A1)>>), 0, Node("BTreeMap", 0,
          <<KV(Node("Tup", 0, <<T1, T2>>), Node("Vec", 0, <<T3>>)), KV(Node("Tup", 0, <<T4, Tok(12, 2)>>), Node("Vec", 0, <<>>))>>)),
        R(Ty("BinaryHeap", <<Ty("Vec", A1)>>), 0, Node("BinaryHeap", 0, <<Node("Vec", 0, <<T2, T1>>), Node("Vec", 0, <<>>)>>))}

Init ==
  \E r \in Roots, f \in KFs, tr \in BOOLEAN :
    /\ ty = r.ty /\ arg = r.arg /\ src = r.v /\ kf = f /\ try = tr
    /\ m = Start(r.ty, r.arg, r.v)
    /\ calls = <<>> /\ status = "run" /\ errtok = 0

StepSilent == /\ status = "run"
              /\ m' \in Silent(m, AnyPick, AnyKey)
              /\ UNCHANGED <<ty, arg, src, kf, try, calls, status, errtok>>

CallOk     == /\ status = "run" /\ AtCall(m)
              /\ m' = Answer(m, KeyFn(kf, PendingToken(m).y))
              /\ calls' = Append(calls, PendingToken(m).t)
              /\ UNCHANGED <<ty, arg, src, kf, try, status, errtok>>

CallErr    == /\ status = "run" /\ AtCall(m) /\ try
              /\ calls' = Append(calls, PendingToken(m).t)
              /\ status' = "err" /\ errtok' = PendingToken(m).t
              /\ UNCHANGED <<ty, arg, src, kf, try, m>>

CallPanic  == /\ status = "run" /\ AtCall(m)
              /\ calls' = Append(calls, PendingToken(m).t)
              /\ status' = "panic"
              /\ UNCHANGED <<ty, arg, src, kf, try, m, errtok>>

Return     == /\ status = "run" /\ Finished(m)
              /\ status' = "ok"
              /\ UNCHANGED <<ty, arg, src, kf, try, m, calls, errtok>>

Next == StepSilent \/ CallOk \/ CallErr \/ CallPanic \/ Return

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
All == TokensOf(src)
RootTy == [ty EXCEPT !.a = Only(ty, arg)]
HasKeyed == \/ FALSE
            \/ LET RECURSIVE H(_)
                   H(v) == v.c \in KeyedC \/ \E i \in DOMAIN v.k : H(v.k[i])
               IN H(src)
Order == PassOrder(ty, arg, src)
Exp   == ExpectPass(ty, arg, src, kf)

\* C01: nothing lost, nothing invented, nothing called twice; the result is the expected one
ExactlyOnce == \A i, j \in DOMAIN calls : i # j => calls[i] # calls[j]
OnlyLeaves  == \A i \in DOMAIN calls : calls[i] \in CallsIn(Order)
AllCalled   == status = "ok" /\ ~HasKeyed => {calls[i] : i \in DOMAIN calls} = CallsIn(Order)
Shape       == status = "ok" => Meets(Result(m), Exp)
\* C02
InOrder     == ~HasKeyed => /\ \A i, j \in DOMAIN calls : i < j => ~MustPrecede(Order, calls[j], calls[i])
                            /\ Consumes(Order, calls)
Gapless     == ~HasKeyed => \A i \in DOMAIN calls : \A z \in CallsIn(Order) :
                   MustPrecede(Order, z, calls[i]) => \E j \in 1..(i - 1) : calls[j] = z
\* C03
FirstError  == status = "err" => calls # <<>> /\ errtok = calls[Len(calls)]
NoErrUnlessTry == status = "err" => try
\* C04: every token is either in the result or was discarded, never both, never twice
Conserve    == status = "ok" => /\ TokensOf(Result(m)) \cup m.garb = All
                                /\ TokensOf(Result(m)) \cap m.garb = {}
                                /\ Len(TokSeq(Result(m))) = Cardinality(TokensOf(Result(m)))
NoGarbage   == ~HasKeyed => m.garb = {}
\* C09
Keyed       == status = "ok" => WellFormed([Result(m) EXCEPT !.c = IF @ = "BinaryHeap" THEN "BinaryHeapIter" ELSE @]) \/ ~HasKeyed
\* C08 on the level of the specification: mapping is functorial
Ident       == status = "run" /\ calls = <<>> =>
                 LET e == ExpectPass(ty, arg, src, [a |-> 1, b |-> 0, m |-> 1009]) IN \* generations aside
                 ~HasKeyed => TokSeq(e) = TokSeq(src)
Compose     == status = "run" /\ calls = <<>> /\ kf.a = 100 =>
                 LET one == ExpectPass(ty, arg, ExpectPass(ty, arg, src, kf), [a |-> 3, b |-> 0, m |-> 1009])
                     two == ExpectPass(ty, arg, src, [a |-> 303 - 3, b |-> 3, m |-> 303])
                     RECURSIVE G0(_)
                     G0(v) == [v EXCEPT !.g = 0, !.k = [i \in DOMAIN v.k |-> G0(v.k[i])]]
                 IN  SameValue(G0(one), G0(two))
\* the machine always gets to the end
NotStuck    == status = "run" => ENABLED Next
=============================================================================
