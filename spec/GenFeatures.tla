------------------------------ MODULE GenFeatures ------------------------------
(* The configurations to try: every single dependent, and some choices of two *)
EXTENDS Features, Rnd, TLC, Json, IOUtils
Seed == atoi(IOEnv.GENSEED)
NTwo == atoi(IOEnv.NTWO)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Rs == SetSeq(Requests)
Of(k) == IF k <= Len(Rs) THEN <<Rs[k]>> ELSE <<From(Sub(Sub(Seed, k), 1), Rs), From(Sub(Sub(Seed, k), 2), Rs)>>
VARIABLES k, m
Total == Len(Rs) + NTwo
Init == k = 1 /\ m = StartM
Next == /\ k <= Total
        /\ IF m.ph # "done" THEN m' = Step(m, Of(k)) /\ UNCHANGED k
           ELSE /\ PrintT("CONF " \o ToJson([id |-> k, reqs |-> [i \in DOMAIN Of(k) |-> [d |-> Of(k)[i].d, fs |-> SetSeq(Of(k)[i].fs)]],
                                             on |-> SetSeq(m.on), linked |-> SetSeq(m.linked),
                                             types |-> [i \in 1..Cardinality(LibC \cup NoneC) |-> LET c == SetSeq(LibC \cup NoneC)[i] IN
                                                        [c |-> c, args |-> IF c \in NoneC THEN 1 ELSE Args(c), yes |-> c \in m.impls]]]))
                /\ k' = k + 1 /\ m' = StartM
=============================================================================
