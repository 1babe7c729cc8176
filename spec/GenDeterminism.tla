-------------------------- MODULE GenDeterminism -------------------------------
(***************************************************************************)
(* Schedules: runs of the compiler that expand NIN inputs, every input     *)
(* REPS times per run at random positions, some runs leave inputs out and  *)
(* some begin in the middle; each run has its own surroundings.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd, Json, IOUtils

NIn  == atoi(IOEnv.NIN)
Runs == atoi(IOEnv.RUNS)
Reps == atoi(IOEnv.REPS)
Seed == atoi(IOEnv.GENSEED)

VARIABLES run, seq, left
vars == <<run, seq, left>>

\* how often input x is expanded in run r
Times(r, x) == IF r > 1 /\ Chance(Sub(Sub(Seed, 40 + r), x), 1, 5) THEN 0 ELSE IF r = 1 THEN Reps ELSE 1 + Below(Sub(Sub(Seed, 50 + r), x), Reps)
Cards(r) == [n \in 1..(NIn * Reps) |-> LET x == 1 + ((n - 1) \div Reps) IN IF ((n - 1) % Reps) < Times(r, x) THEN x ELSE 0]
Surroundings(r) == [edition |-> From(Sub(Sub(Seed, 60), r), <<"2021", "2018", "2021">>), dir |-> Below(Sub(Sub(Seed, 61), r), 3),
                    env |-> Below(Sub(Sub(Seed, 62), r), 3), pad |-> Below(Sub(Sub(Seed, 63), r), 50)]

Init == run = 1 /\ seq = <<>> /\ left = SelectSeq(Cards(1), LAMBDA x : x > 0)
Draw == /\ left # <<>>
        /\ LET n == 1 + Below(Sub(Sub(Seed, 100 + run), Len(left)), Len(left)) IN
           seq' = Append(seq, left[n]) /\ left' = SubSeq([left EXCEPT ![n] = left[Len(left)]], 1, Len(left) - 1) /\ UNCHANGED run
Close == /\ left = <<>> /\ run <= Runs
         /\ PrintT("RUN " \o ToJson([seq |-> seq, around |-> Surroundings(run)]))
         /\ run' = run + 1 /\ seq' = <<>> /\ left' = IF run < Runs THEN SelectSeq(Cards(run + 1), LAMBDA x : x > 0) ELSE <<>>
Next == Draw \/ Close
=============================================================================
