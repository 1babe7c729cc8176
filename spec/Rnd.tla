--------------------------------- MODULE Rnd ---------------------------------
(* A splittable pseudo-random generator in plain TLA+, so that everything    *)
(* TLC generates is a pure function of the seed.                             *)
EXTENDS Integers, Sequences

Scramble(s, i) == ((s % 32749) * 32719 + (s \div 32749) * 7919 + (i % 1000) * 1009 + 12345) % 1073741789
\* the i-th child of seed s
Sub(s, i) == Scramble(Scramble(Scramble(s, i), 17), i + 1)
\* a number in 0..n-1
Below(s, n) == (Scramble(s, 3) \div 64) % n
\* an element of a sequence
From(s, q) == q[Below(s, Len(q)) + 1]
\* true with probability p/q
Chance(s, p, q) == Below(s, q) < p
=============================================================================
