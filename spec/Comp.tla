-------------------------------- MODULE Comp --------------------------------
(* Skeleton for checking records produced by a component harness: module M  *)
(* extends this one and defines Check(r), the set of <<property,            *)
(* explanation>> that record r contradicts.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CompRecs == ndJsonDeserialize(IOEnv.TRACES)
\* |c - n/b| is at most 7 standard deviations (plus 3) of a binomial(n, 1/b): 49 n (b-1)/b^2.
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE ISqrtN(_, _)
ISqrtN(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtN(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISqrtN(n, n)
NearUniform(c, n, b) == Abs(c - n \div b) <= 7 * (ISqrt(n \div b) + 1) + 4
=============================================================================
