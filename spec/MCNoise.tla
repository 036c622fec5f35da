------------------------------ MODULE MCNoise ------------------------------
EXTENDS Noise
(* (a) The coverage lemma; (b) the split the parties use, ceil(n/S) rows   *)
(* each, clamped, partitions the database, for all sizes up to MN.         *)
CONSTANTS MN, MS
VARIABLES n, S
Init == n \in 0..MN /\ S \in 1..MS
Next == UNCHANGED <<n, S>>
Spec == Init /\ [][Next]_<<n, S>>
Min(a, b) == IF a < b THEN a ELSE b
Ceil(a, b) == (a + b - 1) \div b
Ranges == [i \in 1..S |-> <<Min((i - 1) * Ceil(n, S), n), Min(i * Ceil(n, S), n)>>]
Partition == CheckRange([S |-> S, db |-> n, r |-> Ranges]) = {}
Lemma == (n <= 4 /\ S <= 3) => CoverLemma(n, S)
=============================================================================
