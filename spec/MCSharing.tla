----------------------------- MODULE MCSharing -----------------------------
(* Exhaustive check of the sharing scheme itself for small primes and all  *)
(* shares: correctness and perfect hiding of every proper prefix; and of   *)
(* the masks for short words.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise
CONSTANTS MPrime, MN, MWord
VARIABLES key, shares, stage
vars == <<key, shares, stage>>
F == 0..(MPrime - 1)
Sh == [x : F, y : F \ {0}]
Inv(y) == CHOOSE z \in F : (y * z) % MPrime = 1
RECURSIVE Tally(_, _)
Tally(k, s) == IF s = <<>> THEN k
               ELSE LET n == Len(s) IN Tally(((k + MPrime - s[n].x) * Inv(s[n].y)) % MPrime, SubSeq(s, 1, n - 1))
RECURSIVE Fold(_, _)
Fold(t, s) == IF s = <<>> THEN t ELSE Fold((t * Head(s).y + Head(s).x) % MPrime, Tail(s))
Init == key \in F /\ shares = <<>> /\ stage = "draw"
Draw == stage = "draw" /\ Len(shares) < MN /\ \E s \in Sh : shares' = Append(shares, s) /\ UNCHANGED <<key, stage>>
Use == stage = "draw" /\ Len(shares) = MN /\ stage' = "used" /\ UNCHANGED <<key, shares>>
Next == Draw \/ Use
Spec == Init /\ [][Next]_vars
Reconstructs == stage = "used" => Fold(Tally(key, shares), shares) = key
InField == stage = "used" => \A i \in 0..MN : Fold(Tally(key, shares), SubSeq(shares, 1, i)) \in F
\* Hiding: what a proper prefix of parties sees is equally likely for every key.
Seqs == [1..MN -> Sh]
View(k, s, i) == <<SubSeq(s, 1, i), Fold(Tally(k, s), SubSeq(s, 1, i))>>
Hides == \A i \in 0..(MN - 1) : \A v \in F :
           \A k1, k2 \in {0, 1, MPrime - 1} :
             LET n(k) == Cardinality({s \in Seqs : Fold(Tally(k, s), SubSeq(s, 1, i)) = v}) IN n(k1) = n(k2)
Uniform == \A k \in {0, 1, MPrime - 1} : \A i \in 0..(MN - 1) : \A v, w \in F :
             Cardinality({s \in Seqs : Fold(Tally(k, s), SubSeq(s, 1, i)) = v})
             = Cardinality({s \in Seqs : Fold(Tally(k, s), SubSeq(s, 1, i)) = w})
\* Masks: n words, the last one closing the sum; every proper subset is uniform.
W == 0..(MWord - 1)
RECURSIVE XorSeq(_)
XorSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) ^^ XorSeq(Tail(s))
Masks == {Append(s, XorSeq(s)) : s \in [1..MN -> W]}
Pick(m, sub) == [i \in 1..(MN + 1) |-> IF i \in sub THEN m[i] ELSE 0]
MasksCancel == \A m \in Masks : XorSeq(m) = 0
MasksHide == \A sub \in (SUBSET (1..(MN + 1))) \ {{}, 1..(MN + 1)} : \A v, w \in W :
               Cardinality({m \in Masks : XorSeq(Pick(m, sub)) = v}) = Cardinality({m \in Masks : XorSeq(Pick(m, sub)) = w})
ASSUME Uniform /\ Hides /\ MasksCancel /\ MasksHide
=============================================================================
