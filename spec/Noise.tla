------------------------------- MODULE Noise -------------------------------
(***************************************************************************)
(* Noise amounts and the split of the rows over sibling servers.           *)
(*                                                                         *)
(* Real arithmetic is outside TLA+'s integers: the cut-off                 *)
(* floor((2/eps) ln(1/delta)), its double and the expected bin sizes are   *)
(* supplied with each record, computed with 60 digits.                     *)
(***************************************************************************)
EXTENDS Comp
V(ok, prop, what) == IF ok THEN {} ELSE {<<prop, what>>}
CheckAmount(r) ==
  IF r.valid = 0 THEN     \* parameters without meaning: refused, or a harmless amount
    V(r.ok = 0 \/ \A i \in DOMAIN r.h : r.h[i][1] >= 0, "C16", "a negative or excessive amount of noise")
  ELSE IF r.fits = 0 THEN V(r.ok = 0, "C16", "an amount of noise that cannot be represented was not refused")
  ELSE V(r.ok = 1, "C16", "valid privacy parameters are refused")
       \cup V(r.ok = 1 => \A i \in DOMAIN r.h : r.h[i][1] = r.want, "C16", "the amount of noise is not floor((2/eps) ln(1/delta))")
CheckSampled(r) ==
  V(r.ok = 1, "C16", "valid privacy parameters are refused")
  \cup V(\A i \in DOMAIN r.h : r.h[i][1] \in 0..r.max, "C16", "a noise sample outside zero to twice the cut-off")
\* bins: <<observed, expected>>
CheckBins(r) ==
  V(\A i \in DOMAIN r.bins : Abs(r.bins[i][1] - r.bins[i][2]) <= 7 * (ISqrt(r.bins[i][2]) + 1) + 6, "C16", "noise samples are not Laplace distributed around the cut-off")
\* amounts for ever stricter parameters
CheckChain(r) == V(\A i \in 1..(Len(r.v) - 1) : r.v[i] <= r.v[i + 1], "C16", "stricter parameters give less noise")
\* ranges <<from, to>>, 0-based, to excluded
CheckRange(r) ==
  LET S == 1..r.S IN
  V(\A i \in S : r.r[i][1] <= r.r[i][2], "C17", "a range is ill formed")
  \cup V(\A i \in S : r.r[i][1] \in 0..r.db /\ r.r[i][2] \in 0..r.db, "C17", "a range lies outside the database")
  \cup V(\A i, j \in S : i # j => r.r[i][2] <= r.r[j][1] \/ r.r[j][2] <= r.r[i][1] \/ r.r[i][1] = r.r[i][2] \/ r.r[j][1] = r.r[j][2],
         "C17", "two servers noise the same row")
  \cup V(\A x \in ({0} \cup {r.r[i][2] : i \in S}) : x < r.db => \E i \in S : r.r[i][1] <= x /\ x < r.r[i][2], "C17", "a row is noised by no server")
Check(r) ==
  CASE r.t = "amount" -> CheckAmount(r)
    [] r.t = "sampled" -> CheckSampled(r)
    [] r.t = "bins" -> CheckBins(r)
    [] r.t = "chain" -> CheckChain(r)
    [] r.t = "range" -> CheckRange(r)
    [] r.t = "indep" -> V(Abs(r.eq - r.want) <= 8 * (ISqrt(r.want) + 1) + 6, "C16", "the noise of different rows is not independent")
    [] r.t = "fresh" -> V(r.distinct > 1, "C16", "the sampled noise is the same in every run")
---------------------------------------------------------------------------
(* The coverage argument used above, stated once for all splits of small   *)
(* databases: if the ranges are well formed and every row that starts the  *)
(* database or ends a range (and is a row) is covered, all rows are.       *)
Splits(n, S) == [1..S -> {<<a, b>> \in (0..n) \X (0..n) : a <= b}]
Covered(rs, n) == \A x \in 0..(n - 1) : \E i \in DOMAIN rs : rs[i][1] <= x /\ x < rs[i][2]
CoverLemma(n, S) ==
  \A rs \in Splits(n, S) :
    (\A x \in ({0} \cup {rs[i][2] : i \in DOMAIN rs}) : x < n => \E i \in DOMAIN rs : rs[i][1] <= x /\ x < rs[i][2]) <=> Covered(rs, n)
=============================================================================
