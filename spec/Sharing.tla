------------------------------ MODULE Sharing ------------------------------
(***************************************************************************)
(* Incremental secret sharing (a tally walks through the parties, each     *)
(* applying t |-> t*y + x mod p) and additive masks (XOR to zero).         *)
(***************************************************************************)
EXTENDS Comp, Bitwise
S_AddMod(a, b, p) == IF a >= p - b THEN a - (p - b) ELSE a + b
RECURSIVE S_MulMod(_, _, _)
S_MulMod(a, b, p) ==
  IF b = 0 THEN 0
  ELSE LET d == LET h == S_MulMod(a, b \div 2, p) IN S_AddMod(h, h, p)
       IN IF b % 2 = 1 THEN S_AddMod(d, a % p, p) ELSE d
Step(t, sh, p) == S_AddMod(S_MulMod(t, sh.y, p), sh.x, p)
RECURSIVE Walk(_, _, _)     \* the tallies after 1, 2, ... parties
Walk(t, shares, p) == IF shares = <<>> THEN <<>>
                      ELSE LET u == Step(t, Head(shares), p) IN <<u>> \o Walk(u, Tail(shares), p)
ShareOk(sh, p) == sh.x \in 0..(p - 1) /\ sh.y \in 1..(p - 1)

XorS(a, b) == [i \in DOMAIN a |-> a[i] ^^ b[i]]
RECURSIVE XorMany(_, _)
XorMany(seqs, acc) == IF seqs = <<>> THEN acc ELSE XorMany(Tail(seqs), XorS(acc, Head(seqs)))
Zero(n) == [i \in 1..n |-> 0]

---------------------------------------------------------------------------
(* Conformance of recorded calls *)
Prime == 2147483647
V(ok, prop, what) == IF ok THEN {} ELSE {<<prop, what>>}
Check(r) ==
  CASE r.t = "inc" ->
         V(\A i \in DOMAIN r.shares : ShareOk(r.shares[i], Prime), "C12", "share outside its domain")
         \cup V(r.tally \in 0..(Prime - 1), "C12", "initial tally is not a field element")
         \cup (IF r.tally \in 0..(Prime - 1) /\ \A i \in DOMAIN r.shares : ShareOk(r.shares[i], Prime)
               THEN V(r.steps = Walk(r.tally, r.shares, Prime), "C12", "a party's step is not t*y+x mod p")
                    \cup V(r.steps[Len(r.steps)] = r.key, "C12", "the tally does not lead back to the key")
               ELSE {})
    [] r.t = "range" ->
         V(r.lox >= 0 /\ r.hix \in 0..(Prime - 1) /\ r.loy >= 1 /\ r.hiy \in 1..(Prime - 1), "C12", "share outside its domain")
         \cup V(r.calls = 1 => r.lox = 0 /\ r.hix = Prime - 1 /\ r.loy = 1 /\ r.hiy = Prime - 1, "C12",
                "a share component does not range over its whole domain")
    [] r.t = "hist" ->
         V(\A i \in DOMAIN r.c : NearUniform(r.c[i], r.n, Len(r.c)), r.prop, "values are not uniformly distributed")
    [] r.t = "ones" ->
         V(\A i \in DOMAIN r.c : NearUniform(r.c[i], r.n, 2), "C13", "a bit of a proper subset of masks is biased")
    [] r.t = "fresh" ->     \* n values, of one or many calls
         V(r.repeated <= r.allowed, r.prop, "values repeat within a run")
    [] r.t = "mask" ->
         V(Len(r.m) = r.n, "C13", "wrong number of masks")
         \cup V(XorMany(r.m, Zero(26)) = Zero(26), "C13", "masks do not combine to zero")
         \cup V(\A i \in DOMAIN r.ord : r.steps[i] = XorS(IF i = 1 THEN r.resp ELSE r.steps[i - 1], r.m[r.ord[i]]), "C13",
                "removing a mask does not change exactly the masked bits")
         \cup V(r.steps[Len(r.steps)] = r.resp, "C13", "removing all masks does not restore the response")
    [] r.t = "gen" ->       \* outputs under equal and different generator states
         V(r.same = 1, r.prop, "values do not depend on the cryptographic generator alone")
         \cup V(r.repeated = 0, r.prop, "values repeat under different generator states or within a run")
=============================================================================
