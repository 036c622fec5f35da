------------------------------- MODULE Onion -------------------------------
(***************************************************************************)
(* Onion ciphers, symbolically: Seal(k, n, body) can be opened only with   *)
(* key k; n is the nonce; an altered cipher is Junk. The body is a secret  *)
(* and the cipher for the next party (or Nil for the last).                *)
(***************************************************************************)
EXTENDS Comp
Nil == [t |-> "nil"]
Junk == [t |-> "junk"]
Seal(k, n, secret, inner) == [t |-> "seal", key |-> k, nonce |-> n, secret |-> secret, inner |-> inner]
Opens(c, k) == c.t = "seal" /\ c.key = k
Size(c, unit) == IF c.t # "seal" THEN 0 ELSE unit
RECURSIVE Make(_, _, _)
Make(keys, secrets, nonces) ==
  IF keys = <<>> THEN Nil ELSE Seal(Head(keys), Head(nonces), Head(secrets), Make(Tail(keys), Tail(secrets), Tail(nonces)))
RECURSIVE Depth(_)
Depth(c) == IF c.t = "seal" THEN 1 + Depth(c.inner) ELSE 0
V(ok, prop, what) == IF ok THEN {} ELSE {<<prop, what>>}
\* the secrets the parties obtain, each opening what the one before handed over
RECURSIVE OpenAll(_, _)
OpenAll(c, keys) == IF keys = <<>> THEN <<>>
                    ELSE IF Opens(c, Head(keys)) THEN <<c.secret>> \o OpenAll(c.inner, Tail(keys))
                    ELSE [i \in DOMAIN keys |-> 0]
Check(r) ==
  CASE r.t = "chain" ->
         LET k == r.P - r.first
             keys == [i \in 1..k |-> r.first + i]
             c == Make(keys, r.want, keys)
         IN V(r.got = OpenAll(c, keys), "C08", "a party does not obtain exactly the secret meant for it")
            \cup V(\A j \in 1..k : r.wrong[j] = <<>>, "C08", "a cipher is opened with another key")
            \cup V(\A j \in 1..k : r.lens[j] = r.sizes[j] /\ r.sizes[j] >= r.secret * (k - j + 1), "C08", "a cipher does not have the length of its hop")
    [] r.t = "alter" -> V(r.accepted = <<>>, "C08", "an altered cipher is accepted")
    [] r.t = "fresh" -> V(r.distinct = r.made /\ r.same <= 3, "C08", "two encryptions of the same secrets agree")
                        \cup V(r.lens = 1, "C08", "ciphers of different lengths at one hop")
=============================================================================
