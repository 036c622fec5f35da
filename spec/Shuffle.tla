------------------------------ MODULE Shuffle ------------------------------
(***************************************************************************)
(* Two-level shuffle. Every server s holds an input batch of counts[s]     *)
(* messages, its noise first. A common assignment (drawn from the shared   *)
(* seed) sends each message to a server so that server t gets its slice;   *)
(* arrivals are ordered by source, then permuted locally. Everything a     *)
(* server computes is a function of the assignment, given here, so that    *)
(* independent computations by all siblings have to agree.                 *)
(*                                                                         *)
(* An assignment is given as asg[s][i]: the target of message i of server  *)
(* s (servers 0-based inside values, sequences 1-based).                   *)
(***************************************************************************)
EXTENDS Comp
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Total(counts) == SumTo(counts, Len(counts))
SliceOf(counts, s) ==        \* s is 1-based
  LET n == Total(counts) S == Len(counts)
  IN IF s < S THEN n \div S ELSE n - (S - 1) * (n \div S)
\* the positions of the messages of s that go to t, in order
SentTo(asg, s, t) == SelectSeq([i \in 1..Len(asg[s]) |-> i], LAMBDA i : asg[s][i] = t - 1)
ToC(asg, s, t) == Cardinality({i \in 1..Len(asg[s]) : asg[s][i] = t - 1})
NoiseC(asg, s, t, z) == Cardinality({i \in 1..z : asg[s][i] = t - 1})
FromC(asg, t, s) == ToC(asg, s, t)
PreC(asg, t, s) == SumTo([r \in 1..Len(asg) |-> FromC(asg, t, r)], s - 1)
\* source (1-based) of position x (1-based) of the arrivals of t
SrcOf(asg, t, x) == CHOOSE s \in 1..Len(asg) : PreC(asg, t, s) < x /\ x <= PreC(asg, t, s) + FromC(asg, t, s)
ValidAsg(asg, counts) ==
  /\ Len(asg) = Len(counts)
  /\ \A s \in DOMAIN counts : Len(asg[s]) = counts[s] /\ \A i \in DOMAIN asg[s] : asg[s][i] \in 0..(Len(counts) - 1)
  /\ \A t \in DOMAIN counts : SumTo([s \in DOMAIN counts |-> ToC(asg, s, t)], Len(counts)) = SliceOf(counts, t)
IsPerm(f, n) == Len(f) = n /\ {f[i] : i \in 1..n} = 0..(n - 1)
---------------------------------------------------------------------------
V(ok, prop, what) == IF ok THEN {} ELSE {<<prop, what>>}
CheckLocal(r, n) ==
  V(IsPerm(r.f, n), "C14", "the local shuffle is not a bijection")
  \cup V(IsPerm(r.b, n) /\ IsPerm(r.f, n) => \A i \in 1..n : r.b[r.f[i] + 1] = i - 1, "C14", "the reverse local shuffle does not undo the shuffle")
  \cup V(IsPerm(r.b, n), "C14", "the reverse local shuffle is not a bijection")
CheckSide(asg, counts, noise, sd, s) ==
  LET T == DOMAIN counts IN
  V(\A t \in T : sd.to[t] = ToC(asg, s, t), "C14", "wrong number of messages to a sibling")
  \cup V(\A t \in T : sd.noise[t] = NoiseC(asg, s, t, noise[s]), "C14", "wrong number of noise messages to a sibling")
  \cup V(\A t \in T : sd.from[t] = FromC(asg, s, t), "C14", "siblings disagree on how many messages flow between them")
  \cup V(\A t \in T : sd.pre[t] = PreC(asg, s, t), "C14", "wrong start of a sibling's messages")
  \cup V(sd.slice = SliceOf(counts, s), "C14", "a server does not get its even slice")
  \cup V(\A x \in DOMAIN sd.src : sd.src[x] = SrcOf(asg, s, x) - 1, "C14", "a response would be returned to the wrong sibling")
  \cup V(\A t \in T : LET p == SentTo(asg, s, t) IN sd.back[t] = [k \in 1..Len(p) |-> p[k] - 1], "C14", "reversing the shuffle does not return messages to where they came from")
Reached(c, n, b) == n \div b < 40 \/ c > 0
Check(r) ==
  CASE r.t = "local" -> CheckLocal(r, r.n) \cup UNION {CheckLocal(a, r.n \div 2 + 3) : a \in {r.again[i] : i \in DOMAIN r.again}}
    [] r.t = "par" ->
         LET asg == [s \in DOMAIN r.side |-> r.side[s].fwd] IN
         IF ~ValidAsg(asg, r.counts) THEN {<<"C14", "the siblings' assignments do not give each server its slice">>}
         ELSE UNION {CheckSide(asg, r.counts, r.noise, r.side[s], s) : s \in DOMAIN r.side}
    [] r.t = "big" ->
         V(r.range = 0, "C14", "out of range or uneven slice in a large batch")
         \cup V(r.dup = 0, "C14", "two messages share a place in a large batch")
         \cup V(r.rev = 0, "C14", "the reverse does not undo the shuffle of a large batch")
         \cup V(r.other = 0, "C14", "siblings disagree on a large batch")
    [] r.t = "freq" ->
         V(\A i \in DOMAIN r.c : Reached(r.c[i], r.n, Len(r.c)), "C15", "an order or assignment cannot result from the shuffle")
         \cup V(\A i \in DOMAIN r.c : NearUniform(r.c[i], r.n, Len(r.c)), "C15", "orders or assignments are not equally likely")
    [] r.t = "matrix" ->
         V(\A i \in DOMAIN r.c : \A j \in DOMAIN r.c[i] : Reached(r.c[i][j], r.n, Len(r.c[i])), "C15", "an input position cannot reach some output position")
         \cup V(\A i \in DOMAIN r.c : \A j \in DOMAIN r.c[i] : NearUniform(r.c[i][j], r.n, Len(r.c[i])), "C15", "an input position prefers some output position")
    [] r.t = "wmatrix" ->
         V(\A i \in DOMAIN r.c : \A j \in DOMAIN r.c[i] : Abs(r.c[i][j] - (r.n * r.w[j]) \div r.total) <= 7 * (ISqrt((r.n * r.w[j]) \div r.total) + 1) + 4,
           "C15", "an input position prefers some sibling")
=============================================================================
