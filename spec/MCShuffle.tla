----------------------------- MODULE MCShuffle -----------------------------
(* All loads, assignments and local permutations of small parties: the      *)
(* forward walk followed by the backward walk brings every response home,   *)
(* and forgets exactly the noise.                                           *)
EXTENDS Shuffle, TLCExt
CONSTANTS MS, MMax
VARIABLES counts, noise, asg, perm, phase
vars == <<counts, noise, asg, perm, phase>>
Srv == 1..MS
Loads == {c \in [Srv -> 0..MMax] : Total(c) <= MMax + 1}
AllAsg(c) == {a \in [Srv -> UNION {[1..n -> 0..(MS - 1)] : n \in 0..MMax}] : ValidAsg(a, c)}
Perms(n) == {f \in [1..n -> 0..(n - 1)] : {f[i] : i \in 1..n} = 0..(n - 1)}
Init == /\ counts \in Loads /\ noise \in [Srv -> 0..MMax] /\ \A s \in Srv : noise[s] <= counts[s]
        /\ asg = <<>> /\ perm = <<>> /\ phase = "load"
Assign == /\ phase = "load" /\ phase' = "asg" /\ UNCHANGED <<counts, noise, perm>>
          /\ \E a \in AllAsg(counts) : asg' = a
Permute == /\ phase = "asg" /\ phase' = "done" /\ UNCHANGED <<counts, noise, asg>>
           /\ perm' \in [Srv -> UNION {Perms(n) : n \in 0..(MMax + 1)}]
           /\ \A s \in Srv : Len(perm'[s]) = SliceOf(counts, s)
Next == Assign \/ Permute
Spec == Init /\ [][Next]_vars
\* message (s, i) -> (server, position after the local shuffle)
RankIn(a, s, i) == Cardinality({j \in 1..(i - 1) : a[s][j] = a[s][i]})
OutIn(a, pm, s, i) == <<a[s][i] + 1, pm[a[s][i] + 1][PreC(a, a[s][i] + 1, s) + RankIn(a, s, i) + 1]>>
Out(s, i) == OutIn(asg, perm, s, i)
\* and back: undo the local shuffle, find the source, take its next position
Back(t, x) ==
  LET a == (CHOOSE a \in 1..Len(perm[t]) : perm[t][a] = x)
      s == SrcOf(asg, t, a)
  IN <<s, SentTo(asg, s, t)[a - PreC(asg, t, s)]>>
Msgs == {<<s, i>> : s \in Srv, i \in 1..MMax}
Live == {m \in Msgs : m[2] <= counts[m[1]]}
Bijection == phase = "done" =>
  /\ \A m \in Live, k \in Live : Out(m[1], m[2]) = Out(k[1], k[2]) => m = k
  /\ {Out(m[1], m[2]) : m \in Live} = UNION {{<<t, x>> : x \in 0..(SliceOf(counts, t) - 1)} : t \in Srv}
Returns == phase = "done" => \A m \in Live : LET o == Out(m[1], m[2]) IN Back(o[1], o[2]) = m
Balance == phase # "load" => \A t \in Srv : SumTo([s \in Srv |-> FromC(asg, t, s)], MS) = SliceOf(counts, t)
\* Every order of the whole batch results, from exactly as many choices as any other: with a
\* uniform assignment and uniform local orders the composed shuffle is uniform.
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
LocalOrders(c) == {f \in [Srv -> UNION {Perms(n) : n \in 0..Total(c)}] : \A s \in Srv : Len(f[s]) = SliceOf(c, s)}
UniformFor(c) ==
  LET ms == {m \in Msgs : m[2] <= c[m[1]]}
      ch == AllAsg(c) \X LocalOrders(c)
      ord == [x \in ch |-> [m \in ms |-> OutIn(x[1], x[2], m[1], m[2])]]
      all == {ord[x] : x \in ch}
      n == Fact(Total(c))
  IN Cardinality(all) = n /\ \A o \in all : Cardinality({x \in ch : ord[x] = o}) * n = Cardinality(ch)
Uniform == (phase = "load" /\ Total(counts) <= 4 /\ \A s \in Srv : noise[s] = 0) => UniformFor(counts)
=============================================================================
