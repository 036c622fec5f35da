------------------------------ MODULE MCDPPIR ------------------------------
(***************************************************************************)
(* Exhaustive exploration of DPPIR for small configurations: every         *)
(* schedule of sends and deliveries and every order in which parties emit  *)
(* their batches, restricted only by the guards of DPPIR.  It shows that a *)
(* system whose every step satisfies the guards is deadlock free, ends,    *)
(* and gives every client exactly its rows.                                *)
(***************************************************************************)
EXTENDS DPPIR
CONSTANTS MP, MS, MDb, MNoise, MStage, MQ, MFaults
VARIABLES st, faults
vars == <<st, faults>>

cf == [P |-> MP, S |-> MS, db |-> MDb, noise |-> MNoise, nmax |-> -1, stage |-> MStage, q |-> MQ,
       real |-> {<<k, s>> : k \in -1..(MP - 1), s \in 0..(MS - 1)},
       faulty |-> MFaults > 0, crash |-> FALSE, prime |-> 97, words |-> 1]

\* Secret number i (globally unique), seen from party k on: layers k..P-1.
Mk(i, j) == [tag |-> ToString(100 * i + j), next |-> IF j = MP - 1 THEN "end" ELSE ToString(100 * i + j + 1),
             x |-> (7 * i + 3 * j) % 97, y |-> 1 + ((5 * i + 11 * j) % 96), pre |-> << 1 + 10 * i + j >>]
Cipher(i, k) == [id |-> 10 * i + k, inner |-> IF k = MP - 1 THEN 0 ELSE 10 * i + k + 1, ok |-> TRUE,
                 lay |-> [j \in 1..(MP - k) |-> Mk(i, k + j - 1)]]
BadCipher(c) == [c EXCEPT !.ok = FALSE, !.lay = <<>>, !.inner = 0]
\* Secrets 1.. belong to clients, then to the noise of party 0, 1, ...
RECURSIVE QSum(_)
QSum(n) == IF n = 0 THEN 0 ELSE MQ[n] + QSum(n - 1)
ClientBase(s) == QSum(s)
NoiseBase(k) == QSum(MS) + k * MNoise * MDb
Owner(i) == CHOOSE k \in 0..(MP - 2) : i > NoiseBase(k) /\ i <= NoiseBase(k + 1)
SecretOf(id) == id \div 10

\* The tally that reconstructs to row r through these layers.
Inv(y) == CHOOSE z \in 1..96 : (y * z) % 97 = 1
RECURSIVE Start(_, _)
Start(lays, r) ==
  IF lays = <<>> THEN r
  ELSE LET n == Len(lays)
           l == lays[n]
       IN Start(SubSeq(lays, 1, n - 1), ((r + 97 - l.x) * Inv(l.y)) % 97)
RowOf(s, j) == (s + j) % MDb

Msgs(k, s, m) ==
  LET p == k - 1 l == st.L[k][s] IN
  CASE m = "cnt" -> IF l.cs >= 0 THEN {} ELSE {[n |-> i] : i \in 0..(QSum(MS) + MP * MNoise * MDb)}
    [] m = "rdy" -> IF l.ys < ReadyMax(cf) THEN {[v |-> 1, w |-> 0]} ELSE {}
    [] m = "cph" ->
         IF ~Off(cf) \/ l.cs < 0 \/ l.cphS >= l.cs THEN {}
         ELSE IF k = 0 THEN {Cipher(ClientBase(s) + l.cphS + 1, 0)}
         ELSE {Cipher(SecretOf(x), k) : x \in {y \in DOMAIN st.cpool[p] : st.cpool[p][y] > 0}}
              \cup (IF st.nc[p] < MNoise * MDb THEN {Cipher(NoiseBase(p) + st.nc[p] + 1, k)} ELSE {})
    [] m = "qry" ->
         IF ~On(cf) \/ l.cs < 0 \/ l.qryS >= l.cs THEN {}
         ELSE IF k = 0
         THEN LET c == Cipher(ClientBase(s) + l.qryS + 1, 0) IN
              {[tag |-> IF Off(cf) THEN c.lay[1].tag ELSE "0",
                tally |-> IF Off(cf) THEN Start(c.lay, RowOf(s, l.qryS)) ELSE RowOf(s, l.qryS)]}
         ELSE {[tag |-> x[1], tally |-> x[2]] : x \in {y \in DOMAIN st.qpool[p] : st.qpool[p][y] > 0}}
              \cup (LET rows == {r \in 0..(MDb - 1) : MsCount(st.nk[p], r) < MNoise}
                    IN IF rows = {} THEN {}
                       ELSE LET r == CHOOSE r \in rows : \A z \in rows : r <= z
                                u == SumTo([z \in 0..(MDb - 1) |-> MsCount(st.nk[p], z)], MDb - 1) + 1
                                c == Cipher(NoiseBase(p) + u, k)
                            IN {[tag |-> IF Off(cf) THEN c.lay[1].tag ELSE "0",
                                 tally |-> IF Off(cf) THEN Start(c.lay, r) ELSE r]})
    [] m = "rsp" ->
         IF ~On(cf) \/ l.rspS >= Len(l.qryI) THEN {}
         ELSE LET q == l.qryI[l.rspS + 1] IN
              IF ~Known(cf, st, k, q.tag) THEN {}
              ELSE LET sec == Secret(cf, st, k, q.tag) IN
                   IF k = MP - 1
                   THEN {[w |-> XorW(Row(cf, StepTally(q.tally, sec, 97)), sec.pre)]}
                   ELSE LET out == Forwarded(cf, st, k, q)
                            at == IF out \in DOMAIN st.opos[k] THEN st.opos[k][out] ELSE {}
                        IN {[w |-> XorW(st.L[k + 1][a[1]].rspI[a[2]].w, sec.pre)] :
                              a \in {b \in at : b[2] <= Len(st.L[k + 1][b[1]].rspI)}}

Kinds == {"cnt", "rdy", "cph", "qry", "rsp"}
Sends == UNION {{[t |-> "S", k |-> k, s |-> s, m |-> m, msg |-> msg] : msg \in Msgs(k, s, m)} :
                   k \in 0..(MP - 1), s \in 0..(MS - 1), m \in Kinds}

Finished(k, s) ==
  /\ k >= 0 => /\ st.L[k][s].ys = ReadyMax(cf) /\ st.L[k][s].cd
               /\ On(cf) => st.L[k][s].rspS = st.L[k][s].cs
               /\ Off(cf) => st.L[k][s].cphD = st.L[k][s].cs
  /\ k < MP - 1 => /\ st.L[k + 1][s].cs >= 0 /\ st.L[k + 1][s].yd = ReadyMax(cf)
                   /\ Off(cf) => st.L[k + 1][s].cphS = st.L[k + 1][s].cs
                   /\ On(cf) => Len(st.L[k + 1][s].rspI) = st.L[k + 1][s].cs
Exits == {[t |-> "X", k |-> n[1], s |-> n[2], ok |-> TRUE] :
             n \in {n \in cf.real : n \notin DOMAIN st.exits /\ Finished(n[1], n[2])}}

Del(k, s, m, msg) == [t |-> "D", k |-> k, s |-> s, m |-> m, msg |-> msg]
Deliveries ==
  UNION {LET l == st.L[k][s] IN
         (IF l.cs >= 0 /\ ~l.cd THEN {Del(k, s, "cnt", [n |-> l.cs])} ELSE {})
         \cup (IF l.ys > l.yd THEN {Del(k, s, "rdy", [v |-> 1, w |-> 0])} ELSE {})
         \cup (IF l.cphQ # <<>> /\ l.cd THEN {Del(k, s, "cph", Head(l.cphQ))} ELSE {})
         \cup (IF l.qryQ # <<>> /\ l.cd /\ l.cphQ = <<>> THEN {Del(k, s, "qry", Head(l.qryQ))} ELSE {})
         \cup (IF l.rspQ # <<>> /\ l.yd = l.ys THEN {Del(k, s, "rsp", Head(l.rspQ))} ELSE {}) :
         k \in 0..(MP - 1), s \in 0..(MS - 1)}

Init == st = State0(cf) /\ faults = 0
\* A process sends only what it can know: its own kind of messages, never while it is dead.
Alive(n) == n \notin DOMAIN st.exits
Step(e) == /\ Violations(cf, st, e) = {}
           /\ st' = Apply(cf, st, e)
           /\ UNCHANGED faults
Send == \E e \in Sends : Alive(Sender(e.k, e.s, e.m)) /\ Step(e)
Deliver == \E e \in Deliveries : Step(e)
Exit == \E e \in Exits : Step(e)

\* Faults: a message in transit is altered, or a process dies.  In a faulty configuration
\* Violations only has the C10 guards, so processes are held to the other guards here.
Strict == [cf EXCEPT !.faulty = FALSE]
SendStrict == \E e \in Sends : /\ Alive(Sender(e.k, e.s, e.m))
                               /\ Violations(Strict, st, e) \ {v \in Violations(Strict, st, e) : v[1] = "C08" \/ v[1] = "C09"} = {}
                               /\ Violations(cf, st, e) = {}
                               /\ st' = Apply(cf, st, e) /\ UNCHANGED faults
Corrupt ==
  /\ faults < MFaults /\ faults' = faults + 1
  /\ \E k \in 0..(MP - 1), s \in 0..(MS - 1) :
       \/ /\ st.L[k][s].cphQ # <<>>
          /\ st' = [st EXCEPT !.L[k][s].cphQ[1] = BadCipher(@), !.bad = @ \cup {k}]
       \/ /\ st.L[k][s].qryQ # <<>>
          /\ st' = [st EXCEPT !.L[k][s].qryQ[1].tally = (@ + 1) % 97]
       \/ /\ st.L[k][s].rspQ # <<>>
          /\ st' = [st EXCEPT !.L[k][s].rspQ[1].w = [i \in DOMAIN @ |-> @[i] ^^ 1]]
Crash ==
  /\ faults < MFaults /\ faults' = faults + 1
  /\ \E n \in cf.real : n \notin DOMAIN st.exits /\ n[1] >= 0 /\ st' = [st EXCEPT !.exits = (n :> FALSE) @@ @]
\* A client checks its rows and reports failure if they are not what it asked for.
ExitFaulty ==
  /\ UNCHANGED faults
  /\ \E e \in Exits :
       LET ok == IF e.k = -1 THEN ClientCorrect(cf, st, e.s) ELSE TRUE IN
       /\ Violations(cf, st, [e EXCEPT !.ok = ok]) = {}
       /\ st' = Apply(cf, st, [e EXCEPT !.ok = ok])

AllDone == cf.real \subseteq DOMAIN st.exits
Done == AllDone /\ UNCHANGED vars
Next == IF MFaults = 0 THEN Send \/ Deliver \/ Exit \/ Done
        ELSE SendStrict \/ Deliver \/ Corrupt \/ Crash \/ ExitFaulty
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
(* Invariants of the whole system *)
Answers == \A s \in Servers(cf) : (<<-1, s>> \in DOMAIN st.exits /\ st.exits[<<-1, s>>]) =>
   /\ ClientCorrect(cf, st, s)
   /\ (On(cf) /\ MFaults = 0) => \A j \in 1..cf.q[s + 1] : st.ckey[s][j].key = RowOf(s, j - 1)
Bounds == \A k \in Parties(cf), s \in Servers(cf) : LET l == st.L[k][s] IN
   /\ l.cphS <= IF l.cs < 0 THEN 0 ELSE l.cs
   /\ Len(l.qryI) + Len(l.qryQ) = l.qryS
   /\ l.rspS <= Len(l.qryI)
BatchBarrier == \A k \in 1..(MP - 1), s \in Servers(cf) :
   /\ st.L[k][s].cphS > 0 => CiphersIn(cf, st, k - 1)
   /\ st.L[k][s].qryS > 0 => QueriesIn(cf, st, k - 1)
NoiseComplete == (AllDone /\ MFaults = 0 /\ On(cf)) => \A k \in 0..(MP - 2), r \in 0..(MDb - 1) : MsCount(st.nk[k], r) = MNoise
EndClean == (AllDone /\ MFaults = 0) => GEnd(cf, st) = {}
BadStops == \A k \in st.bad : \A s \in Servers(cf) : (k < MP - 1 => st.L[k + 1][s].cphS = 0) /\ st.L[k][s].ys < 2
Terminates == <>AllDone
=============================================================================
