------------------------------- MODULE Timing -------------------------------
(* The times that the servers of a party report (C25).                       *)
(*                                                                           *)
(* Time passes only while nothing can move (the lab holds messages back and  *)
(* moves the clock): what is charged to a stage is decided by what has been  *)
(* delivered at that moment.                                                 *)
(*  - Offline: from the moment all servers of the party know how many        *)
(*    queries come, until all their successors have announced that they are  *)
(*    ready; not while the ciphers of the predecessors are under way; again  *)
(*    from the moment all servers have all ciphers until all successors are  *)
(*    ready for the online stage.                                            *)
(*  - Online: from the moment all servers have all queries until all have    *)
(*    all responses.                                                         *)
EXTENDS Comp
\* all servers of the party have all counts / their successors' 1st readiness / all ciphers / 2nd readiness
OffRuns(cnt, r1, cph, r2) == (cnt /\ ~r1) \/ (r1 /\ cph /\ ~r2)
\* ... are ready for the online stage / have all queries / have all responses
OnRuns(ready, qry, rsp) == ready /\ qry /\ ~rsp

\* ---- recorded runs: a fold over deliveries (D) and the passing of time (C) ----
V(ok, what) == IF ok THEN {} ELSE {<<"C25", what>>}
Start(r) == [cnt |-> [k \in 0..r.P-1 |-> [s \in 1..r.S |-> -1]],
             got |-> [k \in 0..r.P-1 |-> [s \in 1..r.S |-> [cnt |-> 0, rdy |-> 0, cph |-> 0, qry |-> 0, rsp |-> 0]]],
             off |-> [k \in 0..r.P-2 |-> 0], on |-> [k \in 0..r.P-2 |-> 0]]
Full(r, st, k, m) == \A s \in 1..r.S : st.cnt[k][s] >= 0 /\ st.got[k][s][m] = st.cnt[k][s]
Ready(r, st, k, n) == \A s \in 1..r.S : st.got[k][s].rdy >= n
Off(r, st, k) == /\ r.stage # "online"
                 /\ OffRuns(\A s \in 1..r.S : st.cnt[k][s] >= 0, Ready(r, st, k + 1, 1), Full(r, st, k, "cph"), Ready(r, st, k + 1, 2))
On(r, st, k) == /\ r.stage # "offline"
                /\ OnRuns(Ready(r, st, k + 1, IF r.stage = "all" THEN 2 ELSE 1), Full(r, st, k, "qry"), Full(r, st, k + 1, "rsp"))
Step(r, st, e) ==
  IF e.t = "D" THEN [st EXCEPT !.got[e.k][e.s][e.m] = @ + 1, !.cnt[e.k][e.s] = IF e.m = "cnt" THEN e.n ELSE @]
  ELSE [st EXCEPT !.off = [k \in DOMAIN @ |-> IF Off(r, st, k) THEN @[k] + e.d ELSE @[k]],
                  !.on = [k \in DOMAIN @ |-> IF On(r, st, k) THEN @[k] + e.d ELSE @[k]]]
RECURSIVE Run(_, _, _)
Run(r, st, i) == IF i > Len(r.ev) THEN st ELSE Run(r, Step(r, st, r.ev[i]), i + 1)
Check(r) ==
  IF r.ok = 0 THEN {}
  ELSE LET st == Run(r, Start(r), 1) IN
       UNION {UNION {
         V(r.off[k + 1][s] = (IF r.stage = "online" THEN <<>> ELSE <<st.off[k]>>), "a server does not report the time of its offline stage")
         \cup V(r.on[k + 1][s] = (IF r.stage = "offline" THEN <<>> ELSE <<st.on[k]>>), "a server does not report the time of its online stage") : s \in 1..r.S} : k \in 0..r.P-2}
=============================================================================
