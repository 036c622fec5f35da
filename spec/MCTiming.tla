------------------------------ MODULE MCTiming ------------------------------
(* The steps of the servers, with the points at which they read the clock.   *)
(* Whole batches are one message. Between servers of a party nothing takes   *)
(* time: time passes only when no server can take a step.                    *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS P, S, Stage, MaxTicks
T == INSTANCE Timing
VARIABLES pc,      \* pc[k][s]: the next step of server s of party k; k = -1: clients
          chan,    \* chan[k][s]: messages under way between party k-1 and party k
          dlv,     \* dlv[k][s]: messages delivered there
          meter,   \* what the servers would report: clock readings, added up
          mark,    \* clock reading at the start of the current part of a stage
          now, ticks, obs
vars == <<pc, chan, dlv, meter, mark, now, ticks, obs>>
Srv == 1..S
Offl == Stage # "online"
Onl == Stage # "offline"
\* Step: <<what, argument>>
Party == <<<<"wait", "cnt">>, <<"meet", "">>>> \o (IF Offl THEN <<<<"start", "">>>> ELSE <<>>) \o <<<<"next", "cnt">>, <<"waitn", "r1">>, <<"meet", "">>, <<"back", "r1">>>>
         \o (IF Offl THEN <<<<"stop", "off">>, <<"wait", "cph">>, <<"meet", "">>, <<"start", "">>, <<"next", "cph">>, <<"waitn", "r2">>, <<"meet", "">>, <<"back", "r2">>, <<"stop", "off">>>> ELSE <<>>)
         \o (IF Onl THEN <<<<"wait", "qry">>, <<"meet", "">>, <<"start", "">>, <<"next", "qry">>, <<"waitn", "rsp">>, <<"meet", "">>, <<"stop", "on">>, <<"back", "rsp">>>> ELSE <<>>)
Client == <<<<"next", "cnt">>, <<"waitn", "r1">>>> \o (IF Offl THEN <<<<"next", "cph">>, <<"waitn", "r2">>>> ELSE <<>>) \o (IF Onl THEN <<<<"next", "qry">>, <<"waitn", "rsp">>>> ELSE <<>>)
Last == <<<<"wait", "cnt">>, <<"back", "r1">>>> \o (IF Offl THEN <<<<"wait", "cph">>, <<"meet", "">>, <<"back", "r2">>>> ELSE <<>>) \o (IF Onl THEN <<<<"wait", "qry">>, <<"back", "rsp">>>> ELSE <<>>)
Prog(k) == IF k = -1 THEN Client ELSE IF k = P - 1 THEN Last ELSE Party
Nodes == (-1..P-1)
Init == /\ pc = [k \in Nodes |-> [s \in Srv |-> 1]] /\ chan = [k \in 0..P-1 |-> [s \in Srv |-> {}]] /\ dlv = [k \in 0..P-1 |-> [s \in Srv |-> {}]]
        /\ meter = [k \in 0..P-2 |-> [s \in Srv |-> [off |-> 0, on |-> 0]]] /\ mark = [k \in 0..P-2 |-> [s \in Srv |-> 0]]
        /\ now = 0 /\ ticks = 0 /\ obs = [k \in 0..P-2 |-> [off |-> 0, on |-> 0]]
CanStep(k, s) ==
  IF pc[k][s] > Len(Prog(k)) THEN FALSE
  ELSE LET i == Prog(k)[pc[k][s]] IN
       CASE i[1] = "wait" -> i[2] \in dlv[k][s]
         [] i[1] = "waitn" -> i[2] \in dlv[k + 1][s]
         [] i[1] = "meet" -> \A z \in Srv : pc[k][z] >= pc[k][s]
         [] OTHER -> TRUE
DoStep(k, s) ==
  /\ CanStep(k, s) /\ pc' = [pc EXCEPT ![k][s] = @ + 1]
  /\ LET i == Prog(k)[pc[k][s]] IN
     /\ chan' = CASE i[1] = "next" -> [chan EXCEPT ![k + 1][s] = @ \cup {i[2]}] [] i[1] = "back" -> [chan EXCEPT ![k][s] = @ \cup {i[2]}] [] OTHER -> chan
     /\ mark' = IF i[1] = "start" THEN [mark EXCEPT ![k][s] = now] ELSE mark
     /\ meter' = IF i[1] = "stop" THEN [meter EXCEPT ![k][s][i[2]] = @ + now - mark[k][s]] ELSE meter
  /\ UNCHANGED <<dlv, now, ticks, obs>>
Quiet == \A k \in Nodes, s \in Srv : ~CanStep(k, s)
All(k, m) == \A s \in Srv : m \in dlv[k][s]
OffNow(k) == Offl /\ T!OffRuns(All(k, "cnt"), All(k + 1, "r1"), All(k, "cph"), All(k + 1, "r2"))
OnNow(k) == Onl /\ T!OnRuns(All(k + 1, IF Offl THEN "r2" ELSE "r1"), All(k, "qry"), All(k + 1, "rsp"))
Tick == /\ Quiet /\ ticks < MaxTicks /\ ticks' = ticks + 1
        /\ \E d \in {1, 10} : now' = now + d /\ obs' = [k \in 0..P-2 |-> [off |-> obs[k].off + (IF OffNow(k) THEN d ELSE 0), on |-> obs[k].on + (IF OnNow(k) THEN d ELSE 0)]]
        /\ UNCHANGED <<pc, chan, dlv, meter, mark>>
Deliver == Quiet /\ \E k \in 0..P-1, s \in Srv : \E m \in chan[k][s] :
             chan' = [chan EXCEPT ![k][s] = @ \ {m}] /\ dlv' = [dlv EXCEPT ![k][s] = @ \cup {m}] /\ UNCHANGED <<pc, meter, mark, now, ticks, obs>>
Done == \A k \in Nodes, s \in Srv : pc[k][s] > Len(Prog(k))
\* the order of steps does not matter between two quiet moments: the first possible one
First == LET c == {n \in (-1..P-1) \X Srv : CanStep(n[1], n[2])} IN CHOOSE n \in c : \A m \in c : n[1] < m[1] \/ (n[1] = m[1] /\ n[2] <= m[2])
Next == \/ (~Quiet /\ DoStep(First[1], First[2])) \/ Tick \/ Deliver \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(~Quiet /\ DoStep(First[1], First[2])) /\ WF_vars(Deliver)
\* where the clock of a server is running
Kind(k, s) == LET before == {i \in 1..(pc[k][s] - 1) : Prog(k)[i][1] \in {"start", "stop"}} IN
              IF before = {} THEN "" ELSE LET l == CHOOSE i \in before : \A j \in before : j <= i IN
              IF Prog(k)[l][1] = "stop" THEN "" ELSE LET a == {i \in l..Len(Prog(k)) : Prog(k)[i][1] = "stop"} IN Prog(k)[CHOOSE i \in a : \A j \in a : i <= j][2]
Running == Quiet => \A k \in 0..P-2 : \A s \in Srv : (Kind(k, s) = "off") = OffNow(k) /\ (Kind(k, s) = "on") = OnNow(k)
Reported == Done => \A k \in 0..P-2 : \A s \in Srv : meter[k][s] = obs[k]
Terminates == <>Done
=============================================================================
