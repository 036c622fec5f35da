------------------------------- MODULE MCSim -------------------------------
(* Random behaviours of the design model; the order of their deliveries is *)
(* replayed into the real processes (lab policy `script').                 *)
EXTENDS MCrun, Json
VARIABLE hist
SimInit == Init /\ hist = <<>>
SimSend == Send /\ UNCHANGED hist
SimExit == Exit /\ UNCHANGED hist
SimDeliver == \E e \in Deliveries : Step(e) /\ hist' = Append(hist, <<e.k, e.s, e.m, 0>>)
Finish == AllDone /\ hist # <<>> /\ PrintT(<<"SCHED", ToJson(hist)>>) /\ hist' = <<>> /\ UNCHANGED vars
SimNext == SimSend \/ SimDeliver \/ SimExit \/ Finish
SimSpec == SimInit /\ [][SimNext]_<<vars, hist>>
=============================================================================
