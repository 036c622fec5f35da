------------------------------- MODULE MCOrch -------------------------------
(* All histories within the bounds; MCOrchSim generates the ones replayed   *)
(* into the real handlers.                                                  *)
EXTENDS Orchestrator
CONSTANTS MServers, MClients, MExps, MKills
VARIABLES st, kills
P(kind, parties, par) ==
  CASE kind = "dppir" -> [kind |-> kind, cn |-> par, sn |-> parties * par, parties |-> ToString(parties), par |-> par, mode |-> "all", table |-> "1000", eps |-> "0.1",
                          delta |-> "0.000001", queries |-> "10", pir |-> ""]
    [] kind = "checklist" -> [kind |-> kind, cn |-> 1, sn |-> 2, parties |-> "", par |-> 1, mode |-> "", table |-> "500", eps |-> "", delta |-> "", queries |-> "7", pir |-> "DPF"]
    [] OTHER -> [kind |-> kind, cn |-> 1, sn |-> 0, parties |-> "", par |-> 1, mode |-> "", table |-> "400", eps |-> "", delta |-> "", queries |-> "8", pir |-> ""]
Shapes == {P("dppir", 2, 1), P("dppir", 1, 2), P("checklist", 0, 0), P("sealpir", 0, 0)}
RECURSIVE Reg(_, _, _)
Reg(s, t, n) == IF n = 0 THEN s ELSE Reg(Register(s, t, "ip" \o ToString(Len(s.W)), ToString(Len(s.W))), t, n - 1)
Init == st = Reg(Reg(Init0, "server", MServers), "client", MClients) /\ kills = 0
New == Len(st.E) < MExps /\ (\E p \in Shapes : st' = AddExp(st, p)) /\ UNCHANGED kills
APing == (\E w \in DOMAIN st.W : Free(st, w) /\ Offer(st, w) # 0 /\ st' = Ping(st, w)) /\ UNCHANGED kills
\* a baseline server works until it is told to stop (or crashes)
ADone(w) == ~Free(st, w) /\ st' = Done(st, w) /\ UNCHANGED kills
AKill == kills < MKills /\ (\E e \in DOMAIN st.E : st' = Kill(st, e)) /\ kills' = kills + 1
AClear == kills < MKills /\ st' = Clear(Store(st)) /\ kills' = kills + 1
ALoad == st.saved /\ st.hist = <<>> /\ Len(st.E) + Len(st.stored) <= MExps /\ st' = Load(st) /\ UNCHANGED kills
Quiet == \A w \in DOMAIN st.W : Free(st, w)
Idle == Quiet /\ Len(st.E) = MExps /\ UNCHANGED <<st, kills>>
Next == New \/ APing \/ (\E w \in DOMAIN st.W : ADone(w)) \/ AKill \/ AClear \/ ALoad \/ Idle
\* (a server of an experiment that was cleared while it ran has to be stopped by hand)
Told(w) == st.W[w].exp \notin Range(st.hist) \/ ~(st.E[st.W[w].exp].p.kind = "checklist" /\ st.W[w].type = "server" /\ st.W[w].status = "working")
Fair == WF_st(APing) /\ \A w \in 1..(MServers + MClients) : WF_st(~Free(st, w) /\ Told(w) /\ ADone(w))
Spec == Init /\ [][Next]_<<st, kills>> /\ Fair
Inv == RolesOnce(st) /\ StatusExact(st) /\ StopOnlyWorking(st) /\ ReportedOnce(st) /\ FirstCome(st)
\* with enough workers every experiment that stays in the history gets done
AllDone == [](\A e \in 1..MExps : (e \in DOMAIN st.E /\ kills = MKills /\ e \in Range(st.hist)) => <>(e \notin DOMAIN st.E \/ st.E[e].status = "done" \/ e \notin Range(st.hist)))
\* what was done stays done, and roles are never taken back
Stable == [][\A e \in DOMAIN st.E : st'.E[e].ca >= st.E[e].ca /\ st'.E[e].sa >= st.E[e].sa /\ (st.E[e].status = "done" => st'.E[e].status = "done")]_st
=============================================================================
