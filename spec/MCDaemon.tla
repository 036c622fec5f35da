------------------------------ MODULE MCDaemon ------------------------------
(* The daemon's behaviours: exhaustively (Steps = 0), or as random          *)
(* histories of what orchestrator and programs do to it (Steps > 0).        *)
EXTENDS Daemon
CONSTANTS Kind, Steps, MaxJobs, MaxLines
VARIABLES st, h, asks
vars == <<st, h, asks>>
Jobs == IF Kind = "client"
        THEN {<<"dppir", "0", "10", "all">>, <<"dppir", "3", "7", "online">>, <<"dppir", "1", "100000", "offline">>, <<"dppir", "0", "1", "online">>,
              <<"checklist", "10.0.0.1:5000", "10.0.0.2:5001", "12", "Punc">>, <<"checklist", "127.0.0.1:5003", "127.0.0.1:5002", "4", "DPF">>,
              <<"sealpir", "5000", "3">>, <<"sealpir", "7", "22">>, <<"unknown", "1">>, <<"checklists", "1", "2", "3", "4">>}
        ELSE {<<"dppir", "0", "0", "all">>, <<"dppir", "2", "1", "online">>, <<"dppir", "1", "2", "offline">>, <<"dppir", "1", "0", "all">>, <<"dppir", "0", "1", "all">>,
              <<"checklist", "0", "2500", "5000", "Punc">>, <<"checklist", "1", "64", "5001", "DPF">>, <<"sealpir", "5000", "3">>, <<"unknown">>}
Rec(o) == h' = IF Steps > 0 THEN Append(h, o) ELSE h
Ev(o) == Allowed(st, o) /\ Bad(Kind, st, o) = {} /\ st' = Apply(Kind, st, o)
Init == st = Start0 /\ h = <<>> /\ asks = 0
More == Steps = 0 \/ Len(h) < Steps
Quiet == UNCHANGED <<h, asks>>
AReg == Ev([e |-> "reg", kind |-> Kind, ans |-> "w"]) /\ Quiet
AWait == st.ph = "idle" /\ asks < 2 /\ Ev([e |-> "ping", w |-> "w", ans |-> Waiting]) /\ asks' = asks + 1 /\ Rec([e |-> "ping", ans |-> Waiting])
AJob == st.ph = "idle" /\ st.jobs < MaxJobs /\ \E j \in Jobs : Ev([e |-> "ping", w |-> "w", ans |-> j]) /\ asks' = 0 /\ Rec([e |-> "ping", ans |-> j])
AConf == st.ph = "conf" /\ \E a \in {"WAIT", "cfg"} : (a = "WAIT" => asks < 2) /\ Ev([e |-> "config", w |-> "w", ans |-> a])
           /\ asks' = (IF a = "WAIT" THEN asks + 1 ELSE 0) /\ Rec([e |-> "config", ans |-> a])
Flags ==
  CASE st.tok[1] = "dppir" /\ Kind = "client" -> [role |-> "client", server_id |-> st.tok[2], queries |-> st.tok[3], stage |-> st.tok[4]]
    [] st.tok[1] = "dppir" -> [role |-> "party", party_id |-> st.tok[2], server_id |-> st.tok[3], stage |-> st.tok[4]]
    [] st.tok[1] = "checklist" /\ Kind = "client" -> [serverAddr |-> st.tok[2], serverAddr2 |-> st.tok[3], pirType |-> st.tok[5]]
    [] st.tok[1] = "checklist" -> [numRows |-> st.tok[3], p |-> st.tok[4], pirType |-> st.tok[5]]
    [] OTHER -> [table |-> st.tok[2], queries |-> st.tok[3]]
Prog == IF st.tok[1] = "checklist" THEN "checklist-" \o Kind ELSE st.tok[1]
AStart == st.ph = "ready" /\ Ev([e |-> "start", prog |-> Prog, fl |-> Flags, last |-> IF Len(st.tok) > 3 THEN "q" \o st.tok[4] ELSE "", conf |-> st.conf]) /\ Quiet
AOut == st.ph = "run" /\ st.lines < MaxLines /\ Ev([e |-> "out"]) /\ UNCHANGED asks /\ Rec([e |-> "out"])
AAsk == st.ph = "run" /\ \E a \in {"0", "1", "2"} : (a # "1" => asks < 3) /\ Ev([e |-> "ask", w |-> "w", ans |-> a]) /\ asks' = asks + 1 /\ Rec([e |-> "ask", ans |-> a])
ALog == Ev([e |-> "showlog", w |-> "w", exact |-> 1]) /\ Quiet
AEnd == st.ph = "run" /\ Ev([e |-> "end"]) /\ UNCHANGED asks /\ Rec([e |-> "end"])
ADone == Ev([e |-> "done", w |-> "w", exact |-> 1, alive |-> 0, marked |-> 1]) /\ asks' = 0 /\ UNCHANGED h
Emit == ~More /\ PrintT(<<"SCHED", ToJson(h)>>) /\ h' = <<>> /\ st' = Start0 /\ asks' = 0
Next == IF ~More THEN Emit
        ELSE AReg \/ AWait \/ AJob \/ AConf \/ AStart \/ AOut \/ AAsk \/ ALog \/ AEnd \/ ADone
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(AReg) /\ WF_vars(AConf /\ st'.ph = "ready") /\ WF_vars(AStart) /\ WF_vars(ALog) /\ SF_vars(AEnd) /\ WF_vars(ADone)
\* ---- the design --------------------------------------------------------------------
Inv == /\ st.ph \in {"conf", "ready", "run", "log", "over", "stop"} => ValidJob(Kind, st.tok)
       /\ st.ph \in {"run", "log", "over", "stop"} /\ st.tok[1] = "dppir" => st.conf = "cfg"
       /\ st.ph \in {"idle", "new"} => st.tok = <<>>
Served == (st.ph = "conf" \/ st.ph = "run" \/ st.ph = "stop") ~> st.ph = "idle"
=============================================================================
