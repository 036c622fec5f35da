------------------------------- MODULE Daemon -------------------------------
(***************************************************************************)
(* A worker daemon of the experiments (daemon_client.sh, daemon_server.sh) *)
(* towards the orchestrator and the programs it runs. As for the           *)
(* orchestrator, state and events are values: MCDaemon explores them and   *)
(* generates histories, Check folds over what the real scripts did.        *)
(*                                                                         *)
(* ph: new, idle, conf (has a DP-PIR job, no configuration yet), ready,    *)
(* run, log (was asked for its log), over (job ended), stop (was told to   *)
(* stop), invalid (got an unknown job)                                     *)
(***************************************************************************)
EXTENDS Comp
V(ok, prop, what) == IF ok THEN {} ELSE {<<prop, what>>}
Start0 == [ph |-> "new", wid |-> "", tok |-> <<>>, conf |-> "", lines |-> 0, jobs |-> 0]
Kinds(kind) == IF kind = "client" THEN {"dppir", "checklist", "sealpir"} ELSE {"dppir", "checklist"}
Waiting == <<"WAIT">>
ValidJob(kind, tok) == tok # <<>> /\ tok[1] \in Kinds(kind)
Has(f, k, v) == k \in DOMAIN f /\ f[k] = v
\* does the program started (program prog, options fl, last argument last, configuration conf) do the job?
JobOk(kind, tok, conf, s) ==
  CASE tok[1] = "dppir" ->
         /\ s.prog = "dppir" /\ s.conf = conf
         \* the program refuses options it does not know
         /\ DOMAIN s.fl \subseteq {"config", "role", "stage", "party_id", "server_id", "queries"}
         /\ IF kind = "client"
            THEN Has(s.fl, "role", "client") /\ Has(s.fl, "server_id", tok[2]) /\ Has(s.fl, "queries", tok[3]) /\ Has(s.fl, "stage", tok[4])
            ELSE Has(s.fl, "role", "party") /\ Has(s.fl, "party_id", tok[2]) /\ Has(s.fl, "server_id", tok[3]) /\ Has(s.fl, "stage", tok[4])
    [] tok[1] = "checklist" ->
         IF kind = "client"
         THEN s.prog = "checklist-client" /\ Has(s.fl, "serverAddr", tok[2]) /\ Has(s.fl, "serverAddr2", tok[3]) /\ s.last = "q" \o tok[4] /\ Has(s.fl, "pirType", tok[5])
         ELSE s.prog = "checklist-server" /\ Has(s.fl, "numRows", tok[3]) /\ Has(s.fl, "p", tok[4]) /\ Has(s.fl, "pirType", tok[5])
    [] OTHER -> s.prog = "sealpir" /\ Has(s.fl, "table", tok[2]) /\ Has(s.fl, "queries", tok[3])

Apply(kind, st, o) ==
  CASE o.e = "reg" -> [st EXCEPT !.ph = "idle", !.wid = o.ans]
    [] o.e = "ping" -> IF o.ans = Waiting THEN st
                       ELSE [st EXCEPT !.tok = o.ans, !.conf = "", !.lines = 0,
                                       !.ph = IF ~ValidJob(kind, o.ans) THEN "invalid" ELSE IF o.ans[1] = "dppir" THEN "conf" ELSE "ready"]
    [] o.e = "config" -> IF o.ans = "WAIT" THEN st ELSE [st EXCEPT !.ph = "ready", !.conf = o.ans]
    [] o.e = "start" -> [st EXCEPT !.ph = "run"]
    [] o.e = "out" -> [st EXCEPT !.lines = @ + 1]
    [] o.e = "ask" -> IF st.ph = "run" THEN (CASE o.ans = "1" -> [st EXCEPT !.ph = "stop"] [] o.ans = "2" -> [st EXCEPT !.ph = "log"] [] OTHER -> st) ELSE st
    [] o.e = "showlog" -> IF st.ph = "log" THEN [st EXCEPT !.ph = "run"] ELSE st
    [] o.e = "end" -> [st EXCEPT !.ph = "over"]
    [] o.e = "done" -> [st EXCEPT !.ph = "idle", !.jobs = @ + 1, !.tok = <<>>]
    [] OTHER -> st

\* the requests that belong in each phase
Allowed(st, o) ==
  CASE o.e = "reg" -> st.ph = "new"
    [] o.e = "ping" -> st.ph = "idle"
    [] o.e = "config" -> st.ph = "conf"
    [] o.e = "start" -> st.ph = "ready"
    [] o.e \in {"out", "end"} -> st.ph = "run"
    [] o.e = "ask" -> st.ph \in {"run", "over", "invalid"}   \* over: it may have asked just before the end
    [] o.e = "showlog" -> st.ph = "log"
    [] o.e = "done" -> st.ph \in {"over", "stop", "invalid"}
    [] OTHER -> FALSE
Why(st, o) ==
  CASE o.e = "reg" -> "the worker registers more than once"
    [] o.e = "ping" -> "the worker asks for a job while it has one"
    [] o.e = "config" -> "the worker asks for a configuration it has no use for"
    [] o.e = "start" -> IF st.ph = "conf" THEN "the job is started without its configuration" ELSE "a program is started that is no job, or a second time"
    [] o.e = "ask" -> "the worker does not answer a request for its log, or asks whether to stop without a job"
    [] o.e = "showlog" -> "the worker sends a log nobody asked for"
    [] o.e = "done" -> IF st.ph = "idle" THEN "the worker reports a job twice, or none" ELSE "the worker reports a job that is not over"
    [] o.e = "stuck" -> "the worker stops serving"
    [] OTHER -> "the job's program disappears although nobody stopped it"
Bad(kind, st, o) ==
  IF ~Allowed(st, o) THEN {<<"C23", Why(st, o)>>}
  ELSE CASE o.e = "reg" -> V(o.kind = kind, "C23", "the worker registers as the wrong kind")
         [] o.e \in {"ping", "config", "ask"} -> V(o.w = st.wid, "C23", "the worker uses a number that is not its own")
         [] o.e = "start" -> V(JobOk(kind, st.tok, st.conf, o), "C23", "the program started is not the job that was handed out")
         [] o.e = "showlog" -> V(o.w = st.wid /\ o.exact = 1, "C23", "the log sent is not the running job's output so far")
         [] o.e = "done" -> V(o.w = st.wid, "C23", "the worker uses a number that is not its own")
                            \cup V(o.exact = 1, "C23", "the report is not the job's complete output")
                            \cup V(st.ph = "stop" => o.alive = 0, "C23", "the job still runs after the worker reported that it stopped it")
                            \cup V(st.ph = "stop" => o.marked = 1, "C23", "the report does not say that the job was stopped")
         [] OTHER -> {}
RECURSIVE Fold(_, _, _, _)
Fold(kind, evs, i, st) ==
  IF i > Len(evs) THEN {}
  ELSE LET bad == Bad(kind, st, evs[i])
       IN IF bad # {} THEN bad ELSE Fold(kind, evs, i + 1, Apply(kind, st, evs[i]))
Check(r) == Fold(r.kind, r.evs, 1, Start0)
=============================================================================
