---------------------------- MODULE Orchestrator ----------------------------
(***************************************************************************)
(* The experiment orchestrator: workers register, ping for a job, report   *)
(* the end of a job; the operator creates, kills, clears, stores and loads *)
(* experiments. State and operations are values, so that the same          *)
(* definitions are explored by MCOrch and fold over histories recorded     *)
(* from the real request handlers (Check).                                 *)
(*                                                                         *)
(* worker: [type, ip, id, exp, role, status, log]; exp is an index into E  *)
(* (0: none). experiment: [p, ca, sa, fc, fs, status, cl, sl, name] with   *)
(* p its parameters, ca/sa clients and servers assigned so far, fc/fs      *)
(* those that reported, cl/sl the workers that took the roles.             *)
(***************************************************************************)
EXTENDS Comp
V(ok, prop, what) == IF ok THEN {} ELSE {<<prop, what>>}
Init0 == [W |-> <<>>, E |-> <<>>, cq |-> <<>>, sq |-> <<>>, hist |-> <<>>, stored |-> <<>>, saved |-> FALSE]
Free(st, w) == st.W[w].exp = 0
NewExp(p) == [p |-> p, ca |-> 0, sa |-> 0, fc |-> 0, fs |-> 0, status |-> "waiting", cl |-> <<>>, sl |-> <<>>, name |-> ""]
Register(st, type, ip, id) ==
  [st EXCEPT !.W = Append(@, [type |-> type, ip |-> ip, id |-> id, exp |-> 0, role |-> 0, status |-> "ready", log |-> FALSE])]
AddExp(st, p) ==
  LET n == Len(st.E) + 1
  IN [st EXCEPT !.E = Append(@, NewExp(p)), !.hist = Append(@, n),
                !.cq = IF p.cn > 0 THEN Append(@, n) ELSE @, !.sq = IF p.sn > 0 THEN Append(@, n) ELSE @]
RECURSIVE AddExps(_, _)
AddExps(st, ps) == IF ps = <<>> THEN st ELSE AddExps(AddExp(st, Head(ps)), Tail(ps))
\* which experiment a free worker gets (0: it has to wait)
Offer(st, w) ==
  IF st.W[w].type = "client"
  THEN IF st.cq = <<>> \/ (st.E[Head(st.cq)].p.kind = "checklist" /\ st.E[Head(st.cq)].sa < st.E[Head(st.cq)].p.sn) THEN 0 ELSE Head(st.cq)
  ELSE IF st.sq = <<>> THEN 0 ELSE Head(st.sq)
Ping(st, w) ==
  LET e == Offer(st, w)
      x == st.E[e]
      c == st.W[w].type = "client"
      y == IF c THEN [x EXCEPT !.ca = @ + 1, !.cl = Append(@, w)] ELSE [x EXCEPT !.sa = @ + 1, !.sl = Append(@, w)]
      z == IF y.ca = y.p.cn /\ y.sa = y.p.sn THEN [y EXCEPT !.status = "working"] ELSE y
  IN IF e = 0 THEN st
     ELSE [st EXCEPT !.E[e] = z,
                     !.W[w].exp = e, !.W[w].status = "working", !.W[w].role = IF c THEN x.ca ELSE x.sa,
                     !.cq = IF c /\ z.ca = z.p.cn THEN Tail(@) ELSE @,
                     !.sq = IF ~c /\ z.sa = z.p.sn THEN Tail(@) ELSE @]
\* all workers in ws that still work on e are to stop
Stop(W, ws, e) == [v \in DOMAIN W |-> IF v \in ws /\ W[v].exp = e /\ W[v].status = "working" THEN [W[v] EXCEPT !.status = "cleaning up"] ELSE W[v]]
Range(s) == {s[i] : i \in DOMAIN s}
Done(st, w) ==
  LET e == st.W[w].exp
      x == IF st.W[w].type = "client" THEN [st.E[e] EXCEPT !.fc = @ + 1] ELSE [st.E[e] EXCEPT !.fs = @ + 1]
      all == x.fc = x.p.cn /\ x.fs = x.p.sn
      driven == x.p.kind = "checklist" /\ st.W[w].type = "client" /\ x.fc = x.p.cn
      y == [x EXCEPT !.status = IF all THEN "done" ELSE IF driven THEN "cleaning up" ELSE @]
      W2 == [st.W EXCEPT ![w].exp = 0, ![w].status = "ready", ![w].role = 0]
  IN [st EXCEPT !.E[e] = y, !.W = IF driven THEN Stop(W2, Range(x.sl), e) ELSE W2]
Kill(st, e) == IF e \notin Range(st.hist) THEN st
               ELSE [st EXCEPT !.W = Stop(@, Range(st.E[e].cl) \cup Range(st.E[e].sl), e)]
Log(st, w) == [st EXCEPT !.W[w].log = TRUE]
ShowLog(st, w) == [st EXCEPT !.W[w].log = FALSE]
Clear(st) == [st EXCEPT !.hist = <<>>, !.cq = <<>>, !.sq = <<>>]
Store(st) == [st EXCEPT !.stored = [i \in DOMAIN st.hist |-> st.E[st.hist[i]].p], !.saved = TRUE]
Load(st) == AddExps(st, st.stored)
RECURSIVE Pick(_, _)
Pick(ps, yes) == IF ps = <<>> THEN <<>> ELSE (IF Head(yes) = 1 THEN <<Head(ps)>> ELSE <<>>) \o Pick(Tail(ps), Tail(yes))
LoadSome(st, yes) == AddExps(st, Pick(st.stored, yes))

\* ---- what workers and operator see --------------------------------------------
Answer(st, w) == IF st.W[w].log THEN "2" ELSE IF st.W[w].status = "cleaning up" THEN "1" ELSE "0"
\* file a worker's report belongs in
Pos(p, i) == <<i \div p.par, i % p.par>>
File(st, w) ==
  LET x == st.E[st.W[w].exp]
      i == st.W[w].role
  IN CASE x.p.kind = "dppir" ->
            IF st.W[w].type = "client" THEN "client-" \o ToString(i) \o ".log"
            ELSE "party-" \o ToString(Pos(x.p, i)[1]) \o "-" \o ToString(Pos(x.p, i)[2]) \o ".log"
       [] x.p.kind = "checklist" -> IF st.W[w].type = "client" THEN "client.log" ELSE "server" \o st.W[w].id \o ".log"
       [] OTHER -> "sealpir.log"
\* is tok the job description of worker w, who just took a role of its experiment? port: announced ports by worker
JobOk(st, w, tok, port) ==
  LET x == st.E[st.W[w].exp]
      p == x.p
      i == st.W[w].role
  IN CASE p.kind = "dppir" ->
            IF st.W[w].type = "client" THEN tok = <<"dppir", ToString(i), p.queries, p.mode>>
            ELSE tok = <<"dppir", ToString(Pos(p, i)[1]), ToString(Pos(p, i)[2]), p.mode>>
       [] p.kind = "checklist" ->
            IF st.W[w].type = "client"
            THEN /\ Len(tok) = 5 /\ tok[1] = "checklist" /\ tok[4] = p.queries /\ tok[5] = p.pir
                 /\ \A j \in 1..2 : tok[1 + j] = st.W[x.sl[j]].ip \o ":" \o port[x.sl[j]]
            ELSE Len(tok) = 5 /\ tok[1] = "checklist" /\ tok[3] = p.table /\ tok[5] = p.pir
       [] OTHER -> tok = <<"sealpir", p.table, p.queries>>
\* the configuration of a DPPIR experiment: generated for its parameters and its servers' addresses in role order
ConfigArgs(st, e) == LET x == st.E[e] IN
  <<x.p.table, x.p.eps, x.p.delta, x.p.parties, ToString(x.p.par)>> \o [i \in 1..x.sa |-> st.W[x.sl[i]].ip]

\* ---- invariants of the design ---------------------------------------------------
RolesOnce(st) ==
  \A e \in DOMAIN st.E :
    /\ st.E[e].ca <= st.E[e].p.cn /\ st.E[e].sa <= st.E[e].p.sn
    /\ Len(st.E[e].cl) = st.E[e].ca /\ Len(st.E[e].sl) = st.E[e].sa
    /\ \A v, w \in DOMAIN st.W : v # w /\ st.W[v].exp = e /\ st.W[w].exp = e /\ st.W[v].type = st.W[w].type => st.W[v].role # st.W[w].role
    /\ \A w \in Range(st.E[e].cl) : st.W[w].type = "client"
    /\ \A w \in Range(st.E[e].sl) : st.W[w].type = "server"
Assigned(x) == x.ca = x.p.cn /\ x.sa = x.p.sn
Reported(x) == x.fc = x.p.cn /\ x.fs = x.p.sn
StatusExact(st) ==
  \A e \in DOMAIN st.E : LET x == st.E[e] IN
    /\ x.status = "waiting" <=> ~Assigned(x)
    /\ x.status = "done" <=> Reported(x)
    /\ x.status = "cleaning up" => x.p.kind = "checklist" /\ x.fc = x.p.cn
StopOnlyWorking(st) == \A w \in DOMAIN st.W : st.W[w].status = "ready" <=> st.W[w].exp = 0
ReportedOnce(st) == \A e \in DOMAIN st.E : LET x == st.E[e] IN
  /\ x.fc + Cardinality({w \in DOMAIN st.W : st.W[w].exp = e /\ st.W[w].type = "client"}) = x.ca
  /\ x.fs + Cardinality({w \in DOMAIN st.W : st.W[w].exp = e /\ st.W[w].type = "server"}) = x.sa
FirstCome(st) ==  \* an experiment gets a server only when every earlier one of the history has all of its own
  \A i, j \in DOMAIN st.hist : i < j /\ st.E[st.hist[j]].sa > 0 => st.E[st.hist[i]].sa = st.E[st.hist[i]].p.sn

\* ---- verdict on a recorded history ----------------------------------------------
\* listings of experiments and workers after an operation (empty when they could not be read)
Listing(st, o) ==
  (IF o.exps = <<>> THEN {}
   ELSE V(Len(o.exps) = Len(st.hist), "C20", "the listing does not show the experiments of the history")
        \cup (IF Len(o.exps) # Len(st.hist) THEN {}
              ELSE UNION {V(o.exps[i].status = st.E[st.hist[i]].status, "C20", "an experiment's status is not what its history says") : i \in DOMAIN o.exps}))
  \cup (IF o.workers = <<>> \/ Len(o.workers) # Len(st.W) THEN {}
        ELSE UNION {V(o.workers[i].status = st.W[i].status, "C20", "a worker's status is not what its history says")
                    \cup V(o.workers[i].type = st.W[i].type, "C19", "a worker is registered with the wrong kind") : i \in DOMAIN o.workers})
Apply(st, o) ==
  CASE o.op = "reg" -> Register(st, o.type, o.ip, o.id)
    [] o.op = "new" -> AddExps(st, o.ps)
    [] o.op = "ping" -> Ping(st, o.w)
    [] o.op = "done" -> Done(st, o.w)
    [] o.op = "kill" -> IF o.e \in DOMAIN st.hist THEN Kill(st, st.hist[o.e]) ELSE st
    [] o.op = "log" -> Log(st, o.w)
    [] o.op = "showlog" -> ShowLog(st, o.w)
    [] o.op = "clear" -> Clear(st)
    [] o.op = "store" -> Store(st)
    [] o.op = "load" -> Load(st)
    [] o.op = "loadsome" -> LoadSome(st, o.yes)
    [] OTHER -> st
OpBad(st, nx, o, port) ==
  (CASE o.op = "reg" -> V(\A v \in DOMAIN st.W : st.W[v].id # o.id, "C19", "two workers get the same number")
     [] o.op = "ping" ->
          IF Offer(st, o.w) = 0 THEN V(o.tok = <<"WAIT">>, "C19", "a worker is given a role that is not to be had")
          ELSE V(o.tok # <<"WAIT">>, "C19", "a worker has to wait although a role is free")
               \cup V(o.tok = <<"WAIT">> \/ JobOk(nx, o.w, o.tok, port), "C19", "a job description does not state the worker's position and the experiment's parameters")
     [] o.op = "ask" -> V(o.answer = Answer(st, o.w), "C20", "a worker is told to stop, or not, against its experiment's history")
     [] o.op = "done" -> V(Len(o.files) = 1 /\ o.files[1].base = File(st, o.w), "C20", "a report is not stored in the file of the reporting role, and only there")
                         \cup V(Len(o.files) = 1 => o.files[1].exact = 1, "C20", "a report is not stored unchanged")
                         \cup V(Len(o.files) = 1 /\ o.name # "" => o.files[1].dir = o.name, "C20", "a report is stored with another experiment")
     [] o.op = "config" ->
          LET e == st.W[o.w].exp
          IN IF st.E[e].sa < st.E[e].p.sn THEN V(o.conf = <<"WAIT">>, "C19", "a configuration is handed out before all servers are known")
             ELSE V(o.conf = ConfigArgs(st, e), "C19", "the configuration handed out is not that of the experiment and its servers")
     [] o.op = "load" -> V(o.same = 1, "C20", "storing experiments and loading them back does not restore the same experiments")
     [] OTHER -> {})
  \cup Listing(nx, o)
RECURSIVE Fold(_, _, _, _)
Fold(ops, i, st, port) ==
  IF i > Len(ops) THEN {}
  ELSE LET o == ops[i]
           nx == Apply(st, o)
           \* the port a baseline server was told to use
           pt == IF o.op = "ping" /\ Len(o.tok) = 5 THEN [v \in DOMAIN nx.W |-> IF v = o.w THEN o.tok[4] ELSE port[v]]
                 ELSE [v \in DOMAIN nx.W |-> IF v \in DOMAIN port THEN port[v] ELSE ""]
           bad == V(o.err = "", IF o.op \in {"reg", "ping", "config"} THEN "C19" ELSE "C20", "a valid request fails") \cup
                  (IF o.err = "" THEN OpBad(st, nx, o, pt) ELSE {})
       IN IF bad # {} THEN bad ELSE Fold(ops, i + 1, nx, pt)
Check(r) == IF r.crash = 1 THEN {<<"C19", "the orchestrator fails on a valid history">>, <<"C20", "the orchestrator fails on a valid history">>}
            ELSE Fold(r.ops, 1, Init0, <<>>)
=============================================================================
