----------------------------- MODULE MCOrchSim -----------------------------
(* Random histories for the real orchestrator. *)
EXTENDS Orchestrator
CONSTANTS Steps,  \* operations per history
  Big       \* 0: few workers, which register along the way; 1, 2: many workers, registered from the start
VARIABLES st, h
Dp(mode, table, parties, par, eps, delta, q) ==
  [kind |-> "dppir", cn |-> par, sn |-> parties * par, parties |-> ToString(parties), par |-> par, mode |-> mode, table |-> table, eps |-> eps, delta |-> delta,
   queries |-> q, pir |-> ""]
Ck(table, q, pir) == [kind |-> "checklist", cn |-> 1, sn |-> 2, parties |-> "", par |-> 1, mode |-> "", table |-> table, eps |-> "", delta |-> "", queries |-> q, pir |-> pir]
Sp(table, q) == [kind |-> "sealpir", cn |-> 1, sn |-> 0, parties |-> "", par |-> 1, mode |-> "", table |-> table, eps |-> "", delta |-> "", queries |-> q, pir |-> ""]
Small == {<<Dp("all", "55", 1, 2, "0.333", "1e-7", "9")>>, <<Dp("online", "12", 2, 1, "1e-7", "2.5e-8", "3")>>, <<Dp("all", "50", 2, 3, "0.75", "0", "4")>>, <<Dp("online", "6", 3, 2, "3", "0.5", "2")>>, <<Dp("offline", "7", 1, 2, "0", "0", "12")>>, <<Dp("all", "9", 1, 4, "0", "1", "3")>>,
           <<Dp("online", "60", 1, 1, "0", "0.5", "1"), Dp("online", "60", 1, 1, "0", "0", "1"), Dp("online", "60", 1, 1, "0.25", "0.5", "1"), Dp("online", "60", 1, 1, "0.25", "0", "1")>>,
           <<Dp("all", "1000", 2, 1, "0.1", "0.001", "10")>>, <<Dp("online", "777", 2, 2, "0.5", "0.25", "33")>>, <<Dp("offline", "40000", 1, 3, "2", "0", "5")>>,
           <<Dp("all", "3", 3, 1, "0", "0.125", "1")>>, <<Dp("online", "20", 2, 2, "1", "1", "6"), Dp("online", "30", 2, 2, "1", "1", "6")>>,
           <<Ck("5000", "12", "Punc")>>, <<Ck("64", "1", "DPF")>>, <<Ck("8", "2", "DPF"), Ck("8", "3", "DPF")>>, <<Sp("5", "1"), Sp("5", "2"), Sp("6", "1"), Sp("6", "2")>>, <<Sp("100", "4")>>, <<Sp("99", "1")>>}
Large == {<<Dp("all", "30", 3, 5, "0.333", "0", "26")>>, <<Dp("online", "31", 2, 9, "0.5", "1e-7", "100")>>, <<Dp("offline", "32", 1, 10, "1", "0", "99")>>, <<Dp("all", "33", 6, 1, "1", "0", "7")>>,
           <<Dp("all", "34", 5, 2, "1", "0", "7")>>, <<Dp("online", "35", 4, 4, "1", "0.0625", "18")>>, <<Dp("all", "36", 11, 1, "2", "0", "5"), Dp("all", "37", 11, 1, "2", "0", "5")>>,
           <<Dp("online", "38", 1, 6, "1", "0", "13")>>, <<Ck("39", "5", "DPF")>>, <<Sp("41", "3")>>, <<Dp("online", "1234567", 3, 6, "0.015625", "2.5e-10", "87654321")>>}
Groups == IF Big = 0 THEN Small ELSE Large
\* the workers of a big history: two servers after each client, or four, interleaved
Pre == [i \in 1..(CASE Big = 0 -> 0 [] Big = 1 -> 32 [] OTHER -> 70) |->
         [op |-> "reg", type |-> IF i % (IF Big = 1 THEN 3 ELSE 5) = 1 THEN "client" ELSE "server", ip |-> IF i % 7 = 0 THEN "127.0.0.1" ELSE "10.0.0." \o ToString(i)]]
RECURSIVE RegAll(_, _)
RegAll(s, i) == IF i > Len(Pre) THEN s ELSE RegAll(Register(s, Pre[i].type, Pre[i].ip, "?"), i + 1)
NumOf(s, t) == Cardinality({w \in DOMAIN s.W : s.W[w].type = t})
Rec(o) == h' = Append(h, o)
Init == st = RegAll(Init0, 1) /\ h = Pre
More == Len(h) < Len(Pre) + Steps
\* workers may share a machine
Regs(ip) == Big = 0 /\ \E t \in {"server", "client"} : NumOf(st, t) < 7 /\ st' = Register(st, t, ip, "?") /\ Rec([op |-> "reg", type |-> t, ip |-> ip])
AReg == More /\ Regs("10.0.0." \o ToString(Len(st.W) + 1))
ARegSame == More /\ Regs("127.0.0.1")
ANew == More /\ Len(st.E) < 16 /\ Cardinality({i \in DOMAIN st.hist : st.E[st.hist[i]].status = "waiting"}) < 4 /\ \E g \in Groups :
          /\ \A i \in DOMAIN g : g[i].sn <= NumOf(st, "server") /\ g[i].cn <= NumOf(st, "client")
          /\ st' = AddExps(st, g) /\ Rec([op |-> "new", ps |-> g])
Takes(w) == Free(st, w) /\ Offer(st, w) # 0 /\ st' = Ping(st, w) /\ Rec([op |-> "ping", w |-> w])
ATake == More /\ \E w \in DOMAIN st.W : Takes(w)
ATakeServer == More /\ \E w \in DOMAIN st.W : st.W[w].type = "server" /\ Takes(w)
ATakeClient == More /\ \E w \in DOMAIN st.W : st.W[w].type = "client" /\ Takes(w)
JustWaited == IF h = <<>> THEN FALSE ELSE IF h[Len(h)].op # "ping" THEN FALSE ELSE Free(st, h[Len(h)].w)
AWait == More /\ ~JustWaited /\ \E w \in DOMAIN st.W : Free(st, w) /\ Offer(st, w) = 0 /\ st' = Ping(st, w) /\ Rec([op |-> "ping", w |-> w])
ADoneClient == More /\ \E w \in DOMAIN st.W : st.W[w].type = "client" /\ ~Free(st, w) /\ st' = Done(st, w) /\ Rec([op |-> "done", w |-> w, x |-> st.W[w].exp])
ADone == More /\ \E w \in DOMAIN st.W : ~Free(st, w) /\ st' = Done(st, w) /\ Rec([op |-> "done", w |-> w, x |-> st.W[w].exp])
AAsk == More /\ \E w \in DOMAIN st.W : ~Free(st, w) /\ UNCHANGED st /\ Rec([op |-> "ask", w |-> w])
AConfig == More /\ \E w \in DOMAIN st.W : ~Free(st, w) /\ st.E[st.W[w].exp].p.kind = "dppir" /\ UNCHANGED st /\ Rec([op |-> "config", w |-> w])
AKill == More /\ \E i \in DOMAIN st.hist : (\E w \in DOMAIN st.W : st.W[w].exp = st.hist[i]) /\ st' = Kill(st, st.hist[i]) /\ Rec([op |-> "kill", e |-> i])
ALog == More /\ \E w \in DOMAIN st.W : ~Free(st, w) /\ ~st.W[w].log /\ (\A v \in DOMAIN st.W : ~st.W[v].log) /\ st' = Log(st, w) /\ Rec([op |-> "log", w |-> w])
AShow == More /\ \E w \in DOMAIN st.W : st.W[w].log /\ st' = ShowLog(st, w) /\ Rec([op |-> "showlog", w |-> w])
ASaveLoad == More /\ st.hist # <<>> /\ Len(st.hist) <= 6 /\ Len(st.E) < 18 /\ st' = Load(Clear(Store(st)))
             /\ h' = h \o <<[op |-> "store"], [op |-> "clear"], [op |-> "load"]>>
\* loading some of the stored experiments (interactively), next to those of the history
ALoadSome == More /\ st.saved /\ st.stored # <<>> /\ Len(st.E) < 16 /\ \E y \in [DOMAIN st.stored -> {0, 1}] :
                st' = LoadSome(st, y) /\ Rec([op |-> "loadsome", yes |-> y])
\* requests that have to be refused: an unknown mode, more servers or clients than there are, an unknown baseline
ARefused == More /\ Len(h) % 6 = 4 /\ \E p \in {Dp("both", "10", 1, 1, "1", "1", "1"), Dp("all", "10", NumOf(st, "server") + 1, 1, "1", "1", "1"),
                                 Dp("online", "10", 1, NumOf(st, "client") + 1, "1", "1", "1"), Ck("10", "1", "punc")} :
                UNCHANGED st /\ Rec([op |-> "refused", ps |-> <<p>>])
AKillNone == More /\ (IF Len(h) % 9 = 7 THEN TRUE ELSE JustWaited) /\ UNCHANGED st /\ Rec([op |-> "killnone"])
Done0 == ~More /\ PrintT(<<"SCHED", ToJson(h)>>) /\ h' = Pre /\ st' = RegAll(Init0, 1)
Next == IF ~More THEN Done0
        ELSE \/ (Big > 0 /\ (ATake \/ ATakeServer \/ ATakeServer)) \/ AReg \/ ARegSame \/ ANew \/ ATake \/ ATakeServer \/ ATakeClient \/ AWait \/ ADone \/ ADoneClient \/ AAsk \/ AConfig \/ AKill \/ ALog \/ AShow \/ ASaveLoad \/ ALoadSome \/ ARefused \/ AKillNone
Spec == Init /\ [][Next]_<<st, h>>
=============================================================================
