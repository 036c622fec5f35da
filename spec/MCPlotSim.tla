----------------------------- MODULE MCPlotSim -----------------------------
(* Random descriptions and results for the real plotting script: one        *)
(* description after another, then the results of its protocols at each of  *)
(* its values (good, missing or unclear reports), then others beside them.  *)
EXTENDS Plot
VARIABLES ph, descs, rs, at, goal
vars == <<ph, descs, rs, at, goal>>
S(p, m) == [proto |-> p, mode |-> m]
DpOn == S("DP-PIR", "Online")
DpOff == S("DP-PIR", "Offline")
Seal == S("SealPIR", "SealPIR")
SeriesSets == {<<DpOn>>, <<DpOff>>, <<DpOff, DpOn>>, <<DpOn, DpOff>>, <<S("Checklist", "Punc"), DpOn>>, <<S("Checklist", "DPF"), DpOn>>, <<Seal, DpOn>>,
               <<DpOn, Seal, S("Checklist", "DPF")>>, <<DpOff, S("Checklist", "Punc"), Seal, DpOn>>, <<Seal>>, <<S("Checklist", "Punc")>>}
Two == {<<DpOff, DpOn>>, <<DpOn, DpOff>>, <<S("Checklist", "Punc"), DpOn>>, <<DpOn, Seal>>}
XsOf(axis) == CASE axis = "parties" -> {<<2, 3, 4, 5>>, <<1, 3>>, <<4>>} [] axis = "parallelism" -> {<<1, 2, 4>>, <<2, 3>>, <<1, 8>>}
                [] OTHER -> {<<1, 2, 4, 8>>, <<2, 5, 9>>, <<10, 20, 30, 64>>, <<3>>, <<1, 10, 60>>, <<1, 2, 3, 4, 5, 6>>, <<7, 8, 30, 31, 32>>}
Protos(d) == IF d.type = "table" THEN <<"DP-PIR">> ELSE IF d.type = "ratio-plot" THEN <<d.base.proto, "noise", "real">>
             ELSE LET ps == {d.series[k].proto : k \in DOMAIN d.series} IN SelectSeq(<<"DP-PIR", "Checklist", "SealPIR">>, LAMBDA p : p \in ps)
RECURSIVE Pick(_, _)
Pick(s, f) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in f THEN <<Head(s)>> ELSE <<>>) \o Pick(Tail(s), f)
Tails(xs) == {SubSeq(xs, i, Len(xs)) : i \in 1..(Len(xs) + 1)}
FillSets(xs) == Tails(xs) \cup {<<>>, SubSeq(xs, 1, 1), SubSeq(xs, (Len(xs) + 1) \div 2, (Len(xs) + 1) \div 2)}
FillSets2(axis, xs) == IF axis \in {"queries", "tableSize"} THEN FillSets(xs) ELSE {<<>>, SubSeq(xs, 1, 1)}
WithFill(ser, f) == [k \in DOMAIN ser |-> [proto |-> ser[k].proto, mode |-> ser[k].mode, fill |-> f[k]]]
Names == <<"fig", "fig2", "figure2b", "f">>
Nm == Names[Len(descs) + 1]
Base == [base |-> Seal, speedups |-> <<>>, roots |-> <<>>, cols |-> <<>>, series |-> <<>>, graphs |-> 1, xs |-> <<>>, axis |-> "queries", type |-> "", name |-> ""]
\* may two series of one figure have the same label?
Clash(ser) == Cardinality({k \in DOMAIN ser : ser[k].proto = "DP-PIR"}) > 1
More == Len(descs) < goal.n
Add(d) == descs' = Append(descs, d) /\ ph' = "points" /\ at' = <<1, 1>> /\ UNCHANGED <<rs, goal>>
ASimple == ph = "desc" /\ goal.kind = "plot" /\ \E ser \in SeriesSets, axis \in {"queries", "tableSize", "parties", "parallelism"}, g \in {0, 1}, ty \in {"simple-plot", "split-plot"} :
             /\ (g = 0 => ~Clash(ser)) /\ (ty = "split-plot" => ser \in Two)
             /\ (axis \in {"parties", "parallelism"} => \A k \in DOMAIN ser : ser[k].proto = "DP-PIR")
             /\ \E xs \in XsOf(axis) : \E f1 \in FillSets2(axis, xs), f2 \in FillSets2(axis, xs) :
                  Add([Base EXCEPT !.name = Nm, !.type = ty, !.axis = axis, !.xs = xs, !.graphs = g,
                       !.series = WithFill(ser, [k \in DOMAIN ser |-> IF ser[k].proto # "DP-PIR" /\ axis # "queries" THEN <<>> ELSE IF k = 1 THEN f1 ELSE f2])])
ASimple2 == ASimple
ATable == ph = "desc" /\ goal.kind = "plot" /\ \E axis \in {"queries", "tableSize", "parties", "parallelism"} : \E xs \in XsOf(axis), c \in {<<"Offline", "Online">>, <<"Online", "Offline">>} :
             Add([Base EXCEPT !.name = Nm, !.type = "table", !.axis = axis, !.xs = xs, !.cols = c])
ARatio == ph = "desc" /\ goal.kind \in {"plot", "play"} /\ \E b \in {Seal, S("Checklist", "Punc"), S("Checklist", "DPF")}, sp \in {<<1, 2, 5, 10>>, <<2>>, <<1, 3>>}, k \in {<<1, 2, 3>>, <<2, 4>>, <<1>>, <<1, 2, 5, 6>>, <<3, 1, 2>>}, u \in {1, 3, 10} :
             IF goal.kind = "play" THEN b # Seal /\ u = 1 /\ 1 \in {k[i] : i \in DOMAIN k} /\ Len(k) < 4 /\ Add([Base EXCEPT !.name = "figure2", !.type = "ratio-plot", !.axis = "tableSize", !.base = b, !.speedups = sp, !.roots = k, !.xs = [i \in DOMAIN k |-> 2500000 * k[i] * k[i]]])
             ELSE Add([Base EXCEPT !.name = Nm, !.type = "ratio-plot", !.axis = "tableSize", !.base = b, !.speedups = sp, !.roots = k, !.xs = [i \in DOMAIN k |-> u * k[i] * k[i]]])
D == descs[Len(descs)]
\* the other parameters of an experiment, all different
Others == {[table |-> 11, queries |-> 13, parties |-> 3, par |-> 2, eps |-> "0.1", delta |-> "0.000001"], [table |-> 100000, queries |-> 70, parties |-> 2, par |-> 1, eps |-> "0", delta |-> "0"],
           [table |-> 12, queries |-> 5000000, parties |-> 6, par |-> 3, eps |-> "0.25", delta |-> "1e-7"], [table |-> 40, queries |-> 41, parties |-> 4, par |-> 1, eps |-> "2e-7", delta |-> "2.5e-8"]}
Params(o, axis, x) == [o EXCEPT !.table = IF axis = "tableSize" THEN x ELSE @, !.queries = IF axis = "queries" THEN x ELSE @,
                       !.parties = IF axis = "parties" THEN x ELSE @, !.par = IF axis = "parallelism" THEN x ELSE @]
Ex(name, kind, p) == [name |-> name, kind |-> kind, table |-> p.table, queries |-> p.queries, parties |-> p.parties, par |-> p.par, eps |-> p.eps, delta |-> p.delta]
File(role, party, server, on, off, chk, seal) == [role |-> role, party |-> party, server |-> server, on |-> on, off |-> off, chk |-> chk, seal |-> seal]
DpFiles(par, on, off) == [s \in 1..par |-> File("party", 0, s - 1, [i \in DOMAIN on |-> on[i] + (s - 1)], [i \in DOMAIN off |-> off[i] + 2 * (s - 1)], <<>>, <<>>)]
                         \o <<File("party", 1, 0, <<3333>>, <<4444>>, <<>>, <<>>), File("client", 0, 0, <<777>>, <<888>>, <<999>>, <<555>>)>>
\* in some scenarios everything takes more than a second
Short == IF goal.slow = 1 THEN {1001, 1537, 1986, 2750, 31415} ELSE {1, 40, 133, 999, 1537, 1986, 2750}
Long == {36000000, 45296789, 86400001, 59999, 61000, 60001, 3599999, 3600000, 3723045, 7322500, 14400001}
Small == {3, 10, 20, 47, 60}
MayMiss(d, proto, x) == \E k \in DOMAIN d.series : d.series[k].proto = proto /\ \E j \in DOMAIN d.series[k].fill : d.series[k].fill[j] = x
NoFill(d, proto) == \A k \in DOMAIN d.series : d.series[k].proto = proto => d.series[k].fill = <<>>
ChkTimes == Short \cup (IF NoFill(D, "Checklist") THEN Long ELSE {})
Here == Protos(D)[at[1]]
X == D.xs[at[2]]
AtEnd == at[1] > Len(Protos(D))
Step == IF at[2] = Len(D.xs) \/ Here \in {"noise", "real"} THEN <<at[1] + 1, 1>> ELSE <<at[1], at[2] + 1>>
Put(e, files) == rs' = Append(rs, [e |-> e, files |-> files]) /\ at' = Step /\ UNCHANGED <<ph, descs, goal>>
\* unclear reports: weight by how bold the scenario is
Bold(w) == w <= goal.bold
APoint == ph = "points" /\ ~AtEnd /\ D.type # "ratio-plot" /\ \E o \in {RandomElement(Others)}, w \in 1..24 :
  LET e == Ex(D.name, Kind(Here), Params(o, D.axis, X)) IN
  CASE Here = "DP-PIR" -> \E t \in {RandomElement(Short)}, t2 \in {RandomElement(Short)} : \E off \in {<<t2>>, IF w > 18 /\ (D.type = "table" \/ Bold(w - 18) \/ MayMiss(D, "DP-PIR", X)) THEN <<>> ELSE <<t2>>} :
                            Put(e, DpFiles(IF e.par > 4 THEN 4 ELSE e.par, IF w = 1 /\ Bold(3) THEN <<>> ELSE IF w = 2 /\ Bold(3) THEN <<t, t2>> ELSE <<t>>, IF w = 3 /\ Bold(3) THEN <<t, t>> ELSE off))
    [] Here = "Checklist" -> \E t \in {RandomElement(ChkTimes)}, t2 \in {RandomElement(ChkTimes)} :
                            Put(e, <<File("client", 0, 0, <<>>, <<>>, IF w = 1 /\ Bold(3) THEN <<>> ELSE <<t, t2>>, <<>>), File("server", 0, 7, <<31>>, <<32>>, <<33>>, <<34>>)>>)
    [] OTHER -> \E t \in {RandomElement(Short)} : Put(e, <<File("client", 0, 0, <<>>, <<>>, <<>>, IF w = 1 /\ Bold(3) THEN <<>> ELSE IF w = 2 /\ Bold(3) THEN <<t, t>> ELSE <<t>>)>>)
AMiss == ph = "points" /\ ~AtEnd /\ D.type # "ratio-plot" /\ (D.type = "table" \/ MayMiss(D, Here, X) \/ (at[2] = 2 /\ Bold(3))) /\ at' = Step /\ UNCHANGED <<ph, descs, rs, goal>>
\* the costs a ratio is made of
APlayPoint == ph = "points" /\ ~AtEnd /\ D.type = "ratio-plot" /\ \E o \in {RandomElement(Others)}, t \in {RandomElement(Small)}, w \in 1..24 :
  LET play == goal.kind = "play" IN
  CASE Here = "noise" -> \E x1 \in IF play THEN {2500000, 5000000} ELSE {1, 4, 16, 50, 100} :
                           Put(Ex(D.name, "dppir", [o EXCEPT !.table = x1, !.queries = 1]), DpFiles(1, <<IF play THEN 300 * t ELSE t>>, IF w > 12 THEN <<8>> ELSE <<>>))
    [] Here = "real" -> \E q \in IF play THEN {10000000} ELSE {2, 3, 6} :
                           Put(Ex(D.name, "dppir", [o EXCEPT !.queries = q, !.eps = "0", !.delta = "0"]), DpFiles(1, IF w = 1 /\ Bold(3) /\ ~play THEN <<>> ELSE <<t>>, <<>>))
    [] OTHER -> \E q \in IF play THEN {1000, 3000} ELSE {1, 2, 5, 6}, t2 \in Small :
                           Put(Ex(D.name, Kind(Here), [o EXCEPT !.table = X, !.queries = q]),
                               <<File("client", 0, 0, <<>>, <<>>, IF Here # "Checklist" \/ (w = 1 /\ Bold(3) /\ ~play) THEN <<>> ELSE <<t, t2>>, IF Here = "SealPIR" THEN <<t>> ELSE <<>>)>>)
APlayMiss == ph = "points" /\ ~AtEnd /\ D.type = "ratio-plot" /\ at' = Step /\ UNCHANGED <<ph, descs, rs, goal>>
             /\ (IF Here \in {"noise", "real"} THEN Bold(3) /\ goal.kind = "plot" ELSE (D.base.mode = "Punc" /\ at[2] > 1) \/ (goal.kind = "plot" /\ Bold(3)))
AMore == ph = "points" /\ AtEnd /\ ph' = (IF More THEN "desc" ELSE "others") /\ at' = <<1, 1>> /\ UNCHANGED <<descs, rs, goal>>
\* others beside them: other names, other protocols
AOther == ph = "others" /\ at[1] <= 3 /\ \E o \in {RandomElement(Others)}, k \in {"dppir", "checklist", "sealpir"}, n \in {"figX", "fi", "figure", "other", "fig22"}, t \in {RandomElement(Short)}, i \in DOMAIN descs :
            LET d == descs[i]
                kinds == IF d.type = "ratio-plot" THEN {"dppir", Kind(d.base.proto)} ELSE IF d.type = "table" THEN {"dppir"} ELSE {Kind(d.series[j].proto) : j \in DOMAIN d.series}
                name == IF at[1] = 1 /\ k \notin kinds THEN d.name ELSE n
            IN /\ rs' = Append(rs, [e |-> Ex(name, k, o), files |-> IF k = "dppir" THEN DpFiles(o.par, <<t>>, <<t>>) ELSE <<File("client", 0, 0, <<>>, <<>>, IF k = "checklist" THEN <<t>> ELSE <<>>, IF k = "sealpir" THEN <<t>> ELSE <<>>)>>])
               /\ at' = <<at[1] + 1, 1>> /\ UNCHANGED <<ph, descs, goal>>
\* what is asked for: all, or some in some order
Asks == {a \in [1..2 -> DOMAIN descs] : TRUE} \cup {[i \in DOMAIN descs |-> i], [i \in DOMAIN descs |-> Len(descs) + 1 - i]}
AAsk == ph = "others" /\ \E a \in Asks, all \in {0, 1}, pdf \in {0, 1} :
          ph' = "done" /\ goal' = [t |-> goal.kind, ask |-> IF goal.kind = "play" THEN <<1>> ELSE a, all |-> IF goal.kind = "play" THEN 0 ELSE all, pdf |-> pdf] /\ UNCHANGED <<descs, rs, at>>
\* equal costs: whether the break-even point is refused depends on rounding
Even(d) == /\ d.type = "ratio-plot" /\ BaseIdx(d, rs) # {} /\ Reals(d, rs) # {}
           /\ (\A p \in Source(rs, d.name, "DP-PIR") : Time("DP-PIR", "Online", p[2]).ok) /\ (\A p \in Source(rs, d.name, d.base.proto) : Time(d.base.proto, d.base.mode, p[2]).ok)
           /\ \E i \in DOMAIN d.xs, k \in DOMAIN d.speedups : Margin(d, rs, i, d.speedups[k]) = 0
APrint == ph = "done" /\ (\A i \in DOMAIN descs : ~Even(descs[i])) /\ PrintT(<<"SCHED", ToJson([t |-> goal.t, descs |-> descs, rs |-> rs, ask |-> goal.ask, all |-> goal.all, pdf |-> goal.pdf])>>) /\ ph' = "end" /\ UNCHANGED <<descs, rs, at, goal>>
Init == ph = "desc" /\ descs = <<>> /\ rs = <<>> /\ at = <<1, 1>>
        /\ goal \in {[kind |-> "plot", n |-> n, bold |-> b, slow |-> w] : n \in 1..3, b \in {0, 0, 3}, w \in 0..2} \cup {[kind |-> "play", n |-> 1, bold |-> 0, slow |-> w] : w \in {0, 2, 3}}
Next == ASimple \/ ASimple2 \/ ATable \/ ARatio \/ APoint \/ AMiss \/ APlayPoint \/ APlayMiss \/ AMore \/ AOther \/ AAsk \/ APrint
Spec == Init /\ [][Next]_vars
=============================================================================
