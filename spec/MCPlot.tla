------------------------------- MODULE MCPlot -------------------------------
(* The drawing process over all small sets of results: whatever the order    *)
(* in which the files are read, and whatever other results lie beside them,  *)
(* it refuses exactly what has to be refused and shows what has to be shown. *)
EXTENDS Plot
CONSTANTS MProto, MMode, MAxis
VARIABLES rs, d, st, ys0
\* values of the axis, and which of them may be filled
Xs == <<1, 3, 7>>
Fills == {<<>>, <<7>>, <<3, 7>>, <<1, 7>>}
E(name, proto, x) == [name |-> name, kind |-> Kind(proto), table |-> IF MAxis = "tableSize" THEN x ELSE 9, queries |-> IF MAxis = "queries" THEN x ELSE 8,
                      parties |-> IF MAxis = "parties" THEN x ELSE 6, par |-> 5, eps |-> "0", delta |-> "0"]
F(role, party, t) == [role |-> role, party |-> party, server |-> 0, on |-> t, off |-> t, chk |-> t, seal |-> t]
Reports == {<<>>, <<2>>, <<5>>, <<5, 2>>}
Role == IF MProto = "DP-PIR" THEN "party" ELSE "client"
Other == IF MProto = "DP-PIR" THEN "Checklist" ELSE "DP-PIR"
\* results: for each value nothing or a report (two servers' for the first value), and others beside them
Files(t) == <<F(Role, 0, t), F(Role, 1, <<9, 9>>), F(IF Role = "party" THEN "client" ELSE "party", 0, <<>>)>>
Sets == {<<[e |-> E("g", MProto, 1), files |-> Files(<<>>)], [e |-> E("f", Other, 3), files |-> Files(<<9, 9>>)]>>
         \o [i \in 1..3 |-> [e |-> E("f", MProto, Xs[i]), files |-> IF i = 1 /\ r[1] # <<>> /\ u # <<>> THEN Files(r[1][1]) \o Files(u) ELSE IF r[i] = <<>> THEN <<>> ELSE Files(r[i][1])]]
         : r \in [1..3 -> {<<>>} \cup {<<t>> : t \in Reports}], u \in {<<>>, <<4>>}}
S == d.series[1]
Init == /\ rs \in Sets
        /\ d \in {[name |-> "f", type |-> "simple-plot", axis |-> MAxis, xs |-> Xs, graphs |-> 0, series |-> <<[proto |-> MProto, mode |-> MMode, fill |-> f]>>] : f \in Fills}
        /\ st = Start(d, S, rs) /\ ys0 = <<>>
Next == /\ ~Over(st, d)
        /\ IF st.todo # {} THEN \E p \in st.todo : st' = Read(st, d, S, p) ELSE st' = Fill(st, d, S)
        /\ UNCHANGED <<rs, d, ys0>>
Spec == Init /\ [][Next]_<<rs, d, st, ys0>> /\ WF_<<rs, d, st, ys0>>(Next)
Refuses == Over(st, d) => (st.bad <=> RefusedSeries(d, S, rs))
Shows == Over(st, d) /\ ~st.bad => RightSeries(d, S, rs, st.ys)
\* while reading, nothing is shown that was not measured
Honest == \A i \in DOMAIN st.ys : st.todo # {} /\ st.ys[i] # None => \E p \in Source(rs, d.name, S.proto) : st.ys[i] = 100 * Time(S.proto, S.mode, p[2]).t
Inv == Refuses /\ Shows /\ Honest
Ends == <>Over(st, d)
=============================================================================
