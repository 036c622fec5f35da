---------------------------- MODULE MCBaselineSim ----------------------------
(* Random scenarios for the real runners of the baselines: one behaviour is  *)
(* one scenario, printed when it is complete.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES sc, ph
Pick(S) == RandomElement(S)
\* durations: <<milliseconds, microseconds>>
Dur == {<<0, 0>>, <<0, 1>>, <<0, 400>>, <<0, 999>>, <<1, 1>>, <<0, 750>>, <<12, 345>>, <<3, 999>>, <<250, 501>>, <<1100, 7>>, <<40000, 300>>}
Short == {<<0, 1>>, <<0, 400>>, <<0, 999>>, <<0, 750>>}
Durs(S) == [j \in 1..Pick(1..4) |-> Pick(S)]
Tables == {1, 2, 5, 7, 64, 100, 999, 1000, 4096, 5000, 70000, 130000}
\* about one in twelve lacks an argument
ASeal == \E q \in {Pick({1, 2, 3, 7, 64, 90, 130, 600})} : \E n \in {Pick(Tables)}, k \in {Pick({1, 3, 10, 64, 1280})}, w \in {Pick(1..12)}, s \in {Pick({Dur, Dur, Short})} :
         sc' = [t |-> "seal", table |-> IF w = 1 THEN 0 ELSE n, q |-> IF w = 2 THEN 0 ELSE q, omit |-> Pick({0, 1}), pack |-> k,
                dur |-> [db |-> Durs(s), prep |-> Durs(s), query |-> Durs(s), server |-> Durs(s), response |-> Durs(s), other |-> Durs(Dur)]]
Sleeps == {0, 0, 50, 900, 1100, 2300, 5200}
Times == {0, 1, 7, 250, 999, 1000, 1500, 59999, 60000, 61000, 3599999, 3600000, 7322500, 14400001}
Keys == {1, 2, 77, 1000, 65535, 65536, 4000000, 1900000000}
AList == \E q \in {Pick({-1, 0, 1, 2, 5, 9, 30, 200, 240})}, nk \in {Pick({1, 2, 3, 5})}, w \in {Pick(1..12)}, st \in {Pick({0, 0, 0, 1})}, slow \in {Pick(1..40)} :
         LET want == IF q < 0 THEN 10000 ELSE q
             stop == IF w > 3 /\ st = 1 /\ want > 30 THEN Pick(1..20) ELSE 0
         IN sc' = [t |-> "list", q |-> q, con |-> IF w = 1 THEN <<1, 0>> ELSE IF w = 2 THEN <<0, 1>> ELSE <<0, 0>>, init |-> IF w = 3 THEN 1 ELSE 0,
                   typ |-> Pick({"Punc", "DPF"}), keys |-> [j \in 1..nk |-> (j - 1) * 11 + Pick(Keys)],
                   sleep |-> IF want > 1000 THEN <<0>> ELSE [j \in 1..Pick(1..5) |-> IF want > 30 /\ slow # 1 THEN Pick({0, 50, 900}) ELSE Pick(Sleeps)],
                   fail |-> IF want = 0 THEN <<>> ELSE [j \in 1..Pick({0, 0, 1, 3}) |-> Pick({Pick(1..want), want, Pick(1..(IF want < 6 THEN want ELSE 6))})],
                   failslow |-> Pick({0, 1}), stop |-> stop, time |-> <<Pick(Times), Pick(Times)>>, bytes |-> <<Pick(0..2000000000), Pick(0..5000)>>,
                   wlat |-> Pick({0, 1, 1, 2})]
Init == ph = 0 /\ sc = <<>>
Next == \/ ph = 0 /\ ph' = 1 /\ (ASeal \/ AList)
        \/ ph = 1 /\ ph' = 2 /\ PrintT(<<"SCHED", ToJson(sc)>>) /\ UNCHANGED sc
Spec == Init /\ [][Next]_<<sc, ph>>
=============================================================================
