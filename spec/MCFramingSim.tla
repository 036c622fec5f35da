---------------------------- MODULE MCFramingSim ----------------------------
(* Schedules for the real socket objects: which sibling, how many bytes     *)
(* arrive, how many messages are asked for. Sizes are those of the program. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Unit, Steps
VARIABLE h
Chunks == {1, 2, 3, Unit - 1, Unit, Unit + 1, 2 * Unit - 1, 2 * Unit + 5, 4 * Unit, 7 * Unit + 3, 11, 51, 77, 519, 520, 521, 1040, 1300}
Asks == {1, 2, 3, 5, 10, 43, 44, 1000}
Init == h = <<>>
Add == Len(h) < Steps /\ \E s \in 0..1 : \E c \in Chunks : \E n \in Asks : h' = Append(h, <<s, c, n>>)
Done == Len(h) = Steps /\ PrintT(<<"SCHED", ToJson(h)>>) /\ h' = <<>>
Spec == Init /\ [][Add \/ Done]_h
=============================================================================
