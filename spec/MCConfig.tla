------------------------------ MODULE MCConfig ------------------------------
(* Every small configuration is restored exactly, and no proper prefix or   *)
(* extension of a stored configuration is taken for a configuration.        *)
EXTENDS Config
CONSTANTS MP, MS, MIp, MW
VARIABLES c, cut
B == 3
Bytes3 == 0..(B - 1)
Ips == UNION {[1..n -> 1..(B - 1)] : n \in 0..MIp}
Servers == [port : 0..(B * (IF MW = 2 THEN B ELSE 1) - 1), ip : Ips]
Parties(s) == [seed : Bytes3, key : [1..1 -> Bytes3], servers : [1..s -> Servers]]
Init == /\ \E p \in 0..MP : \E s \in 0..MS : \E ps \in [1..p -> Parties(s)] : c = [P |-> p, S |-> s, parties |-> ps]
        /\ cut = Len(Encode(c, MW, B))
Shorten == cut > 0 /\ cut' = cut - 1 /\ UNCHANGED c
Spec == Init /\ [][Shorten]_<<c, cut>>
E == Encode(c, MW, B)
Restored == cut = Len(E) => Decode(E, MW, B) = <<c>>
Refused == cut < Len(E) => Decode(SubSeq(E, 1, cut), MW, B) = Fail
NoTail == cut = Len(E) => \A x \in Bytes3 : Decode(Append(E, x), MW, B) = Fail
=============================================================================
