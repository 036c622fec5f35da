------------------------------ MODULE MCOnion ------------------------------
(* All ways in which MP parties handle a batch of onion ciphers, with an    *)
(* adversary who may alter one cipher or hand it to the wrong party.        *)
EXTENDS Onion
CONSTANTS MP, MSecrets
VARIABLES c, at, got, bad, stopped
vars == <<c, at, got, bad, stopped>>
Keys == [i \in 1..MP |-> i]
Init == /\ \E s \in [1..MP -> 1..MSecrets] : \E f \in 1..MP :
             c = [made |-> s, first |-> f, cur |-> Make(SubSeq(Keys, f, MP), SubSeq(s, f, MP), SubSeq(Keys, f, MP))] /\ at = f
        /\ got = <<>> /\ bad = FALSE /\ stopped = FALSE
Open == /\ ~stopped /\ at <= MP
        /\ IF Opens(c.cur, at)
           THEN got' = Append(got, c.cur.secret) /\ c' = [c EXCEPT !.cur = c.cur.inner] /\ at' = at + 1 /\ UNCHANGED stopped
           ELSE stopped' = TRUE /\ UNCHANGED <<c, at, got>>
        /\ UNCHANGED bad
Alter == /\ ~bad /\ ~stopped /\ at <= MP /\ bad' = TRUE /\ c' = [c EXCEPT !.cur = Junk] /\ UNCHANGED <<at, got, stopped>>
Misroute == \* a party that is not the next one tries: nothing is learnt
  /\ ~stopped /\ \E k \in 1..(MP + 1) : k # at /\ Opens(c.cur, k) /\ got' = Append(got, 0)
  /\ UNCHANGED <<c, at, bad, stopped>>
Next == Open \/ Alter \/ Misroute
Spec == Init /\ [][Next]_vars
Exact == got = SubSeq(c.made, c.first, at - 1)
Refused == bad => at <= MP
Uniform == ~bad => Depth(c.cur) = MP - at + 1
=============================================================================
