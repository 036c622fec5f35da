-------------------------------- MODULE Bulk --------------------------------
(* Runs too large to be traced message by message: only what the processes  *)
(* report at the end is recorded. A run with valid parameters in which no   *)
(* party misbehaves ends by itself, every role with success, whatever the   *)
(* amounts exchanged: r.exits is the sequence of exit codes (-1: was still  *)
(* running when the whole system had come to rest).                         *)
EXTENDS Comp
Check(r) ==
  IF \E i \in DOMAIN r.exits : r.exits[i] > 0 THEN {<<r.prop, "a role fails in a run without misbehaviour">>}
  ELSE IF \E i \in DOMAIN r.exits : r.exits[i] = -1 THEN {<<r.prop, "the run comes to rest before all roles are done">>}
  ELSE IF Len(r.exits) # r.P * r.S + r.S THEN {<<r.prop, "a role is missing">>}
  ELSE {}
=============================================================================
