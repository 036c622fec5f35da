-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* Invocations of the program. An option is "none" or a string; numbers are *)
(* given symbolically relative to the configuration: "neg", "0", "last",    *)
(* "past" (one too many), "far" (256 more than a valid one), "huge".        *)
(* Network contacts are <<kind, socket, party, server>> with kind listen or *)
(* connect and socket main or par (between siblings).                       *)
(***************************************************************************)
EXTENDS Comp
V(ok, prop, what) == IF ok THEN {} ELSE {<<prop, what>>}
Stages == {"offline", "online", "all"}
\* the reasons to refuse an invocation
Defects(o) ==
  (IF o.config \in {"none", "missing", "cut"} THEN {"config"} ELSE {})
  \cup (IF o.stage \notin Stages THEN {"stage"} ELSE {})
  \cup (IF o.role \notin {"client", "party"} THEN {"role"} ELSE {})
  \cup (IF o.server \in {"none", "neg", "past", "far"} THEN {"server"} ELSE {})
  \cup (IF o.role = "party" /\ o.party \in {"none", "neg"} THEN {"party"} ELSE {})
  \cup (IF o.party \in {"past", "far"} THEN {"party"} ELSE {})
  \cup (IF o.role = "client" /\ o.queries \in {"none", "neg", "huge"} THEN {"queries"} ELSE {})
Refused(o) == Defects(o) # {}
Val(x, n) == IF x = "last" THEN n - 1 ELSE 0
\* the contacts of a valid invocation
Contacts(o, P, S) ==
  LET s == Val(o.server, S)
      k == Val(o.party, P)
  IN IF o.role = "client" THEN {<<"connect", "main", 0, s>>}
     ELSE {<<"listen", "main", k, s>>}
          \cup (IF k < P - 1 THEN {<<"connect", "main", k + 1, s>>} ELSE {})
          \cup (IF s > 0 THEN {<<"listen", "par", k, s>>} ELSE {})
          \cup {<<"connect", "par", k, x>> : x \in (s + 1)..(S - 1)}
Queries(o) == IF o.queries = "0" THEN 0 ELSE 3
\* r.contacts: what the real program did before it first waited for input (r.waits = 1) or ended
Check(r) ==
  LET o == r.o
      C == {r.contacts[i] : i \in DOMAIN r.contacts}
      P == r.P
      S == r.S
  IN IF Refused(o)
     THEN V(C = {}, "C22", "an invalid invocation contacts the network")
          \cup V(r.waits = 1 \/ r.rc # 0, "C22", "an invalid invocation ends successfully")
          \cup V(r.waits = 0 \/ C # {}, "C22", "an invalid invocation goes on")
     ELSE V(r.waits = 1, "C22", "a valid invocation is refused")
          \cup V(C # {} /\ C \subseteq Contacts(o, P, S), "C22", "the program does not take the requested role")
          \cup V(o.role = "client" /\ r.waits = 1 => r.count = Queries(o), "C22", "a client announces another number of queries than requested")
=============================================================================
