------------------------------- MODULE MCCli -------------------------------
(* Enumerates the invocations and prints each with the number of its        *)
(* defects.                                                                 *)
EXTENDS Cli
CONSTANTS MP, MS
VARIABLE o
Opts == [config : {"none", "missing", "cut", "ok"}, stage : {"none", "empty", "offline", "online", "all", "both", "ALL"},
         role : {"none", "client", "party", "server", "Party"}, server : {"none", "neg", "0", "last", "past", "far"},
         party : {"none", "neg", "0", "last", "past", "far"}, queries : {"none", "neg", "0", "3", "huge"}]
Init == o \in {x \in Opts : x.queries = "huge" => x.role = "client"}
Spec == Init /\ [][FALSE]_o
Emit == PrintT(<<"SCHED", ToJson([o |-> o, d |-> Cardinality(Defects(o))])>>)
\* a valid invocation names an existing node and only links of that node
Sane == ~Refused(o) => /\ Contacts(o, MP, MS) # {}
                       /\ \A c \in Contacts(o, MP, MS) : c[3] \in 0..(MP - 1) /\ c[4] \in 0..(MS - 1)
=============================================================================
