------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Configurations: their storage as a byte sequence and the network that a *)
(* generated one describes. Bytes are 0..B-1; numbers take W bytes;        *)
(* addresses are terminated by 0. Decode returns <<configuration, rest>>   *)
(* or <<>> when the bytes do not describe a configuration.                 *)
(***************************************************************************)
EXTENDS Comp
V(ok, prop, what) == IF ok THEN {} ELSE {<<prop, what>>}
Fail == <<>>
Num(v, w, b) == IF w = 1 THEN <<v>> ELSE <<v % b, v \div b>>
UnNum(s, w, b) == IF Len(s) < w THEN Fail
                  ELSE <<IF w = 1 THEN s[1] ELSE s[1] + b * s[2], SubSeq(s, w + 1, Len(s))>>
Text(t) == t \o <<0>>
UnText(s) == IF \A i \in 1..Len(s) : s[i] # 0 THEN Fail
             ELSE LET i == CHOOSE i \in 1..Len(s) : s[i] = 0 /\ \A j \in 1..(i - 1) : s[j] # 0
                  IN <<SubSeq(s, 1, i - 1), SubSeq(s, i + 1, Len(s))>>
EncServer(x, w, b) == Num(x.port, w, b) \o Text(x.ip)
RECURSIVE EncServers(_, _, _)
EncServers(xs, w, b) == IF xs = <<>> THEN <<>> ELSE EncServer(Head(xs), w, b) \o EncServers(Tail(xs), w, b)
RECURSIVE EncParties(_, _, _)
EncParties(ps, w, b) == IF ps = <<>> THEN <<>>
                        ELSE Num(Head(ps).seed, w, b) \o Head(ps).key \o EncServers(Head(ps).servers, w, b) \o EncParties(Tail(ps), w, b)
Encode(c, w, b) == Num(c.P, w, b) \o Num(c.S, w, b) \o EncParties(c.parties, w, b)
RECURSIVE DecServers(_, _, _, _, _)
DecServers(n, s, acc, w, b) ==
  IF n = 0 THEN <<acc, s>>
  ELSE LET p == UnNum(s, w, b) IN
       IF p = Fail THEN Fail
       ELSE LET t == UnText(p[2]) IN
            IF t = Fail THEN Fail ELSE DecServers(n - 1, t[2], Append(acc, [port |-> p[1], ip |-> t[1]]), w, b)
RECURSIVE DecParties(_, _, _, _, _, _)
DecParties(n, S, s, acc, w, b) ==
  IF n = 0 THEN <<acc, s>>
  ELSE LET d == UnNum(s, w, b) IN
       IF d = Fail \/ Len(d[2]) < 1 THEN Fail
       ELSE LET x == DecServers(S, Tail(d[2]), <<>>, w, b) IN
            IF x = Fail THEN Fail
            ELSE DecParties(n - 1, S, x[2], Append(acc, [seed |-> d[1], key |-> <<d[2][1]>>, servers |-> x[1]]), w, b)
Decode(s, w, b) ==
  LET p == UnNum(s, w, b) IN
  IF p = Fail THEN Fail
  ELSE LET q == UnNum(p[2], w, b) IN
       IF q = Fail THEN Fail
       ELSE LET x == DecParties(p[1], q[1], q[2], <<>>, w, b) IN
            IF x = Fail \/ x[2] # <<>> THEN Fail ELSE <<[P |-> p[1], S |-> q[1], parties |-> x[1]]>>

\* ---- the network a generated configuration describes ----------------------
Distinct(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)
Flat(c, f(_)) == [i \in 1..(c.P * c.S) |-> f(c.parties[1 + (i - 1) \div c.S].servers[1 + ((i - 1) % c.S)])]
Port(x) == x.port
PPort(x) == x.pport
Ip(x) == x.ip
LSeed(x) == x.seed
Shape(c, P, S) == /\ c.P = P /\ c.S = S /\ Len(c.parties) = P
                  /\ \A i \in 1..P : Len(c.parties[i].servers) = S
GenBad(r) ==
  LET c == r.got IN
  IF r.refused = 1 THEN V(r.fits = 0, "C18", "a valid request is refused")
  ELSE IF ~Shape(c, r.P, r.S) THEN {<<"C18", "the generated configuration does not list exactly the requested parties and servers">>}
  ELSE LET ports == Flat(c, Port) \o Flat(c, PPort)
       IN V(c.db = r.db /\ c.eps = r.eps /\ c.delta = r.delta, "C18", "a generated parameter differs from the requested one")
          \cup V(Flat(c, Ip) = r.ips, "C18", "addresses are not those given, in order")
          \cup V(r.P * r.S > 1000 \/ Distinct(ports), "C18", "two listening ports are the same")
          \cup V(\A i \in DOMAIN ports : ports[i] >= 1 /\ ports[i] <= 65535, "C18", "a port is not a port number")
          \cup V(Distinct([i \in 1..r.P |-> c.parties[i].seed]), "C18", "two parties have the same shared seed")
          \cup V(Distinct(Flat(c, LSeed)), "C18", "two servers have the same local seed")
          \cup V(Distinct([i \in 1..r.P |-> c.parties[i].sk]) /\ Distinct([i \in 1..r.P |-> c.parties[i].pk]), "C18", "two parties have the same key")
          \cup V(\A i \in 1..r.P : r.match[i] = 1, "C18", "a party's keys do not belong together")
Check(r) ==
  CASE r.t = "rt" -> V(r.a = r.b, "C18", "a configuration is not restored exactly")
    [] r.t = "gen" -> GenBad(r)
=============================================================================
