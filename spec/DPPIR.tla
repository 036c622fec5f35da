------------------------------- MODULE DPPIR -------------------------------
(***************************************************************************)
(* The DP-PIR protocol: clients, a chain of parties 0..P-1 (each with S    *)
(* parallel servers), and the connections between consecutive nodes.       *)
(*                                                                         *)
(* Link <<k, s>> connects the upstream node (client s if k = 0, otherwise  *)
(* server s of party k-1) with server s of party k.  Forward messages on a *)
(* link: cnt, cph (offline onion ciphers), qry; backward: rdy, rsp.        *)
(*                                                                         *)
(* The specification is a pure transition system over a state record:      *)
(*   Violations(cf, st, e)  the guards that event e breaks in state st,    *)
(*                          each tagged with the property it belongs to    *)
(*   Apply(cf, st, e)       the next state                                 *)
(* The model checker (MCDPPIR) explores all behaviours whose every event   *)
(* breaks no guard; the trace checker (DPPIRTrace) evaluates the very same *)
(* operators on events recorded from the real program.                     *)
(*                                                                         *)
(* cf is the configuration record: P, S, db, noise (per row; -1: sampled), *)
(* nmax (maximal sampled noise), stage, q (queries per client), real (set  *)
(* of nodes <<k, s>> that the guards apply to; client s is <<-1, s>>),     *)
(* faulty, tk (party that gets a bad cipher), prime, words.                *)
(***************************************************************************)
EXTENDS SequencesExt, Integers, Sequences, FiniteSets, TLC, Bitwise

---------------------------------------------------------------------------
(* Arithmetic modulo a prime below 2^31 without exceeding TLC's integers.  *)
AddMod(a, b, p) == IF a >= p - b THEN a - (p - b) ELSE a + b
RECURSIVE MulMod(_, _, _)
MulMod(a, b, p) ==
  IF b = 0 THEN 0
  ELSE LET h == MulMod(a, b \div 2, p)
           d == AddMod(h, h, p)
       IN IF b % 2 = 1 THEN AddMod(d, a % p, p) ELSE d

\* One party's step on the incremental share: tally * y + x.
StepTally(tally, sec, p) == AddMod(MulMod(tally % p, sec.y, p), sec.x, p)
RECURSIVE Fold(_, _, _)
Fold(lays, tally, p) == IF lays = <<>> THEN tally ELSE Fold(Tail(lays), StepTally(tally, Head(lays), p), p)

XorW(a, b) == [i \in DOMAIN a |-> IF i \in DOMAIN b THEN a[i] ^^ b[i] ELSE a[i]]
RECURSIVE XorAll(_, _)
XorAll(seqs, acc) == IF seqs = <<>> THEN acc ELSE XorAll(Tail(seqs), XorW(acc, Head(seqs)))
ZeroW(cf) == [i \in 1..cf.words |-> 0]

\* Database row `key' as 16-bit words: value 2*key, then 48 signature bytes key mod 128.
Row(cf, key) ==
  IF cf.words = 1 THEN << key + 1 >>
  ELSE [i \in 1..26 |-> IF i = 1 THEN (2 * key) % 65536
                        ELSE IF i = 2 THEN (2 * key) \div 65536
                        ELSE (key % 128) * 257]

---------------------------------------------------------------------------
Parties(cf) == 0..(cf.P - 1)
Servers(cf) == 0..(cf.S - 1)
Off(cf) == cf.stage # "online"
On(cf) == cf.stage # "offline"
Real(cf, k, s) == <<k, s>> \in cf.real
RealParty(cf, k) == \A s \in Servers(cf) : Real(cf, k, s)
ReadyMax(cf) == IF Off(cf) THEN 2 ELSE 1     \* readiness signals per link
EmptyF == [x \in {} |-> 0]

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n < 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

MsIn(b, x) == x \in DOMAIN b /\ b[x] > 0
MsAdd(b, x) == IF x \in DOMAIN b THEN [b EXCEPT ![x] = @ + 1] ELSE (x :> 1) @@ b
MsDel(b, x) == [b EXCEPT ![x] = @ - 1]
MsCount(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
AddTo(f, x, v) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ \cup {v}] ELSE (x :> {v}) @@ f

Link0 == [cs |-> -1, cd |-> FALSE,            \* announced batch size; delivered
          ys |-> 0, yd |-> 0,                 \* readiness signals sent, delivered
          cphS |-> 0, cphD |-> 0, cphQ |-> <<>>,  \* ciphers sent, delivered, in transit
          qryS |-> 0, qryI |-> <<>>, qryQ |-> <<>>,  \* queries sent; delivered; in transit
          rspS |-> 0, rspI |-> <<>>, rspQ |-> <<>>]  \* responses

State0(cf) ==
  [L |-> [k \in Parties(cf) |-> [s \in Servers(cf) |-> Link0]],
   store |-> [k \in Parties(cf) |-> EmptyF],   \* identifier -> secret, per party
   cpool |-> [k \in Parties(cf) |-> EmptyF],   \* bag of ciphers the party has to forward
   qpool |-> [k \in Parties(cf) |-> EmptyF],   \* bag of queries the party has to forward
   opos  |-> [k \in Parties(cf) |-> EmptyF],   \* query -> places where the party sent it
   csec  |-> [s \in Servers(cf) |-> EmptyF],   \* client secrets: identifier -> layers
   cuse  |-> [s \in Servers(cf) |-> {}],       \* identifiers the client used
   ckey  |-> [s \in Servers(cf) |-> <<>>],     \* what the client asked, with its mask
   nsec  |-> [k \in Parties(cf) |-> EmptyF],   \* secrets of the party's own noise
   nuse  |-> [k \in Parties(cf) |-> {}],
   nc    |-> [k \in Parties(cf) |-> 0],        \* noise ciphers sent
   nk    |-> [k \in Parties(cf) |-> EmptyF],   \* noise queries per row
   pres  |-> {}, shrs |-> {}, cids |-> {},     \* masks, shares, ciphers made so far
   bad   |-> {},                               \* parties that got a bad cipher
   exits |-> EmptyF]                           \* node -> success

---------------------------------------------------------------------------
(* Derived notions *)
Lk(st, k, s) == st.L[k][s]
TotalIn(cf, st, k) == SumTo([s \in Servers(cf) |-> st.L[k][s].cs], cf.S - 1)
TotalOut(cf, st, k) == TotalIn(cf, st, k + 1)
CountsIn(cf, st, k) == \A s \in Servers(cf) : st.L[k][s].cd
CiphersIn(cf, st, k) == \A s \in Servers(cf) : st.L[k][s].cd /\ st.L[k][s].cphD = st.L[k][s].cs
QueriesIn(cf, st, k) == \A s \in Servers(cf) : st.L[k][s].cd /\ Len(st.L[k][s].qryI) = st.L[k][s].cs
ResponsesIn(cf, st, k) == \A s \in Servers(cf) : Len(st.L[k + 1][s].rspI) = st.L[k + 1][s].cs
NoiseTotal(cf, st, k) == IF cf.noise >= 0 THEN cf.noise * cf.db ELSE TotalOut(cf, st, k) - TotalIn(cf, st, k)
Slice(cf, t, s) == IF s = cf.S - 1 THEN t - (cf.S - 1) * (t \div cf.S) ELSE t \div cf.S

\* Without the offline stage every secret is the identity.
IdSecret(cf) == [tag |-> "0", next |-> "0", x |-> 0, y |-> 1, pre |-> ZeroW(cf)]
Secret(cf, st, k, tag) == IF Off(cf) THEN st.store[k][tag] ELSE IdSecret(cf)
Known(cf, st, k, tag) == ~Off(cf) \/ tag \in DOMAIN st.store[k]
Forwarded(cf, st, k, q) ==      \* the query that party k makes out of q
  LET sec == Secret(cf, st, k, q.tag) IN <<sec.next, StepTally(q.tally, sec, cf.prime)>>

NoiseKnown(cf, st, k, q) == ~Off(cf) \/ (q.tag \in DOMAIN st.nsec[k] /\ q.tag \notin st.nuse[k])
NoiseKey(cf, st, k, q) == IF Off(cf) THEN Fold(st.nsec[k][q.tag], q.tally, cf.prime) ELSE q.tally
NoiseCap(cf) == IF cf.noise >= 0 THEN cf.noise ELSE cf.nmax

InField(cf, v) == v >= 0 /\ v < cf.prime
LayersOk(cf, lays) == \A i \in DOMAIN lays :
    InField(cf, lays[i].x) /\ InField(cf, lays[i].y) /\ lays[i].y # 0
Chained(lays) == \A i \in 1..(Len(lays) - 1) : lays[i].next = lays[i + 1].tag
FreshLayers(cf, st, lays) ==
  /\ \A i \in DOMAIN lays : lays[i].pre \notin st.pres /\ lays[i].pre # ZeroW(cf) /\ <<lays[i].x, lays[i].y>> \notin st.shrs
  /\ \A i, j \in DOMAIN lays : i # j => lays[i].pre # lays[j].pre /\ <<lays[i].x, lays[i].y>> # <<lays[j].x, lays[j].y>>

\* What a client that finished successfully must have received.
ClientCorrect(cf, st, s) ==
  /\ On(cf) => /\ Len(st.L[0][s].rspI) = cf.q[s + 1]
               /\ Len(st.ckey[s]) = cf.q[s + 1]
               /\ \A j \in 1..cf.q[s + 1] :
                     LET c == st.ckey[s][j] IN
                     /\ c.key \in 0..(cf.db - 1)
                     /\ st.L[0][s].rspI[j].w = XorW(Row(cf, c.key), c.mask)
  /\ st.L[0][s].yd = ReadyMax(cf)

---------------------------------------------------------------------------
(* Guards.  V(holds, properties, explanation). *)
V(ok, props, what) == IF ok THEN {} ELSE {<<p, what>> : p \in props}

GCount(cf, st, k, s, msg) ==
  LET p == k - 1 IN
  IF k = 0
  THEN V(msg.n = cf.q[s + 1], {"C04", "C22"}, "client announces another number of queries than requested")
  ELSE LET n == [x \in Servers(cf) |-> IF x = s THEN msg.n ELSE st.L[k][x].cs]
           tot == SumTo(n, cf.S - 1)
       IN
       V(CountsIn(cf, st, p), {"C07"}, "batch size announced before the party's whole input size is known")
       \cup (IF ~CountsIn(cf, st, p) THEN {}
             ELSE IF cf.noise >= 0
             THEN V(msg.n = Slice(cf, TotalIn(cf, st, p) + NoiseTotal(cf, st, p), s), {"C03", "C04", "C16", "C17"},
                    "announced batch size is not the even slice of input plus noise")
             ELSE IF \E x \in Servers(cf) : n[x] = -1 THEN {}
             ELSE V(/\ \A x \in Servers(cf) : n[x] = Slice(cf, tot, x)
                    /\ tot >= TotalIn(cf, st, p)
                    /\ tot <= TotalIn(cf, st, p) + cf.nmax * cf.db, {"C03", "C04", "C16", "C17"},
                    "announced batch sizes are not even slices of input plus possible noise"))

SecretBytes == 60
GReady(cf, st, k, s, msg) ==
  LET i == st.L[k][s].ys + 1 IN
  V(msg.v = 1, {"C07"}, "malformed readiness signal")
  \cup V(i <= ReadyMax(cf), {"C07"}, "too many readiness signals")
  \cup V(st.L[k][s].cd, {"C07"}, "ready before the batch size is known")
  \cup (IF k = cf.P - 1
        THEN V(i = 2 => CiphersIn(cf, st, k), {"C07"}, "last party ready before all its servers hold all secrets")
             \* msg.w: bytes known to be under way between two of its servers (an acknowledgement may be, a secret may not)
             \cup V(i = 2 => msg.w < SecretBytes, {"C07"}, "last party ready before all its servers hold all secrets")
        ELSE V(\A x \in Servers(cf) : st.L[k + 1][x].yd >= i, {"C07"},
               "ready before all successors of the party are ready"))
  \cup V(k \in st.bad => i < 2, {"C10"}, "party reports the offline stage done after a bad cipher")

GCipher(cf, st, k, s, msg) ==
  LET p == k - 1 IN
  V(Off(cf), {"C22"}, "cipher sent although only the online stage was requested")
  \cup V(st.L[k][s].yd >= 1, {"C07"}, "cipher sent before the successor is ready")
  \cup V(st.L[k][s].cphS < st.L[k][s].cs, {"C04"}, "more ciphers than announced")
  \cup V(msg.ok, {"C08"}, "cipher cannot be opened layer by layer by the remaining parties")
  \cup (IF k = 0
        THEN V(msg.ok => LayersOk(cf, msg.lay) /\ Chained(msg.lay), {"C08", "C09"}, "client secret outside its domain")
             \cup V(msg.ok => FreshLayers(cf, st, msg.lay) /\ msg.id \notin st.cids, {"C09"}, "client secret not fresh")
             \cup V(msg.ok => \A I \in SUBSET DOMAIN msg.lay : I # {} =>
                      XorAll([i \in 1..Cardinality(I) |-> msg.lay[SetToSeq(I)[i]].pre], ZeroW(cf)) # ZeroW(cf),
                    {"C13"}, "the masks of some parties cancel out without the client's")
        ELSE V(CiphersIn(cf, st, p), {"C06"}, "cipher forwarded before the whole batch of the party is in")
             \cup V(p \notin st.bad, {"C10"}, "party forwards ciphers after a bad one")
             \cup (IF MsIn(st.cpool[p], msg.id) THEN {}
                   ELSE V(st.nc[p] < NoiseTotal(cf, st, p), {"C03", "C04", "C08"}, "forwarded cipher is neither an input cipher nor allowed noise")
                        \cup V(msg.ok => LayersOk(cf, msg.lay) /\ Chained(msg.lay), {"C03", "C09"}, "noise secret outside its domain")
                        \cup V(msg.ok => FreshLayers(cf, st, msg.lay) /\ msg.id \notin st.cids, {"C04", "C09"}, "noise secret not fresh")))

GQuery(cf, st, k, s, msg) ==
  LET p == k - 1 key == <<msg.tag, msg.tally>> IN
  V(On(cf), {"C22"}, "query sent although only the offline stage was requested")
  \cup V(st.L[k][s].yd = ReadyMax(cf), {"C07"}, "query sent before the successor is ready for queries")
  \cup V(st.L[k][s].qryS < st.L[k][s].cs, {"C04"}, "more queries than announced")
  \cup V(InField(cf, msg.tally), {"C04", "C12"}, "tally is not a field element")
  \cup (IF k = 0
        THEN V(Off(cf) => msg.tag \in DOMAIN st.csec[s] /\ msg.tag \notin st.cuse[s], {"C01", "C09"}, "client query without an unused secret")
             \cup V(InField(cf, msg.tally) /\ (Off(cf) => msg.tag \in DOMAIN st.csec[s])
                    => (IF Off(cf) THEN Fold(st.csec[s][msg.tag], msg.tally, cf.prime) ELSE msg.tally) \in 0..(cf.db - 1),
                    {"C01", "C12"}, "client query does not decode to a row")
        ELSE V(QueriesIn(cf, st, p), {"C06"}, "query forwarded before the whole batch of the party is in")
             \cup (IF MsIn(st.qpool[p], key) THEN {}
                   ELSE V(NoiseKnown(cf, st, p, msg), {"C03", "C04", "C05", "C09"} \cup (IF cf.S > 1 THEN {"C21"} ELSE {}),
                          "forwarded query is neither a transformed input query nor noise with an unused secret")
                        \cup (IF ~NoiseKnown(cf, st, p, msg) \/ ~InField(cf, msg.tally) THEN {}
                              ELSE LET row == NoiseKey(cf, st, p, msg) IN
                                   V(row \in 0..(cf.db - 1) /\ (row \in 0..(cf.db - 1) => MsCount(st.nk[p], row) < NoiseCap(cf)),
                                     {"C03", "C17"} \cup (IF Off(cf) THEN {} ELSE {"C04"}),
                                     "noise query for no row of the database, or too many for its row"))))

GResponse(cf, st, k, s, msg) ==
  LET j == st.L[k][s].rspS + 1 IN
  V(On(cf), {"C22"}, "response sent although only the offline stage was requested")
  \cup V(j <= Len(st.L[k][s].qryI), {"C05", "C06"}, "response before its query, or more responses than queries")
  \cup V(st.L[k][s].cd /\ Len(st.L[k][s].qryI) = st.L[k][s].cs, {"C06"}, "response before the server's whole query batch is in")
  \cup (IF j > Len(st.L[k][s].qryI) \/ ~Known(cf, st, k, st.L[k][s].qryI[j].tag) THEN {}
        ELSE LET q == st.L[k][s].qryI[j]
                 sec == Secret(cf, st, k, q.tag)
                 props == {"C05"} \cup (IF cf.S > 1 THEN {"C21"} ELSE {})
             IN IF k = cf.P - 1
                THEN LET row == StepTally(q.tally, sec, cf.prime) IN
                     V(row \in 0..(cf.db - 1) => msg.w = XorW(Row(cf, row), sec.pre), props,
                       "answer is not the queried row under the stored mask")
                ELSE LET out == Forwarded(cf, st, k, q)
                         at == IF out \in DOMAIN st.opos[k] THEN st.opos[k][out] ELSE {}
                     IN V(ResponsesIn(cf, st, k), {"C06"}, "response forwarded before all responses of the party are in")
                        \cup V(\E a \in at : /\ a[2] <= Len(st.L[k + 1][a[1]].rspI)
                                             /\ msg.w = XorW(st.L[k + 1][a[1]].rspI[a[2]].w, sec.pre), props,
                               "response does not belong to the query at this position, or is masked wrongly"))

GDeliver(cf, st, k, s, m, msg) ==
  IF m = "cph" /\ Real(cf, k - 1, s) /\ msg.ok /\ msg.lay # <<>>
  THEN V(msg.lay[1].tag \notin DOMAIN st.store[k], {"C09"}, "two secrets of a party have the same identifier")
  ELSE {}

FAIL == {"C01", "C02", "C03", "C04", "C05", "C08", "C09", "C16", "C17", "C21", "C22"}
GExit(cf, st, k, s, ok) ==
  IF cf.faulty
  THEN V(k = -1 /\ ok => ClientCorrect(cf, st, s), {"C10"}, "client reports success without the correct rows")
  ELSE V(ok, FAIL, "process failed")
       \cup V(k = -1 /\ ok => ClientCorrect(cf, st, s), {"C01", "C05", "C10"}, "client reports success without the correct rows")

GEnd(cf, st) ==
  IF cf.faulty THEN {}
  ELSE V(\A n \in cf.real : n \in DOMAIN st.exits, FAIL, "process did not finish")
       \cup V(\A k \in Parties(cf), s \in Servers(cf) : Real(cf, k - 1, s) =>
                /\ st.L[k][s].cs >= 0
                /\ Off(cf) => st.L[k][s].cphS = st.L[k][s].cs
                /\ On(cf) => st.L[k][s].qryS = st.L[k][s].cs, {"C04", "C02"}, "fewer messages sent than announced")
       \cup V(\A k \in Parties(cf), s \in Servers(cf) : Real(cf, k, s) =>
                /\ st.L[k][s].ys = ReadyMax(cf)
                /\ On(cf) => st.L[k][s].rspS = st.L[k][s].cs, {"C05", "C02"}, "fewer responses sent than queries received")
       \cup V(\A k \in Parties(cf) : RealParty(cf, k) /\ k < cf.P - 1 =>
                /\ (On(cf) /\ cf.noise > 0) => \A r \in 0..(cf.db - 1) : MsCount(st.nk[k], r) = cf.noise
                /\ (On(cf) /\ cf.noise = 0) => st.nk[k] = EmptyF
                /\ Off(cf) => st.nc[k] = NoiseTotal(cf, st, k), {"C03", "C16", "C17"}, "wrong amount of noise for some row")
       \cup V(\A k \in Parties(cf) : RealParty(cf, k) /\ k < cf.P - 1 =>
                /\ \A x \in DOMAIN st.cpool[k] : st.cpool[k][x] = 0
                /\ On(cf) => \A x \in DOMAIN st.qpool[k] : st.qpool[k][x] = 0, {"C04"}, "an input message was not forwarded")

GExtra(cf, st, k, s, d) ==
  IF d = "f" THEN IF Real(cf, k - 1, s) THEN V(FALSE, {"C04", "C22"}, "bytes beyond the announced messages") ELSE {}
  ELSE IF Real(cf, k, s) THEN V(FALSE, {"C05", "C07"}, "bytes beyond the responses due") ELSE {}

Sender(k, s, m) == IF m \in {"cnt", "cph", "qry"} THEN <<k - 1, s>> ELSE <<k, s>>
C10Only(vs) == {v \in vs : v[1] = "C10"}
Violations(cf, st, e) ==
  LET vs ==
    CASE e.t = "S" -> IF Sender(e.k, e.s, e.m) \notin cf.real THEN {}
                      ELSE (CASE e.m = "cnt" -> GCount(cf, st, e.k, e.s, e.msg)
                             [] e.m = "rdy" -> GReady(cf, st, e.k, e.s, e.msg)
                             [] e.m = "cph" -> GCipher(cf, st, e.k, e.s, e.msg)
                             [] e.m = "qry" -> GQuery(cf, st, e.k, e.s, e.msg)
                             [] e.m = "rsp" -> GResponse(cf, st, e.k, e.s, e.msg))
      [] e.t = "D" -> GDeliver(cf, st, e.k, e.s, e.m, e.msg)
      [] e.t = "X" -> GExit(cf, st, e.k, e.s, e.ok)
      [] e.t = "E" -> GExtra(cf, st, e.k, e.s, e.d)
      [] e.t = "Z" -> GEnd(cf, st)
      [] OTHER -> {}
  IN IF cf.faulty /\ ~cf.crash THEN C10Only(vs) ELSE vs   \* processes that live follow the protocol whoever dies

---------------------------------------------------------------------------
(* Updates *)
NoteMade(cf, st, msg) ==
  [st EXCEPT !.pres = @ \cup {msg.lay[i].pre : i \in DOMAIN msg.lay},
             !.shrs = @ \cup {<<msg.lay[i].x, msg.lay[i].y>> : i \in DOMAIN msg.lay},
             !.cids = @ \cup {msg.id}]

ASend(cf, st, k, s, m, msg) ==
  CASE m = "cnt" -> [st EXCEPT !.L[k][s].cs = msg.n]
    [] m = "rdy" -> [st EXCEPT !.L[k][s].ys = @ + 1]
    [] m = "cph" ->
         LET st1 == [st EXCEPT !.L[k][s].cphS = @ + 1, !.L[k][s].cphQ = Append(@, msg)] IN
         IF k = 0
         THEN LET st2 == IF Real(cf, -1, s) THEN NoteMade(cf, st1, msg) ELSE st1 IN
              IF msg.lay = <<>> THEN st2
              ELSE [st2 EXCEPT !.csec[s] = (msg.lay[1].tag :> msg.lay) @@ @]
         ELSE IF ~Real(cf, k - 1, s) THEN st1
         ELSE IF MsIn(st.cpool[k - 1], msg.id)
         THEN [st1 EXCEPT !.cpool[k - 1] = MsDel(@, msg.id)]
         ELSE LET st2 == [NoteMade(cf, st1, msg) EXCEPT !.nc[k - 1] = @ + 1] IN
              IF msg.lay = <<>> THEN st2
              ELSE [st2 EXCEPT !.nsec[k - 1] = (msg.lay[1].tag :> msg.lay) @@ @]
    [] m = "qry" ->
         LET st1 == [st EXCEPT !.L[k][s].qryS = @ + 1, !.L[k][s].qryQ = Append(@, msg)]
             key == <<msg.tag, msg.tally>>
             p == k - 1
         IN IF k = 0
            THEN LET lays == IF Off(cf) /\ msg.tag \in DOMAIN st.csec[s] THEN st.csec[s][msg.tag] ELSE <<>>
                     row == IF InField(cf, msg.tally) THEN Fold(lays, msg.tally, cf.prime) ELSE -1
                     mask == XorAll([i \in DOMAIN lays |-> lays[i].pre], ZeroW(cf))
                 IN [st1 EXCEPT !.cuse[s] = @ \cup {msg.tag}, !.ckey[s] = Append(@, [key |-> row, mask |-> mask])]
            ELSE IF ~Real(cf, p, s) THEN st1
            ELSE IF MsIn(st.qpool[p], key)
            THEN [st1 EXCEPT !.qpool[p] = MsDel(@, key),
                             !.opos[p] = AddTo(@, key, <<s, st1.L[k][s].qryS>>)]
            ELSE LET ok == NoiseKnown(cf, st, p, msg) /\ InField(cf, msg.tally)
                     row == IF ok THEN NoiseKey(cf, st, p, msg) ELSE -1
                     st2 == [st1 EXCEPT !.nuse[p] = @ \cup {msg.tag},
                                        !.opos[p] = AddTo(@, key, <<s, st1.L[k][s].qryS>>)]
                 IN IF row \in 0..(cf.db - 1) THEN [st2 EXCEPT !.nk[p] = MsAdd(@, row)] ELSE st2
    [] m = "rsp" -> [st EXCEPT !.L[k][s].rspS = @ + 1, !.L[k][s].rspQ = Append(@, msg)]

Pop(q) == IF q = <<>> THEN <<>> ELSE Tail(q)
ADeliver(cf, st, k, s, m, msg) ==
  CASE m = "cnt" -> [st EXCEPT !.L[k][s].cd = TRUE]
    [] m = "rdy" -> [st EXCEPT !.L[k][s].yd = @ + 1]
    [] m = "cph" ->
         LET st1 == [st EXCEPT !.L[k][s].cphD = @ + 1, !.L[k][s].cphQ = Pop(@)]
             st2 == IF msg.lay = <<>> THEN st1 ELSE [st1 EXCEPT !.store[k] = (msg.lay[1].tag :> msg.lay[1]) @@ @]
         IN IF k < cf.P - 1 THEN [st2 EXCEPT !.cpool[k] = MsAdd(@, msg.inner)] ELSE st2
    [] m = "qry" ->
         LET st1 == [st EXCEPT !.L[k][s].qryI = Append(@, msg), !.L[k][s].qryQ = Pop(@)] IN
         IF k < cf.P - 1 /\ Known(cf, st, k, msg.tag) /\ InField(cf, msg.tally)
         THEN [st1 EXCEPT !.qpool[k] = MsAdd(@, Forwarded(cf, st, k, msg))]
         ELSE st1
    [] m = "rsp" -> [st EXCEPT !.L[k][s].rspI = Append(@, msg), !.L[k][s].rspQ = Pop(@)]

Apply(cf, st, e) ==
  CASE e.t = "S" -> ASend(cf, st, e.k, e.s, e.m, e.msg)
    [] e.t = "D" -> ADeliver(cf, st, e.k, e.s, e.m, e.msg)
    [] e.t = "T" -> IF e.m = "cph" THEN [st EXCEPT !.bad = @ \cup {e.k}] ELSE st
    [] e.t = "X" -> [st EXCEPT !.exits = (<<e.k, e.s>> :> e.ok) @@ @]
    [] OTHER -> st
=============================================================================
