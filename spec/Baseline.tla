------------------------------ MODULE Baseline ------------------------------
(* The runners of the two baselines (C26): what they ask of the library     *)
(* that they measure, and what they report.                                  *)
(*                                                                           *)
(* SealPIR: a table of the requested size, preprocessed once; then one query *)
(* after the other, each for a row of the table, answered by the server and  *)
(* decoded at the place of its own row. Reported: what each of the four      *)
(* phases took in sum, in milliseconds.                                      *)
(* Checklist: two servers, one hint; then one read after the other, each of  *)
(* a key that the servers have, until all are made or the runner is told to  *)
(* stop. Reported: what the successful reads took, and what the servers      *)
(* state once the reads are over.                                            *)
EXTENDS Comp, SequencesExt
Sum(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
V(ok, what) == IF ok THEN {} ELSE {<<"C26", what>>}
Range2(s) == {s[i] : i \in DOMAIN s}

\* ---- SealPIR ----
ItemSize == 8
Of(r, e) == SelectSeq(r.ev, LAMBDA x : x.e = e)
Pos(r, e) == {i \in DOMAIN r.ev : r.ev[i].e = e}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
\* microseconds of a sum of durations given as <<ms, us>>, in whole milliseconds
Millis(ds) == Sum([i \in DOMAIN ds |-> ds[i].ms]) + Sum([i \in DOMAIN ds |-> ds[i].us]) \div 1000
Refused(r) == /\ r.rc # 0
              /\ Pos(r, "db") \cup Pos(r, "prep") \cup Pos(r, "query") \cup Pos(r, "reply") = {}
              /\ r.prep = <<>> /\ r.query = <<>> /\ r.server = <<>> /\ r.response = <<>>
\* the queries of a run: [id, index], their replies: [query, id, client], and where they were decoded: [reply, offset]
SealRun(r) ==
  LET qs == Of(r, "query")  rs == Of(r, "reply")  ds == Of(r, "decode")
      asked == {e.a : e \in Range2(Of(r, "index"))}
      dbs == Of(r, "db")  keys == Of(r, "setkeys")
      pack == IF Pos(r, "params") = {} THEN 1 ELSE Of(r, "params")[1].c
      QueryOf(rid) == {i \in DOMAIN rs : rs[i].b = rid}
      IndexOf(qid) == {qs[i].b : i \in {j \in DOMAIN qs : qs[j].a = qid}}
      Once(a, b) == Len(a) = Len(b) /\ Cardinality(Range2(a)) = Len(a) /\ Range2(a) = Range2(b)
      \* the row at which a reply was decoded
      Row(d) == {x * pack + d.b : x \in UNION {IndexOf(rs[i].a) : i \in QueryOf(d.a)}}
      rows == UNION {Row(ds[j]) : j \in DOMAIN ds}
      Quarter(k) == {x \in rows : (x * 4) \div r.table = k}
  IN V(r.rc = 0, "the SealPIR runner fails")
     \cup V(/\ Len(dbs) = 1 /\ dbs[1].a = r.table /\ dbs[1].b = ItemSize /\ Pos(r, "params") # {}
            /\ \A e \in {"params", "server", "client"} : \A x \in Range2(Of(r, e)) : x.a = r.table /\ x.b = ItemSize,
            "the table measured with SealPIR does not have the requested size")
     \cup V(Len(dbs) = 1 => dbs[1].c = 0 /\ dbs[1].d = r.table /\ (r.table >= 64 => dbs[1].k = 0), "the rows of SealPIR's table are not random")
     \cup V(/\ Cardinality(Pos(r, "prep")) = 1 /\ (rs # <<>> /\ Len(dbs) = 1 => First(Pos(r, "db")) < First(Pos(r, "prep")) /\ First(Pos(r, "prep")) < First(Pos(r, "reply"))),
            "SealPIR's table is not preprocessed once, before the queries")
     \cup V(rs # <<>> => Pos(r, "setkeys") # {} /\ \A i \in DOMAIN rs : \E j \in DOMAIN keys : keys[j].b = rs[i].c /\ keys[j].a \in {k.a : k \in Range2(Of(r, "keys"))},
            "a SealPIR query is answered without the keys of its client")
     \cup V(Len(qs) = r.q, "SealPIR is not measured with the requested number of queries")
     \cup V(Once([i \in DOMAIN qs |-> qs[i].a], [i \in DOMAIN rs |-> rs[i].a]) /\ Once([i \in DOMAIN rs |-> rs[i].b], [i \in DOMAIN ds |-> ds[i].a]),
            "not every SealPIR query is answered and decoded once")
     \cup V(\A x \in rows : 0 <= x /\ x < r.table, "SealPIR is queried for a row that is not in the table")
     \cup V(rows = asked /\ \A j \in DOMAIN ds : ds[j].b < pack, "a SealPIR reply is not decoded at its own row")
     \cup V(/\ r.q >= 60 /\ r.table >= 4 => \A k \in 0..3 : Quarter(k) # {}
            /\ r.q >= 60 /\ r.table <= 5 => rows = 0..(r.table - 1)
            /\ r.q >= 600 /\ r.table <= 10 => rows = 0..(r.table - 1), "SealPIR queries do not come from the whole table")
     \cup V(r.prep = <<Millis(dbs \o Of(r, "prep"))>>, "the time of SealPIR's preprocessing is not what it took")
     \cup V(r.query = <<Millis(qs)>>, "SealPIR's query time is not what the queries took")
     \cup V(r.server = <<Millis(rs)>>, "SealPIR's server time is not what the replies took")
     \cup V(r.response = <<Millis(ds)>>, "SealPIR's response time is not what decoding took")
SealCheck(r) ==
  IF r.table = 0 \/ r.q = 0 THEN V(Refused(r), "the SealPIR runner does work that was not asked for")
  ELSE SealRun(r)

\* ---- Checklist ----
Default == 10000
Late == 2      \* reads that may begin before a request to stop is noticed
Asked(r) == IF r.q < 0 THEN Default ELSE r.q
Ok(r) == SelectSeq(r.reads, LAMBDA x : x.f = 0)
Failed(r) == SelectSeq(r.reads, LAMBDA x : x.f = 1)
Took(s) == Sum([i \in DOMAIN s |-> s[i].t1 - s[i].t0])
\* the last moment before a read, and the first after it, that the library sees
Before(r, i) == IF i = 1 THEN r.tk ELSE r.reads[i - 1].t1
After(r, i) == IF i = Len(r.reads) THEN r.te ELSE r.reads[i + 1].t0
Broken(r) == r.con[1] = 1 \/ r.con[2] = 1 \/ r.init = 1
ListRun(r) ==
  LET ok == Ok(r)  n == Len(r.reads)
      idx == SelectSeq([i \in DOMAIN r.reads |-> i], LAMBDA i : r.reads[i].f = 0)
      eps == 1000
  IN V(r.rc = 0, "the Checklist runner fails")
     \cup V(Range2(r.conn) = {<<1, r.typ, r.addr[1]>>, <<2, r.typ, r.addr[2]>>} /\ Len(r.conn) = 2 /\ r.inits = 1 /\ Len(r.cl) = 1 /\ {r.cl[1][1], r.cl[1][3]} = {1, 2} /\ r.cl[1][2] = r.typ,
            "the Checklist runner does not set up one client of the requested kind with the two requested servers")
     \cup V(IF r.stop = 0 THEN n = Asked(r) ELSE n \in r.stop..(r.stop + Late), "Checklist is not measured with the requested number of reads")
     \cup V(\A i \in DOMAIN r.reads : r.reads[i].k \in Range2(r.keys), "Checklist reads a key that the servers do not have")
     \cup V(n >= 40 * Len(r.keys) => {r.reads[i].k : i \in DOMAIN r.reads} = Range2(r.keys), "Checklist reads do not cover the keys of the servers")
     \cup V(\A i \in 1..(n - 1) : r.reads[i].t1 <= r.reads[i + 1].t0, "Checklist reads are not made one after the other")
     \cup V(Len(r.tot) = 1, "the Checklist runner does not report one total on a line of its own")
     \cup V(Len(r.tot) = 1 => /\ r.tot[1] + n + eps >= Took(ok)
                              /\ r.tot[1] <= (r.te - r.tk) - Took(Failed(r)) + n + eps, "Checklist's total is not what the successful reads took")
     \cup V(r.srv = <<<<1, r.st[1], r.by[1]>>, <<2, r.st[2], r.by[2]>>>>, "Checklist's report does not state each server's time and traffic as the server does")
     \cup V(\A i \in DOMAIN r.asks : r.asks[i] >= (IF n = 0 THEN 0 ELSE r.reads[n].t1), "Checklist's servers are asked for their times before the reads are over")
     \cup V(IF r.wlat = 0 THEN r.lat = <<>>
            ELSE /\ Len(r.lat) = Len(ok)
                 /\ \A j \in DOMAIN ok : LET i == idx[j] IN
                      /\ r.lat[j][2] * 1000 <= After(r, i) - Before(r, i) + eps
                      /\ (r.lat[j][2] + 1) * 1000 + eps >= r.reads[i].t1 - r.reads[i].t0
                      /\ r.lat[j][1] >= r.u0 /\ r.lat[j][1] <= r.reads[i].u,
            "the latencies that the Checklist runner writes are not those of its reads")
ListCheck(r) ==
  IF Broken(r) THEN V(r.rc # 0 /\ r.reads = <<>> /\ r.tot = <<>> /\ r.srv = <<>> /\ r.lat = <<>>, "the Checklist runner reports although it cannot read")
  ELSE ListRun(r)
Check(r) == IF r.t = "seal" THEN SealCheck(r) ELSE ListCheck(r)
=============================================================================
