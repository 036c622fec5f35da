----------------------------- MODULE MCBaseline -----------------------------
(* The two runners as programs: a loop with clock readings, and a loop that  *)
(* hands over times to a collector through a bounded channel while a request *)
(* to stop may arrive at any moment. What they report is judged by the same  *)
(* operators as the records of the real runners.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Runner, Q, Table, Pack, Cap, Stops, Fails
B == INSTANCE Baseline
VARIABLES pc, i, now, ev, sum, mark, row, ch, closed, tot, stopped, flag, nst, fin
vars == <<pc, i, now, ev, sum, mark, row, ch, closed, tot, stopped, flag, nst, fin>>
E0(e, a, b, c, d) == [e |-> e, a |-> a, b |-> b, c |-> c, d |-> Table, ms |-> d, us |-> 0]
Zero == [prep |-> 0, query |-> 0, server |-> 0, response |-> 0]
Init == /\ pc = "init" /\ i = 0 /\ now = 0 /\ ev = <<>> /\ sum = Zero /\ mark = 0 /\ row = 0
        /\ ch = <<>> /\ closed = FALSE /\ tot = 0 /\ stopped = 0 /\ flag = FALSE /\ nst = 0 /\ fin = 0
Same == UNCHANGED <<ch, closed, tot, stopped, flag, nst, fin>>
\* ---- SealPIR ----
Call(e, a, b, c, from, to) == /\ pc = from /\ pc' = to /\ \E d \in {0, 2} : now' = now + d /\ ev' = Append(ev, E0(e, a, b, c, d))
Quiet(e, a, b, c, from, to) == /\ pc = from /\ pc' = to /\ now' = now + 5 /\ ev' = Append(ev, E0(e, a, b, c, 5))
Clock(from, to) == pc = from /\ pc' = to /\ mark' = now /\ UNCHANGED <<now, ev, i, sum, row>>
Add(f, from, to) == pc = from /\ pc' = to /\ sum' = [sum EXCEPT ![f] = @ + now - mark] /\ UNCHANGED <<now, ev, mark, row>>
Keep == UNCHANGED <<i, sum, mark, row>>
Seal == /\ Runner = "seal" /\ Same
        /\ \/ Quiet("params", Table, 8, Pack, "init", "keys") /\ Keep
           \/ Quiet("keys", 1, 0, 0, "keys", "setkeys") /\ Keep
           \/ Quiet("setkeys", 1, 0, 0, "setkeys", "p0") /\ Keep
           \/ Clock("p0", "p1")
           \/ Call("db", Table, 8, 0, "p1", "p2") /\ Keep
           \/ Call("prep", 0, 0, 0, "p2", "p3") /\ Keep
           \/ Add("prep", "p3", "loop") /\ UNCHANGED i
           \/ pc = "loop" /\ pc' = (IF i = Q THEN "done" ELSE "i0") /\ (IF i = Q THEN row' = row ELSE \E x \in 0..(Table - 1) : row' = x) /\ UNCHANGED <<now, ev, i, sum, mark>>
           \/ pc = "i0" /\ pc' = "q0" /\ ev' = Append(ev, E0("index", row, row \div Pack, 0, 0)) /\ UNCHANGED <<now, i, sum, mark, row>>
           \/ Clock("q0", "q1")
           \/ Call("query", 10 + i, row \div Pack, 0, "q1", "q2") /\ Keep
           \/ Add("query", "q2", "s0") /\ UNCHANGED i
           \/ Clock("s0", "s1")
           \/ Call("reply", 10 + i, 50 + i, 0, "s1", "s2") /\ Keep
           \/ Add("server", "s2", "r0") /\ UNCHANGED i
           \/ Clock("r0", "r1")
           \/ Call("decode", 50 + i, row % Pack, 0, "r1", "r2") /\ Keep
           \/ Add("response", "r2", "loop") /\ i' = i + 1
SealRec == [t |-> "seal", table |-> Table, q |-> Q, rc |-> 0, ev |-> ev, prep |-> <<sum.prep>>, query |-> <<sum.query>>, server |-> <<sum.server>>, response |-> <<sum.response>>]
\* ---- Checklist: ev are the reads; row is the start of the current one ----
Reader == \/ /\ pc \in {"init", "next"} /\ pc' = (IF i = Q \/ flag THEN "close" ELSE "begin") /\ UNCHANGED <<i, now, ev, row, ch, closed>>
          \/ /\ pc = "begin" /\ pc' = "reading" /\ row' = now /\ i' = i + 1 /\ UNCHANGED <<now, ev, ch, closed>>
          \/ /\ pc = "reading" /\ \E d \in {1, 3} : now' = now + d /\ \E f \in Fails :
                  ev' = Append(ev, [k |-> 7, t0 |-> row, t1 |-> now + d, f |-> f, u |-> 0]) /\ pc' = IF f = 1 THEN "next" ELSE "send"
             /\ UNCHANGED <<i, row, ch, closed>>
          \/ /\ pc = "send" /\ Len(ch) < Cap /\ ch' = Append(ch, now - row) /\ pc' = "next" /\ UNCHANGED <<i, now, ev, row, closed>>
          \/ /\ pc = "close" /\ closed' = TRUE /\ pc' = "closed" /\ UNCHANGED <<i, now, ev, row, ch>>
Collector == \/ /\ ch # <<>> /\ tot' = tot + Head(ch) /\ ch' = Tail(ch) /\ fin' = fin
             \/ /\ ch = <<>> /\ closed /\ fin = 0 /\ fin' = 1 /\ UNCHANGED <<tot, ch>>
List == /\ Runner = "list"
        /\ \/ Reader /\ UNCHANGED <<sum, mark, tot, stopped, flag, nst, fin>>
           \/ Collector /\ UNCHANGED <<pc, i, now, ev, sum, mark, row, closed, stopped, flag, nst>>
           \* told to stop during a read; noticed by another thread before that read is over
           \/ Stops /\ stopped = 0 /\ pc = "reading" /\ stopped' = i /\ UNCHANGED <<pc, i, now, ev, sum, mark, row, ch, closed, tot, flag, nst, fin>>
           \/ stopped > 0 /\ ~flag /\ flag' = TRUE /\ UNCHANGED <<pc, i, now, ev, sum, mark, row, ch, closed, tot, stopped, nst, fin>>
\* scaled to the microseconds of the records, so that the tolerance of a millisecond does not hide anything
K == 1000000
ListRec == [t |-> "list", q |-> Q, con |-> <<0, 0>>, init |-> 0, stop |-> stopped, typ |-> 3, addr |-> <<"a", "b">>, keys |-> <<7>>, rc |-> 0,
            conn |-> <<<<1, 3, "a">>, <<2, 3, "b">>>>, inits |-> 1, cl |-> <<<<1, 3, 2>>>>, reads |-> [j \in DOMAIN ev |-> [ev[j] EXCEPT !.t0 = @ * K, !.t1 = @ * K]],
            tk |-> 0, te |-> now * K, tot |-> <<tot * K>>, st |-> <<"1s", "2s">>, by |-> <<1, 2>>, srv |-> <<<<1, "1s", 1>>, <<2, "2s", 2>>>>, asks |-> <<now * K>>, wlat |-> 0, lat |-> <<>>, u0 |-> 0]
Done == IF Runner = "seal" THEN pc = "done" ELSE fin = 1
Next == Seal \/ List \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Seal \/ List)
Reported == Done => LET r == IF Runner = "seal" THEN SealRec ELSE ListRec IN
                    \* when the request to stop is noticed is up to the schedule, in the model as late as it likes
                    IF Runner = "list" /\ stopped > 0 THEN B!ListCheck([r EXCEPT !.stop = IF Len(ev) < Q THEN Len(ev) ELSE 0]) = {} ELSE B!Check(r) = {}
Bounded == Len(ch) <= Cap /\ (closed => pc = "closed")
Terminates == <>Done
=============================================================================
