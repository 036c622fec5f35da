----------------------------- MODULE DPPIRTrace -----------------------------
(* Validates traces recorded from the real program against DPPIR.          *)
(* TRACES (environment): ndjson file, one trace per line.                  *)
EXTENDS DPPIR, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st, errs
vars == <<tid, l, st, errs>>

T(t) == Traces[t]
Cf(t) == [P |-> T(t).P, S |-> T(t).S, db |-> T(t).db, noise |-> T(t).noise, nmax |-> T(t).nmax,
          stage |-> T(t).stage, q |-> T(t).q, real |-> {T(t).real[i] : i \in DOMAIN T(t).real},
          faulty |-> T(t).faulty, crash |-> T(t).crash, prime |-> 2147483647, words |-> 26]
Cfs == [t \in DOMAIN Traces |-> Cf(t)]

Event(t, i) ==
  LET e == T(t).ev[i] IN
  IF e.t \in {"S", "D", "T"} THEN [t |-> e.t, k |-> e.k, s |-> e.s, m |-> e.m, msg |-> T(t).msgs[e.i]] ELSE e

Init == /\ tid \in DOMAIN Traces
        /\ l = 1
        /\ st = State0(Cfs[tid])
        /\ errs = {}
Next == /\ l <= Len(T(tid).ev)
        /\ LET e == Event(tid, l)
               vs == Violations(Cfs[tid], st, e)
           IN /\ errs' = errs \cup {<<v[1], l, v[2]>> : v \in vs}
              /\ st' = Apply(Cfs[tid], st, e)
              /\ \A v \in vs : PrintT(<<"VIOL", T(tid).name, v[1], l, v[2]>>)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ IF l = Len(T(tid).ev) THEN PrintT(<<"DONE", T(tid).name, l>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
