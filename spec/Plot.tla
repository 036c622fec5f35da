-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* The figures and tables drawn from the results of experiments            *)
(* (experiments/plots/plot.py). Results are the reports the orchestrator   *)
(* leaves behind: per experiment (a record of its parameters) some files   *)
(* (role, party, server, and the times its text states, in milliseconds).  *)
(* A description says which protocols are compared, over which parameter,  *)
(* at which values, and where missing measurements may be extrapolated.    *)
(*                                                                         *)
(* First part: what a figure must show, as a function of the results.      *)
(* Second part: the drawing process (files are read one by one, in no      *)
(* particular order; then gaps are filled from left to right). MCPlot      *)
(* checks that the process shows what it must, whatever the order.         *)
(* Third part: Check compares what the real script drew.                   *)
(***************************************************************************)
EXTENDS Comp
Kind(proto) == CASE proto = "DP-PIR" -> "dppir" [] proto = "Checklist" -> "checklist" [] OTHER -> "sealpir"
Attr(e, a) == CASE a = "tableSize" -> e.table [] a = "queries" -> e.queries [] a = "parties" -> e.parties [] OTHER -> e.par
HasAttr(proto, a) == proto = "DP-PIR" \/ a \in {"tableSize", "queries"}
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SetMax(_)
SetMax(s) == LET x == CHOOSE y \in s : TRUE IN IF Cardinality(s) = 1 THEN x ELSE Max2(x, SetMax(s \ {x}))
None == -2147483647
\* the files of the results a protocol's numbers come from: all <<experiment, file>>
Source(rs, name, proto) ==
  UNION {{<<rs[i].e, rs[i].files[j]>> : j \in {j \in DOMAIN rs[i].files : rs[i].files[j].role = (IF proto = "DP-PIR" THEN "party" ELSE "client") /\ rs[i].files[j].party = 0}}
         : i \in {i \in DOMAIN rs : rs[i].e.name = name /\ rs[i].e.kind = Kind(proto)}}
\* the time a report states: [ok, has, t]
One(s) == [ok |-> Len(s) = 1, has |-> Len(s) = 1, t |-> IF Len(s) = 1 THEN s[1] ELSE 0]
Time(proto, mode, f) ==
  CASE proto = "DP-PIR" /\ mode = "Online" -> One(f.on)
    [] proto = "DP-PIR" -> IF f.off = <<>> THEN [ok |-> TRUE, has |-> FALSE, t |-> 0] ELSE One(f.off)
    [] proto = "Checklist" -> IF f.chk = <<>> THEN One(<<>>) ELSE [ok |-> TRUE, has |-> TRUE, t |-> SetMax({f.chk[i] : i \in DOMAIN f.chk})]
    [] OTHER -> One(f.seal)

(* Lines: value at position i of xs, given the values ys (None where there is none). *)
Known(ys) == {i \in DOMAIN ys : ys[i] # None}
Last(ks) == SetMax(ks)
CanFill(proto, axis, ks) == IF proto = "DP-PIR" THEN Cardinality(ks) >= 2 /\ axis \in {"queries", "tableSize"} ELSE ks # {} /\ axis = "queries"
\* tenths of milliseconds times 10: all values shown are in units of 10 microseconds
Mul(a, b, c) == (a \div c) * b + ((a % c) * b) \div c     \* a b / c
Near(a, b) == Abs(a - b) <= 2
\* a time in ms as a value shown; beyond 5 h, where that does not fit, values are negative, in ms (never extrapolated from)
Shown(t) == IF t <= 20000000 THEN 100 * t ELSE -t
Div(a, b) == IF b < 0 THEN IF a < 0 THEN (-a) \div (-b) ELSE -(a \div (-b)) ELSE IF a < 0 THEN -((-a) \div b) ELSE a \div b
\* ys in units of 10 microseconds
LineAt(proto, xs, ks, ys, x) ==
  IF proto = "DP-PIR"
  THEN LET b == Last(ks)  a == Last(ks \ {b})  IN ys[b] + Div((ys[b] - ys[a]) * (x - xs[b]), xs[b] - xs[a])
  ELSE LET b == Last(ks) IN Mul(ys[b], x, xs[b])

(* A series *)
Times(d, s, rs) == [i \in DOMAIN d.xs |-> {Time(s.proto, s.mode, p[2]).t : p \in {p \in Source(rs, d.name, s.proto) : Attr(p[1], d.axis) = d.xs[i] /\ Time(s.proto, s.mode, p[2]).has}}]
Given(d, s, rs) == {i \in DOMAIN d.xs : Times(d, s, rs)[i] # {}}
Gaps(d, s, rs) == DOMAIN d.xs \ Given(d, s, rs)
RefusedSeries(d, s, rs) ==
  \/ ~HasAttr(s.proto, d.axis) /\ Source(rs, d.name, s.proto) # {}
  \/ \E p \in Source(rs, d.name, s.proto) : ~Time(s.proto, s.mode, p[2]).ok
  \/ \E i \in Gaps(d, s, rs) : d.xs[i] \notin {s.fill[k] : k \in DOMAIN s.fill}
  \/ Gaps(d, s, rs) # {} /\ ~CanFill(s.proto, d.axis, Given(d, s, rs))
Label(d, s) == CASE s.proto = "DP-PIR" -> IF d.graphs = 0 THEN "DP-PIR" ELSE s.mode
                 [] s.proto = "Checklist" -> IF s.mode = "Punc" THEN "Checklist" ELSE "DPF"
                 [] OTHER -> "SealPIR"

(* A ratio figure: DP-PIR's cost is y1 per x1 rows (noise, measured with one query) and y2 per q2   *)
(* queries; the baseline's is yb per qb queries, for each table size. DP-PIR is s times faster from *)
(* the ratio of queries to rows on at which s (noise + queries) = baseline.                         *)
Noises(d, rs) == {p \in Source(rs, d.name, "DP-PIR") : p[1].queries = 1}
Reals(d, rs) == {p \in Source(rs, d.name, "DP-PIR") : p[1].queries # 1}
\* roots: sqrt(xs[i]) in a common unit
BaseIdx(d, rs) == {i \in DOMAIN d.xs : \E p \in Source(rs, d.name, d.base.proto) : p[1].table = d.xs[i]}
BaseRef(d, rs, i) == IF i \in BaseIdx(d, rs) THEN i ELSE Last(BaseIdx(d, rs))
BaseOf(d, rs, i) == CHOOSE p \in Source(rs, d.name, d.base.proto) : p[1].table = d.xs[BaseRef(d, rs, i)]
BaseT(d, rs, i) == Time(d.base.proto, d.base.mode, BaseOf(d, rs, i)[2]).t
DpT(ps) == Time("DP-PIR", "Online", (CHOOSE p \in ps : TRUE)[2]).t
Part(ps) == CHOOSE p \in ps : TRUE
\* (yb/qb) (a/b) - s y2/q2, times qb q2 b
Margin(d, rs, i, s) ==
  LET p == BaseOf(d, rs, i)
      a == d.roots[i]  b == d.roots[BaseRef(d, rs, i)]
      r == Part(Reals(d, rs))
  IN BaseT(d, rs, i) * r[1].queries * a - s * DpT(Reals(d, rs)) * p[1].queries * b
Ratio1000(d, rs, i, s) ==
  LET n == Part(Noises(d, rs))  r == Part(Reals(d, rs))  p == BaseOf(d, rs, i)
  IN Div(1000 * s * DpT(Noises(d, rs)) * p[1].queries * r[1].queries * d.roots[BaseRef(d, rs, i)], n[1].table * Margin(d, rs, i, s))
RefusedRatio(d, rs) ==
  \/ \E p \in Source(rs, d.name, "DP-PIR") : ~Time("DP-PIR", "Online", p[2]).ok
  \/ \E p \in Source(rs, d.name, d.base.proto) : ~Time(d.base.proto, d.base.mode, p[2]).ok
  \/ Noises(d, rs) = {} \/ Reals(d, rs) = {}
  \/ BaseIdx(d, rs) = {}
  \/ BaseIdx(d, rs) # DOMAIN d.xs /\ d.base.mode # "Punc"
  \/ \E i \in DOMAIN d.xs, k \in DOMAIN d.speedups : Margin(d, rs, i, d.speedups[k]) = 0

(* A table: a row per value, offline and online time in seconds; empty where nothing was measured. *)
Cell(d, rs, i, col) == {Time("DP-PIR", col, p[2]).t : p \in {p \in Source(rs, d.name, "DP-PIR") : Attr(p[1], d.axis) = d.xs[i]}}
RefusedTable(d, rs) == \E p \in Source(rs, d.name, "DP-PIR") : \E c \in {"Online", "Offline"} : ~One(IF c = "Online" THEN p[2].on ELSE p[2].off).ok

Refused(d, rs) == CASE d.type = "table" -> RefusedTable(d, rs)
                    [] d.type = "ratio-plot" -> RefusedRatio(d, rs)
                    [] OTHER -> \E k \in DOMAIN d.series : RefusedSeries(d, d.series[k], rs)

(***************************************************************************)
(* The process, for one series: [ys, todo, bad]                            *)
(***************************************************************************)
Start(d, s, rs) == [ys |-> [i \in DOMAIN d.xs |-> None], todo |-> Source(rs, d.name, s.proto), bad |-> FALSE, at |-> 1]
Pos(d, x) == CHOOSE i \in DOMAIN d.xs : d.xs[i] = x
Read(st, d, s, p) ==
  LET t == Time(s.proto, s.mode, p[2]) IN
  IF ~t.ok \/ ~HasAttr(s.proto, d.axis) THEN [st EXCEPT !.todo = {}, !.bad = TRUE]
  ELSE [st EXCEPT !.todo = @ \ {p}, !.ys[Pos(d, Attr(p[1], d.axis))] = IF t.has THEN Shown(t.t) ELSE @]
Fill(st, d, s) ==
  LET i == st.at  ks == Known(st.ys) IN
  IF st.ys[i] # None THEN [st EXCEPT !.at = i + 1]
  ELSE IF d.xs[i] \notin {s.fill[k] : k \in DOMAIN s.fill} \/ ~CanFill(s.proto, d.axis, ks) THEN [st EXCEPT !.bad = TRUE]
  ELSE [st EXCEPT !.at = i + 1, !.ys[i] = LineAt(s.proto, d.xs, ks, st.ys, d.xs[i])]
Over(st, d) == st.bad \/ (st.todo = {} /\ st.at > Len(d.xs))
\* what the process may end with. Filling from values that were filled before loses a little by rounding.
RightSeries(d, s, rs, ys) ==
  /\ \A i \in Given(d, s, rs) : ys[i] \in {Shown(t) : t \in Times(d, s, rs)[i]}
  /\ \A i \in Gaps(d, s, rs) : Near(ys[i], LineAt(s.proto, d.xs, Given(d, s, rs), ys, d.xs[i]))

(***************************************************************************)
(* What the real script did: the descriptions it was asked for (order, or  *)
(* "" for all, in any order), the figures and tables it produced, whether  *)
(* it ended well.                                                          *)
(***************************************************************************)
V(ok, prop, what) == IF ok THEN {} ELSE {<<prop, what>>}
Odd == 2147483647
C24(ok, what) == V(ok, "C24", what)
CheckFigure(d, rs, g) ==
  IF g.what # "figure" THEN {<<"C24", "a figure is not drawn">>}
  ELSE C24(g.path = (IF g.pdf = 1 THEN d.name \o ".pgf" ELSE ""), "a figure is saved under another name")
    \cup IF d.type = "ratio-plot"
         THEN C24(Len(g.lines) = Len(d.speedups) /\ \A k \in DOMAIN d.speedups : \E l \in DOMAIN g.lines : g.lines[l].label = ToString(d.speedups[k]) \o "x", "a figure has other lines than described")
              \cup UNION {UNION {IF g.lines[l].label # ToString(d.speedups[k]) \o "x" THEN {}
                     ELSE C24(g.lines[l].x = d.xs /\ Len(g.lines[l].y) = Len(d.xs), "a figure shows other values than described")
                          \cup (IF g.lines[l].x # d.xs \/ Len(g.lines[l].y) # Len(d.xs) THEN {}
                                ELSE C24(\A i \in DOMAIN d.xs : Near(g.lines[l].y[i], Ratio1000(d, rs, i, d.speedups[k])), "a break-even ratio does not follow from the measured costs"))
                     : k \in DOMAIN d.speedups} : l \in DOMAIN g.lines}
         ELSE C24(Len(g.lines) = Len(d.series) /\ \A k \in DOMAIN d.series : \E l \in DOMAIN g.lines : g.lines[l].label = Label(d, d.series[k]), "a figure has other lines than described")
              \cup UNION {UNION {IF g.lines[l].label # Label(d, d.series[k]) THEN {}
                     ELSE LET s == d.series[k]  y == g.lines[l].y IN
                          C24(g.lines[l].x = d.xs /\ Len(y) = Len(d.xs), "a figure shows other values than described")
                          \cup (IF g.lines[l].x # d.xs \/ Len(y) # Len(d.xs) THEN {}
                                ELSE C24(\A i \in Given(d, s, rs) : y[i] \in {Shown(t) : t \in Times(d, s, rs)[i]}, "a point is not the time that was measured")
                                     \cup C24(\A i \in Gaps(d, s, rs) : Near(y[i], LineAt(s.proto, d.xs, Given(d, s, rs), y, d.xs[i])), "a missing point is not extrapolated from the measured ones"))
                     : k \in DOMAIN d.series} : l \in DOMAIN g.lines}
CheckTable(d, rs, g) ==
  IF g.what # "table" THEN {<<"C24", "a table is not produced">>}
  ELSE C24(g.path = (IF g.pdf = 1 THEN d.name \o ".tex" ELSE ""), "a table is saved under another name")
    \cup C24(g.cols = d.cols /\ Len(g.rows) = Len(d.xs) /\ \A i \in DOMAIN g.rows : g.rows[i].x = d.xs[i] /\ Len(g.rows[i].y) = Len(d.cols), "a table has other rows or columns than described")
    \cup (IF g.cols # d.cols \/ Len(g.rows) # Len(d.xs) \/ \E i \in DOMAIN g.rows : Len(g.rows[i].y) # Len(d.cols) THEN {}
          ELSE C24(\A i \in DOMAIN d.xs, k \in DOMAIN d.cols :
                     g.rows[i].y[k] \in (IF Cell(d, rs, i, d.cols[k]) = {} THEN {Odd} ELSE {Shown(t) : t \in Cell(d, rs, i, d.cols[k])}), "a cell is not the time that was measured"))
(* The play-store example printed with figure2: how many times faster than the baseline for 3 10^9,   *)
(* 3 10^11 and 3 10^11 queries and 1, 1 and 100 times the usual noise, over 2500000 rows. Assumes    *)
(* 10^7 queries for the cost per query, 1000 c for the baseline, and 300 k ms for the noise of x1     *)
(* times 2500000 rows: (yb / 1000 c) q / (300 k few / x1 + y2 q / 10^7).                              *)
Play(d, rs, j) ==
  LET i == CHOOSE i \in DOMAIN d.xs : d.xs[i] = 2500000
      n == Part(Noises(d, rs))  p == BaseOf(d, rs, i)
      a == d.roots[i]  b == d.roots[BaseRef(d, rs, i)]
      k == DpT(Noises(d, rs)) \div 300  x1 == n[1].table \div 2500000  c == p[1].queries \div 1000
      f == IF j = 2 THEN 100 ELSE 1
  IN (10000 * f * BaseT(d, rs, i) * x1 * a) \div (c * b * (k + f * x1 * DpT(Reals(d, rs))))
CheckOne(d, rs, g) == IF d.type = "table" THEN CheckTable(d, rs, g) ELSE CheckFigure(d, rs, g)
Upto(r) == IF \E i \in DOMAIN r.ask : Refused(r.descs[r.ask[i]], r.rs)
           THEN (CHOOSE i \in DOMAIN r.ask : Refused(r.descs[r.ask[i]], r.rs) /\ \A j \in 1..(i - 1) : ~Refused(r.descs[r.ask[j]], r.rs)) - 1
           ELSE Len(r.ask)
CheckAsked(r) ==
  LET n == Upto(r) IN
  C24((r.ok = 1) = (n = Len(r.ask)), IF r.ok = 1 THEN "a figure is drawn although a measurement is missing or a report is unclear" ELSE "results that suffice are refused")
  \cup C24(Len(r.got) <= n, "a figure is drawn although a measurement is missing or a report is unclear")
  \cup (IF Len(r.got) < n THEN {<<"C24", "a figure is missing">>} ELSE {})
  \cup UNION {CheckOne(r.descs[r.ask[i]], r.rs, r.got[i]) : i \in DOMAIN r.got \cap 1..n}
\* all descriptions, in any order: every figure drawn belongs to one of them
Of(r, g) == {i \in DOMAIN r.descs : r.descs[i].name = g.name}
CheckAll(r) ==
  LET bad == \E i \in DOMAIN r.descs : Refused(r.descs[i], r.rs) IN
  C24((r.ok = 1) = ~bad, IF r.ok = 1 THEN "a figure is drawn although a measurement is missing or a report is unclear" ELSE "results that suffice are refused")
  \cup (IF bad THEN {} ELSE C24(Len(r.got) = Len(r.descs) /\ \A i \in DOMAIN r.descs : \E j \in DOMAIN r.got : i \in Of(r, r.got[j]), "a figure is missing"))
  \cup UNION {IF Of(r, r.got[j]) = {} THEN {<<"C24", "a figure nobody described">>}
              ELSE LET d == r.descs[CHOOSE i \in Of(r, r.got[j]) : TRUE] IN
                   IF Refused(d, r.rs) THEN {<<"C24", "a figure is drawn although a measurement is missing or a report is unclear">>} ELSE CheckOne(d, r.rs, r.got[j])
              : j \in DOMAIN r.got}
(* The shipped descriptions with the shipped experiments or measurements; values are opaque here. points: *)
(* label, value, measured times of that value (opaque texts; none: to be extrapolated), text shown.       *)
\* what is run under a name is what the name says
NamedRight(x) == x.stated = x.is /\ x.total \div x.par = x.each /\ x.roles = x.needs
CheckShipped(r) ==
  C24(\A i \in DOMAIN r.named : NamedRight(r.named[i]), "a shipped experiment is not the one its name describes") \cup
  C24(r.ok = 1, "a shipped description cannot be drawn from the shipped " \o r.of)
  \cup (IF r.ok = 1 THEN C24(\A i \in DOMAIN r.points : LET p == r.points[i] IN IF p.measured = <<>> THEN p.shown # "" ELSE \E j \in DOMAIN p.measured : p.measured[j] = p.shown,
           "a point of a shipped figure is not the time that was measured") ELSE {})
\* reports of our own program: every server of the first party states its times once, the others and the clients do not matter
Stated(rs) == \A i \in DOMAIN rs : \A p \in DOMAIN rs[i].files : LET f == rs[i].files[p] IN
                f.role = "party" /\ f.party = 0 => Len(f.on) = 1 /\ Len(f.off) = (IF rs[i].mode = "all" THEN 1 ELSE 0)
CheckLive(r) == C24(\A i \in DOMAIN r.rs : r.rs[i].ran = 1, "an experiment fails")
                \cup C24(Stated(r.rs), "a report of the program does not state its times exactly once") \cup CheckAsked(r)
Check(r) == CASE r.t = "shipped" -> CheckShipped(r)
              [] r.t = "live" -> CheckLive(r)
              [] r.t = "play" -> C24(r.ok = 1 /\ Len(r.values) = 3 /\ \A j \in 1..3 : Near(r.values[j], Play(r.descs[1], r.rs, j)), "the speedup of the play-store example does not follow from the measured costs")
              [] OTHER -> IF r.all = 1 THEN CheckAll(r) ELSE CheckAsked(r)
=============================================================================
