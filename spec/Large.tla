-------------------------------- MODULE Large --------------------------------
(* One party (the first, all its servers) with a batch too large to be       *)
(* traced event by event. The record tallies what DPPIR's guards say about   *)
(* whole batches:                                                            *)
(*   announced  batch size announced by each server to the next party        *)
(*   cin, cout  ciphers received and sent; ckept: received ones among those  *)
(*              sent; cfresh: others; opens: of these, well formed; ids,     *)
(*              tags, pres, shrs: how many different ciphers, identifiers    *)
(*              (per later party), masks and shares                          *)
(*   qin, qout  queries; missing: received but not passed on; unknown: sent, *)
(*              but neither received nor for a row; hist: <<n, rows with n>> *)
(*   due, right responses due to the predecessors, and correct ones          *)
EXTENDS Comp
V(ok, prop, what) == IF ok THEN {} ELSE {<<prop, what>>}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
CheckLast(r) ==
  UNION {V(r.fail = 0 /\ r.hang = "" /\ r.exits = r.S, p, "a role fails or does not finish on a large batch")
         \cup V(r.due = Sum(r.q) /\ r.answers = r.due /\ r.right = r.due, p, "the last party answers wrongly in a large batch") : p \in {"C05", "C21"}}
CheckLarge(r) ==
  LET n == r.db * r.noise
      total == Sum(r.q) + n
      all == {"C03", "C04", "C05", "C09", "C17", "C21"}
      size == r.S
  IN UNION {V(r.fail = 0 /\ r.hang = "" /\ r.exits = r.S, p, "a role fails or does not finish on a large batch") : p \in all}
     \cup V(Sum(r.announced) = total, "C03", "a large batch is announced with the wrong size")
     \cup V(\A i \in 1..size : Abs(r.announced[i] - total \div size) <= 1, "C03", "a large batch is not split evenly")
     \cup V(r.hist = <<<<r.noise, r.db>>>>, "C03", "not every row gets its noise in a large batch")
     \cup V(r.hist = <<<<r.noise, r.db>>>>, "C17", "not every row of a large database gets its noise")
     \cup V(r.qin = Sum(r.q) /\ r.qout = total /\ r.missing = 0 /\ r.unknown = 0, "C04", "queries are lost, altered or invented in a large batch")
     \cup V(r.answers = Sum(r.q) /\ r.right = r.due, "C05", "wrong responses in a large batch")
     \cup V(r.missing = 0 /\ r.right = r.due, "C21", "a query of a large batch is not processed with its secret")
     \cup (IF r.stage = "online" THEN {}
           ELSE V(r.cin = Sum(r.q) /\ r.cout = total /\ r.ckept = r.cin, "C04", "ciphers are lost or altered in a large batch")
                \cup V(r.cfresh = n, "C03", "wrong amount of noise ciphers in a large batch")
                \cup V(r.opens = n, "C09", "a noise cipher cannot be opened")
                \cup V(\A i \in DOMAIN r.tags : r.tags[i] = total, "C09", "two secrets have the same identifier in a large batch")
                \cup V(r.ids = n /\ r.pres = n * (r.P - 1) /\ r.shrs = n * (r.P - 1), "C09", "noise secrets are not fresh in a large batch"))
Check(r) == IF r.t = "last" THEN CheckLast(r) ELSE CheckLarge(r)
=============================================================================
