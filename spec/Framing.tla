------------------------------ MODULE Framing ------------------------------
(***************************************************************************)
(* Messages of a fixed size over a byte stream. A sender buffers up to Cap  *)
(* messages and writes the buffer out when it is full or flushed; a bounded *)
(* read Read(n) takes whatever the transport has ready, but never more      *)
(* bytes than complete the n messages asked for, keeps the incomplete rest  *)
(* and returns the complete messages. Bytes are <<message, position>>.      *)
(* Check(r) judges what the real socket objects did (lab/framing.h).        *)
(***************************************************************************)
EXTENDS Comp
V(ok, prop, what) == IF ok THEN {} ELSE {<<prop, what>>}
Min(a, b) == IF a < b THEN a ELSE b
\* the bytes of message i of a stream with message size u
Bytes(i, u) == [p \in 1..u |-> <<i, p>>]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
\* how many bytes a read of up to n messages may take
ReadLimit(n, u, cap, left) == Min(cap * u, n * u) - left
RECURSIVE SumTo(_, _, _)
SumTo(s, f, i) == IF i = 0 THEN 0 ELSE s[i][f] + SumTo(s, f, i - 1)

\* ---- verdicts on records -----------------------------------------------
\* rd: reads[i] = <<n, messages returned, intact and in order, bytes taken from the stream so far>>
RdBad(r) ==
  LET rs == r.reads
      RECURSIVE Go(_, _)
      Go(i, done) ==
        IF i > Len(rs) THEN V(done = r.total, "C11", "messages that were sent are never delivered")
        ELSE LET x == rs[i]
             IN V(x[2] <= x[1], "C11", "a read returns more messages than asked for")
                \cup V(x[3] = 1, "C11", "a message is delivered altered, twice or out of order")
                \cup V(x[4] <= (done + x[1]) * r.unit, "C11", "a read consumes bytes of messages beyond those asked for")
                \cup Go(i + 1, done + x[2])
  IN Go(1, 0) \cup V(r.left = 0, "C11", "bytes of the stream are never read")
\* wr: obs[i] = <<messages handed over, flushed, received bytes are a prefix of theirs, bytes received>>
WrBad(r) ==
  UNION {LET x == r.obs[i]
         IN V(x[3] = 1, "C11", "the bytes sent are not those of the messages handed over, each once and in order")
            \cup V(x[2] = 1 => x[4] = x[1] * r.unit, "C11", "a flush does not send every buffered message exactly once")
            \cup V(x[4] <= x[1] * r.unit, "C11", "more bytes are sent than were handed over")
         : i \in 1..Len(r.obs)}
  \cup V(r.obs # <<>> /\ r.obs[Len(r.obs)][1] = r.total, "C11", "not all messages could be handed over")
Check(r) == CASE r.t = "rd" -> RdBad(r)
              [] r.t = "wr" -> WrBad(r)
=============================================================================
