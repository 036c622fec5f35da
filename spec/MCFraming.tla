----------------------------- MODULE MCFraming -----------------------------
(* All interleavings of buffered writes, transfers of arbitrary pieces and  *)
(* bounded reads for one stream carrying two kinds of messages in turn:     *)
(* N1 messages of size U1, then N2 of size U2 (the real sockets share one   *)
(* physical buffer between message kinds).                                  *)
EXTENDS Framing
CONSTANTS U1, U2, N1, N2, Room  \* Room: bytes of buffer, as in BUFFER_SIZE
VARIABLES pushed,   \* messages handed to the sender
          wbuf,     \* buffered, not written
          wire,     \* written, not read
          partial,  \* bytes of an incomplete message kept by the reader
          got,      \* messages returned
          asked, taken  \* last bound, and bytes taken in total
vars == <<pushed, wbuf, wire, partial, got, asked, taken>>
N == N1 + N2
U(i) == IF i <= N1 THEN U1 ELSE U2
Cap(u) == Room \div u
Total(i) == IF i <= N1 THEN i * U1 ELSE N1 * U1 + (i - N1) * U2
Init == pushed = 0 /\ wbuf = <<>> /\ wire = <<>> /\ partial = <<>> /\ got = <<>> /\ asked = 0 /\ taken = 0
Push == /\ pushed < N
        /\ (pushed = N1) => wbuf = <<>>  \* the phases are separated by a flush
        /\ pushed' = pushed + 1
        /\ LET u == U(pushed + 1)
               b == wbuf \o Bytes(pushed + 1, u)
           IN IF Len(b) = Cap(u) * u THEN wire' = wire \o b /\ wbuf' = <<>>
              ELSE wbuf' = b /\ UNCHANGED wire
        /\ UNCHANGED <<partial, got, asked, taken>>
Flush == wbuf # <<>> /\ wire' = wire \o wbuf /\ wbuf' = <<>> /\ UNCHANGED <<pushed, partial, got, asked, taken>>
Read(n, c) ==
  LET i == Len(got) + 1
      u == U(i)
      lim == ReadLimit(n, u, Cap(u), Len(partial))
      b == partial \o SubSeq(wire, 1, c)
      k == Len(b) \div u
  IN /\ c >= 1 /\ c <= lim /\ c <= Len(wire)
     /\ wire' = SubSeq(wire, c + 1, Len(wire))
     /\ got' = got \o [j \in 1..k |-> SubSeq(b, (j - 1) * u + 1, j * u)]
     /\ partial' = SubSeq(b, k * u + 1, Len(b))
     /\ asked' = n /\ taken' = taken + c
     /\ UNCHANGED <<pushed, wbuf>>
PhaseLeft == LET d == Len(got) IN IF d < N1 THEN N1 - d ELSE N - d
AnyRead == Len(got) < N /\ \E n \in 1..PhaseLeft : \E c \in 1..Len(wire) : Read(n, c)
Next == Push \/ Flush \/ AnyRead \/ (Len(got) = N /\ UNCHANGED vars)
Fair == WF_vars(Push) /\ WF_vars(Flush) /\ WF_vars(AnyRead)
Spec == Init /\ [][Next]_vars /\ Fair
Exact == \A i \in DOMAIN got : got[i] = Bytes(i, U(i))
NoOverRead == taken <= Total(N1) \/ Len(got) >= N1
Once == Concat(got) \o partial \o wire \o wbuf = Concat([i \in 1..pushed |-> Bytes(i, U(i))])
Delivered == <>(Len(got) = N)
=============================================================================
