---------------------------- MODULE TraceGorilla ----------------------------
(* Checks what the real compactor wrote against the layout in Gorilla, sample by sample, and what the real decompactor   *)
(* read against the samples.  Numbers are recorded as eight bytes.                                                       *)
EXTENDS Gorilla, Json, IOUtils

Real == <<8, 16, 32>>
VARIABLES i, k, st, pos, bad, stream
vars == <<i, k, st, pos, bad, stream>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[i]

Byte == [x \in 0..255 |-> ToBits(x, 8)]
BitsOf(bytes) == FlattenSeq([x \in 1..Len(bytes) |-> Byte[bytes[x]]])
\* the stream without the number of unused bits at its end and the tag
Stream == LET n == Len(E.bytes)
              b == BitsOf(SubSeq(E.bytes, 1, n - 2))
          IN SubSeq(b, 1, Len(b) - E.bytes[n - 1])
Framed == LET n == Len(E.bytes) IN n >= 2 /\ E.bytes[n] = 1 /\ E.bytes[n - 1] <= 8 /\ 8 * (n - 2) >= E.bytes[n - 1]
N == Len(E.pts)
PtBits(p) == [t |-> BitsOf(p[1]), v |-> BitsOf(p[2])]

Report(kinds) == IF kinds = {} THEN TRUE ELSE PrintT(<<"WRONG", i, kinds>>)
If(b, kind) == IF b THEN {kind} ELSE {}

Init == i = 1 /\ k = -1 /\ st = Start /\ pos = 0 /\ bad = FALSE /\ stream = <<>> /\ TLCSet(1, 0)
Done == /\ i' = i + 1 /\ k' = -1 /\ st' = Start /\ pos' = 0 /\ bad' = FALSE /\ stream' = <<>>
        /\ TLCSet(1, i)
\* a stream the real compactor wrote
Readable == E.e = "series" /\ E.kind = "gorilla" /\ E.res = "ok" /\ Framed
Load == /\ i <= Len(Trace) /\ Readable /\ k = -1
        /\ k' = 0 /\ stream' = Stream /\ UNCHANGED <<i, st, pos, bad>>
Sample ==
    /\ i <= Len(Trace) /\ Readable /\ ~bad /\ 0 <= k /\ k < N
    /\ LET r == Read(stream, pos, st)
           p == PtBits(E.pts[k + 1])
       IN IF r.ok /\ r.st.t = p.t /\ r.st.v = p.v
          THEN k' = k + 1 /\ st' = r.st /\ pos' = r.pos /\ UNCHANGED <<i, bad, stream>>
          ELSE bad' = TRUE /\ UNCHANGED <<i, k, st, pos, stream>>
Series ==
    /\ i <= Len(Trace) /\ E.e = "series"
    /\ Readable => bad \/ k = N
    /\ Report(IF E.res # "ok" THEN {E.res}
              ELSE If(E.kind = "gorilla" /\ (~Framed \/ bad \/ (Framed /\ ~bad /\ pos # Len(stream))), "layout")
                   \cup If(E.back # E.pts, "lossy"))
    /\ Done
\* a stream written by the specification, read by the real decompactor
Decode ==
    /\ i <= Len(Trace) /\ E.e = "decode"
    /\ Report(IF E.res # "ok" THEN {E.res} ELSE If(E.back # E.pts, "unreadable"))
    /\ Done
\* a series too long to be read here: how many samples came back, and how many of them from the first on are right
Long ==
    /\ i <= Len(Trace) /\ E.e = "long"
    /\ Report(IF E.res # "ok" THEN {E.res} ELSE If(E.got # E.n \/ E.same # E.n, "lossy"))
    /\ Done
Other ==
    /\ i <= Len(Trace) /\ E.e \in {"hang", "died"}
    /\ Report({E.e})
    /\ Done
Next == Load \/ Sample \/ Series \/ Decode \/ Long \/ Other
Spec == Init /\ [][Next]_vars
View == <<i, k, bad>>
ReadAll == TLCGet(1) = Len(Trace)
=============================================================================
