----------------------------- MODULE GenGorilla -----------------------------
(* Writes series as streams of the documented layout, choosing among the ways Gorilla allows.                           *)
EXTENDS Gorilla, Json, IOUtils
Real == <<8, 16, 32>>
VARIABLES i, k, st, bits, out
vars == <<i, k, st, bits, out>>
Series == ndJsonDeserialize(IOEnv.SERIES)
S == Series[i].pts
Byte == [x \in 0..255 |-> ToBits(x, 8)]
BitsOf(bytes) == FlattenSeq([x \in 1..Len(bytes) |-> Byte[bytes[x]]])
Bytes(b) ==
    LET unused == 8 * ((Len(b) + 7) \div 8) - Len(b)
        full == b \o Zeros(unused)
    IN [x \in 1..Len(full) \div 8 |-> ToInt(SubSeq(full, 8 * x - 7, 8 * x))] \o <<unused, 1>>
Init == i = 1 /\ k = 1 /\ st = Start /\ bits = <<>> /\ out = <<>>
\* mostly the usual codes
Sample ==
    /\ i <= Len(Series) /\ k <= Len(S)
    /\ LET ways == Ways(st, BitsOf(S[k][1]), BitsOf(S[k][2]))
           short == {w \in ways : \A x \in ways : Len(w.bits) <= Len(x.bits)}
       IN \E w \in {RandomElement(IF RandomElement(1..3) = 1 THEN ways ELSE short)} :
          bits' = bits \o w.bits /\ st' = w.st
    /\ k' = k + 1 /\ UNCHANGED <<i, out>>
Finish ==
    /\ i <= Len(Series) /\ k > Len(S)
    /\ out' = Append(out, [id |-> Series[i].id, pts |-> S, bytes |-> Bytes(bits)])
    /\ i' = i + 1 /\ k' = 1 /\ st' = Start /\ bits' = <<>>
    /\ i < Len(Series) \/ ndJsonSerialize(IOEnv.STREAMS, out')
Next == Sample \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
