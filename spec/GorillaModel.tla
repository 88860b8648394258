---------------------------- MODULE GorillaModel ----------------------------
(* With small numbers: whatever was written before, every way of writing the next sample is read back as that sample,   *)
(* takes exactly its bits, and leaves the reader where the writer is; so by induction streams of any length are lossless.*)
EXTENDS Gorilla, FiniteSets
CONSTANTS Values, Starts,
    Mistake     \* 0, or one of the mistakes that the invariants have to notice

Small == <<1, 2, 3>>
VARIABLES st, last
Number == {ToBits(x, W) : x \in 0..2 ^ W - 1}
Init == st = Start /\ last = [bits |-> <<>>, t |-> Zeros(W), v |-> Zeros(W), from |-> Start]
AtLeast(t) == {x \in Number : ToInt(x) >= ToInt(t)}
Next ==
    \E v \in {ToBits(x, W) : x \in Values} :
    \E t \in IF st.n = 0 THEN {ToBits(x, W) : x \in Starts} ELSE AtLeast(st.t) :
    \E w \in Ways(st, t, v) :
        \* mistake 1: a new window is not kept; mistake 2: nor is the delta; mistake 3: the last bit is lost
        /\ LET x == [w.st EXCEPT !.n = IF @ > 2 THEN 2 ELSE @]
           IN st' = CASE Mistake = 1 /\ st.n > 0 -> [x EXCEPT !.lead = st.lead, !.trail = st.trail]
                      [] Mistake = 2 /\ st.n > 0 -> [x EXCEPT !.d = st.d]
                      [] OTHER -> x
        /\ last' = [bits |-> IF Mistake = 3 THEN SubSeq(w.bits, 1, Len(w.bits) - 1) ELSE w.bits, t |-> t, v |-> v, from |-> st]
Spec == Init /\ [][Next]_<<st, last>>
Lossless ==
    last.bits # <<>> =>
        \A after \in {<<>>, <<0>>, <<1, 1, 1, 1, 1, 1>>} :
            LET r == Read(last.bits \o after, 0, last.from)
            IN r.ok /\ r.pos = Len(last.bits) /\ r.st.t = last.t /\ r.st.v = last.v
               /\ [r.st EXCEPT !.n = IF @ > 2 THEN 2 ELSE @] = st
\* the usual code of a delta of delta is a shortest one
ASSUME \A d \in Number : \A c \in DodCodes(d) : Len(DodCode(d)) <= Len(c)
\* a stream that ends within a sample is noticed
CutOff == last.bits # <<>> => \A n \in 0..Len(last.bits) - 1 : ~Read(SubSeq(last.bits, 1, n), 0, last.from).ok
=============================================================================
