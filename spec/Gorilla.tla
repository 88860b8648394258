------------------------------ MODULE Gorilla ------------------------------
(* The layout of a compressed series: a stream of bits, read sample by sample.                                          *)
(*                                                                                                                     *)
(* Numbers are sequences of W bits, the most significant one first, and all arithmetic is modulo 2^W.                   *)
(*   first sample    timestamp (W), value (W)                                                                           *)
(*   second sample   difference to the first timestamp (W), value code                                                  *)
(*   others          code of the change of that difference ("delta of delta"), value code                               *)
(* Code of a delta of delta: 0 if it is zero; k ones, a zero and Classes[k] bits for the k-th class; a one more than     *)
(* there are classes, without a zero, and W bits.  The n bits of a class stand for -(2^(n-1) - 1) .. 2^(n-1).            *)
(* Value code: 0 if the value is the one before; 10 and the bits of the window where it differs (exclusive or), the      *)
(* window being the one of the last 11; 11, the number of equal leading bits (LB), the length of the window (SB, 0 for   *)
(* W) and the bits of the window.  Before the first 11 the window is everything.                                         *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

CONSTANTS W, Classes, LB, SB

Zeros(n) == [k \in 1..n |-> 0]
Low(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
\* sum and difference modulo 2^W
AddCarry(a, b, c) ==
    FoldLeft(LAMBDA acc, k : LET x == a[W + 1 - k] + b[W + 1 - k] + acc.c
                             IN [c |-> x \div 2, s |-> <<x % 2>> \o acc.s], [c |-> c, s |-> <<>>], [k \in 1..W |-> k]).s
Add(a, b) == AddCarry(a, b, 0)
Not(a) == [k \in 1..W |-> 1 - a[k]]
Sub(a, b) == AddCarry(a, Not(b), 1)
Xor(a, b) == [k \in 1..W |-> IF a[k] = b[k] THEN 0 ELSE 1]
\* small numbers
ToInt(s) == FoldLeft(LAMBDA acc, b : 2 * acc + b, 0, s)
ToBits(x, n) == [k \in 1..n |-> (x \div (2 ^ (n - k))) % 2]

-----------------------------------------------------------------------------
(* Delta of delta *)
\* the bits of a class as a number: 10..0 is the positive one
Extend(s) ==
    LET n == Len(s)
        top == s[1] = 1 /\ \E k \in 2..n : s[k] = 1
    IN [k \in 1..W |-> IF k > W - n THEN s[k - (W - n)] ELSE IF top THEN 1 ELSE 0]
Fits(d, k) == Extend(Low(d, Classes[k])) = d
ClassCode(k) == [x \in 1..k |-> 1] \o <<0>>
WideCode == [x \in 1..Len(Classes) + 1 |-> 1]
IsZero(d) == \A k \in 1..W : d[k] = 0
\* all codes of a delta of delta; the usual one is the shortest
DodCodes(d) ==
    (IF IsZero(d) THEN {<<0>>} ELSE {})
    \cup {ClassCode(k) \o Low(d, Classes[k]) : k \in {x \in 1..Len(Classes) : Fits(d, x)}}
    \cup {WideCode \o d}
DodCode(d) ==
    IF IsZero(d) THEN <<0>>
    ELSE IF \E k \in 1..Len(Classes) : Fits(d, k)
    THEN LET k == CHOOSE x \in 1..Len(Classes) : Fits(d, x) /\ \A y \in 1..x - 1 : ~Fits(d, y)
         IN ClassCode(k) \o Low(d, Classes[k])
    ELSE WideCode \o d

(* Values: [code, lead, trail], the window afterwards *)
Lead(x) == CHOOSE n \in 0..W - 1 : x[n + 1] = 1 /\ \A k \in 1..n : x[k] = 0
Trail(x) == CHOOSE n \in 0..W - 1 : x[W - n] = 1 /\ \A k \in W - n + 1..W : x[k] = 0
Min2(a, b) == IF a < b THEN a ELSE b
NewWindow(x) ==
    LET l == Min2(Lead(x), 2 ^ LB - 1)
        t == Trail(x)
        n == W - l - t
    IN [code |-> <<1, 1>> \o ToBits(l, LB) \o ToBits(IF n = 2 ^ SB THEN 0 ELSE n, SB) \o SubSeq(x, l + 1, W - t), lead |-> l, trail |-> t]
OldWindow(x, l, t) == [code |-> <<1, 0>> \o SubSeq(x, l + 1, W - t), lead |-> l, trail |-> t]
InWindow(x, l, t) == Min2(Lead(x), 2 ^ LB - 1) >= l /\ Trail(x) >= t
ValueCodes(x, l, t, first) ==
    IF IsZero(x) THEN {[code |-> <<0>>, lead |-> l, trail |-> t]}
    ELSE {NewWindow(x)} \cup (IF InWindow(x, l, t) /\ ~first THEN {OldWindow(x, l, t)} ELSE {})

-----------------------------------------------------------------------------
(* Writing: a state [n, t, v, d, lead, trail], n samples so far *)
Start == [n |-> 0, t |-> Zeros(W), v |-> Zeros(W), d |-> Zeros(W), lead |-> 0, trail |-> 0]
\* all ways to write sample <<t, v>>: pairs of bits and state
Ways(st, t, v) ==
    LET delta == Sub(t, st.t)
        next(w) == [n |-> st.n + 1, t |-> t, v |-> v, d |-> delta, lead |-> w.lead, trail |-> w.trail]
        values == ValueCodes(Xor(v, st.v), st.lead, st.trail, st.n = 1)
    IN CASE st.n = 0 -> {[bits |-> t \o v, st |-> [Start EXCEPT !.n = 1, !.t = t, !.v = v]]}
         [] st.n = 1 -> {[bits |-> delta \o w.code, st |-> next(w)] : w \in values}
         [] OTHER -> {[bits |-> c \o w.code, st |-> next(w)] : c \in DodCodes(Sub(delta, st.d)), w \in values}

(* Reading: [ok, pos, st] after the next sample, from bit `pos` + 1 on *)
Broken == [ok |-> FALSE, pos |-> 0, st |-> Start]
Bits(b, pos, n) == SubSeq(b, pos + 1, pos + n)
Ones(b, pos, most) ==   \* number of ones from pos on, at most `most`
    CHOOSE n \in 0..most : (\A k \in 1..n : pos + k <= Len(b) /\ b[pos + k] = 1)
                           /\ (n = most \/ pos + n + 1 > Len(b) \/ b[pos + n + 1] = 0)
ReadValue(b, pos, st, t, d) ==
    LET done(p, x, l, tr) == IF p > Len(b) THEN Broken
                             ELSE [ok |-> TRUE, pos |-> p,
                                   st |-> [n |-> st.n + 1, t |-> t, v |-> Xor(st.v, Zeros(l) \o x \o Zeros(tr)), d |-> d,
                                           lead |-> l, trail |-> tr]]
        keep == [ok |-> TRUE, pos |-> pos + 1, st |-> [st EXCEPT !.n = @ + 1, !.t = t, !.d = d]]
    IN IF pos + 1 > Len(b) THEN Broken
       ELSE IF b[pos + 1] = 0 THEN keep
       ELSE IF pos + 2 > Len(b) THEN Broken
       ELSE IF b[pos + 2] = 0
       THEN LET n == W - st.lead - st.trail IN
            IF pos + 2 + n > Len(b) THEN Broken ELSE done(pos + 2 + n, Bits(b, pos + 2, n), st.lead, st.trail)
       ELSE IF pos + 2 + LB + SB > Len(b) THEN Broken
       ELSE LET l == ToInt(Bits(b, pos + 2, LB))
                s == ToInt(Bits(b, pos + 2 + LB, SB))
                n == IF s = 0 THEN 2 ^ SB ELSE s
                p == pos + 2 + LB + SB
            IN IF l + n > W \/ p + n > Len(b) THEN Broken ELSE done(p + n, Bits(b, p, n), l, W - l - n)
ReadDod(b, pos) ==   \* [ok, pos, dod]
    LET k == Ones(b, pos, Len(Classes) + 1)
        n == IF k = 0 THEN 0 ELSE IF k > Len(Classes) THEN W ELSE Classes[k]
        p == IF k > Len(Classes) THEN pos + k ELSE pos + k + 1
    IN IF p + n > Len(b) THEN [ok |-> FALSE, pos |-> 0, dod |-> Zeros(W)]
       ELSE [ok |-> TRUE, pos |-> p + n,
             dod |-> IF k = 0 THEN Zeros(W) ELSE IF n = W THEN Bits(b, p, W) ELSE Extend(Bits(b, p, n))]
Read(b, pos, st) ==
    IF st.n = 0
    THEN IF pos + 2 * W > Len(b) THEN Broken
         ELSE [ok |-> TRUE, pos |-> pos + 2 * W, st |-> [Start EXCEPT !.n = 1, !.t = Bits(b, pos, W), !.v = Bits(b, pos + W, W)]]
    ELSE IF st.n = 1
    THEN IF pos + W > Len(b) THEN Broken
         ELSE LET d == Bits(b, pos, W) IN ReadValue(b, pos + W, st, Add(st.t, d), d)
    ELSE LET r == ReadDod(b, pos)
             d == Add(st.d, r.dod)
         IN IF ~r.ok THEN Broken ELSE ReadValue(b, r.pos, st, Add(st.t, d), d)
=============================================================================
