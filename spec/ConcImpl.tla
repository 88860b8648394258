------------------------------ MODULE ConcImpl ------------------------------
(* How MonolithDb, Chunk and the stores coordinate: client threads that write and query, and the rotation thread, step  *)
(* by step between the locks (`current_chuck`, `secondary_chunks`, the mutex of every chunk; all prefer writers, as      *)
(* std::sync::RwLock does) and the accesses to the stores.  Checked: nothing is lost or seen twice, queries are          *)
(* linearizable, series and ids are one to one, and every thread gets to its end.                                        *)
(* `Fault` names deliberate mistakes in the protocol; the model has to find them (negative controls).                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS
    Programs,   \* set of programs; a program is a sequence (one per client) of sequences of operations
    Ticks,      \* number of rotations
    Size,       \* length of a chunk
    Fault,      \* "none", "early": queries release `current` before they take `secondary`, "nolock": writers do not take
                \* the mutex of the chunk, "order": rotation takes `secondary` first, "late": rotation appends after the swap
    GenFile, GenDepth

C == 0
S == -1
Wr(ls, pts) == [op |-> "w", ls |-> ls, pts |-> pts]
Qu == [op |-> "q", ls |-> "", pts |-> <<>>]
\* two chunks: times 0..4 and 5..9, in chunks of length 4
Two == {
    <<<<Wr("A", <<<<1, 11>>, <<2, 12>>>>)>>, <<Wr("A", <<<<2, 21>>, <<6, 22>>>>), Qu>>>>,
    <<<<Wr("A", <<<<1, 11>>>>), Qu>>, <<Wr("B", <<<<1, 21>>>>), Qu>>>>,
    <<<<Wr("A", <<<<1, 11>>>>), Wr("A", <<<<6, 12>>>>)>>, <<Qu, Qu>>>> }
Three == {
    <<<<Wr("A", <<<<1, 11>>>>)>>, <<Wr("A", <<<<2, 21>>>>)>>, <<Qu, Qu>>>>,
    <<<<Wr("A", <<<<1, 11>>>>)>>, <<Wr("B", <<<<2, 21>>>>)>>, <<Wr("A", <<<<6, 31>>>>), Qu>>>> }
Many == Two \cup Three \cup {
    <<<<Wr("A", <<<<1, 11>>, <<6, 12>>>>), Qu>>, <<Wr("B", <<<<1, 21>>, <<7, 22>>>>), Qu>>>>,
    <<<<Wr("A", <<<<1, 11>>>>), Wr("B", <<<<2, 12>>>>)>>, <<Wr("B", <<<<2, 21>>>>), Wr("A", <<<<1, 22>>>>)>>, <<Qu>>>>,
    <<<<Wr("A", <<<<4, 11>>, <<5, 12>>>>)>>, <<Qu, Wr("A", <<<<4, 21>>, <<5, 22>>>>)>>, <<Qu>>>>,
    <<<<Qu, Qu>>, <<Wr("B", <<<<6, 21>>>>), Qu>>, <<Wr("A", <<<<1, 31>>, <<6, 32>>>>)>>>> }

VARIABLES
    prog, th,        \* th[c]: state of a thread; client threads 1..n, rotation 0
    lk,              \* locks: name -> [r: holders, w: holders, q: waiting writers]
    cur, sec,        \* chunk numbers
    ch,              \* chunk -> [idx: label set -> id, rev: set of ids, next, data: id -> (time -> value), closed]
    abs,             \* the samples stored so far, as users see them: <<chunk, label set, time>> -> value
    ticks, due, hist
vars == <<prog, th, lk, cur, sec, ch, abs, ticks, due, hist>>
view == <<prog, th, lk, cur, sec, ch, abs, ticks, due>>

Clients == 1..Len(prog)
Threads == 0..Len(prog)
NewChunk == [idx |-> <<>>, rev |-> {}, next |-> 1, data |-> <<>>, closed |-> FALSE]
Start(k) == (k - 1) * (Size + 1)
InR(k, t) == Start(k) <= t /\ t <= Start(k) + Size
Locks == -1..Ticks + 1
Idle == [pc |-> "idle", n |-> 0, pts |-> <<>>, id |-> 0, old |-> <<>>, revs |-> {}, todo |-> <<>>, res |-> {}, snap |-> {}, k |-> 0]

Init ==
    /\ prog \in Programs
    /\ th = [c \in 0..Len(prog) |-> Idle]
    /\ lk = [l \in Locks |-> [r |-> {}, w |-> {}, q |-> {}]]
    /\ cur = 1 /\ sec = <<>>
    /\ ch = [k \in 1..Ticks + 1 |-> NewChunk]
    /\ abs = <<>>
    /\ ticks = 0 /\ due = 0 /\ hist = <<>>

\* ---- locks -----------------------------------------------------------------------------------------------------------
MayRead(l) == lk[l].w = {} /\ lk[l].q = {}
MayWrite(l) == lk[l].w = {} /\ lk[l].r = {}
GotRead(l, c) == [lk EXCEPT ![l].r = @ \cup {c}]
GotWrite(l, c) == [lk EXCEPT ![l].w = {c}, ![l].q = @ \ {c}]
Free(l, c) == [lk EXCEPT ![l].r = @ \ {c}, ![l].w = @ \ {c}]
FreeAll(ls, c) == [l \in Locks |-> IF l \in ls THEN [lk[l] EXCEPT !.r = @ \ {c}, !.w = @ \ {c}] ELSE lk[l]]
Hist(c, kind) == hist' = IF GenFile = "" THEN hist ELSE Append(hist, <<c, kind>>)

TakeRead(c, l) == MayRead(l) /\ lk' = GotRead(l, c) /\ Hist(c, 1)
\* a writer that cannot get in announces itself and keeps new readers out
Announce(c, at, l) ==
    /\ th[c].pc = at /\ ~MayWrite(l) /\ c \notin lk[l].q
    /\ lk' = [lk EXCEPT ![l].q = @ \cup {c}] /\ Hist(c, 1)
    /\ UNCHANGED <<prog, th, cur, sec, ch, abs, ticks, due>>
TakeWrite(c, l) == MayWrite(l) /\ lk' = GotWrite(l, c) /\ Hist(c, 1)
Go(c, pc) == th' = [th EXCEPT ![c].pc = pc]
K(k) == k

\* ---- clients ---------------------------------------------------------------------------------------------------------
Op(c) == prog[c][th[c].n]
At(c, pc) == th[c].pc = pc

Call(c) ==
    /\ At(c, "idle") /\ th[c].n < Len(prog[c])
    /\ LET o == prog[c][th[c].n + 1] IN
       th' = [th EXCEPT ![c] = [Idle EXCEPT !.n = th[c].n + 1, !.pc = IF o.op = "q" THEN "q1" ELSE "w1", !.pts = o.pts]]
    /\ Hist(c, 0) /\ UNCHANGED <<prog, lk, cur, sec, ch, abs, ticks, due>>

W1(c) == At(c, "w1") /\ TakeRead(c, C) /\ th' = [th EXCEPT ![c].pc = "w2", ![c].k = cur] /\ UNCHANGED <<prog, cur, sec, ch, abs, ticks, due>>
W2(c) ==
    /\ At(c, "w2")
    /\ LET pts == SelectSeq(th[c].pts, LAMBDA p : InR(th[c].k, p[1])) IN
       IF pts = <<>> THEN th' = [th EXCEPT ![c].pc = "idle"] /\ lk' = Free(C, c) /\ hist' = hist
       ELSE IF Fault = "nolock" THEN th' = [th EXCEPT ![c].pc = "w4", ![c].pts = pts] /\ hist' = hist /\ lk' = lk
       ELSE TakeWrite(c, K(th[c].k)) /\ th' = [th EXCEPT ![c].pc = "w4", ![c].pts = pts]
    /\ UNCHANGED <<prog, cur, sec, ch, abs, ticks, due>>
\* look the series up
W4(c) ==
    /\ At(c, "w4")
    /\ LET k == th[c].k  ls == Op(c).ls  known == ls \in DOMAIN ch[k].idx IN
       /\ ~ch[k].closed
       /\ th' = [th EXCEPT ![c].id = IF known THEN ch[k].idx[ls] ELSE ch[k].next, ![c].pc = IF known THEN "w7" ELSE "w5"]
       /\ ch' = IF known THEN ch ELSE [ch EXCEPT ![k].next = @ + 1]
    /\ Hist(c, 0) /\ UNCHANGED <<prog, lk, cur, sec, abs, ticks, due>>
\* create the index: read and extend the reverse index, then the mapping from the label set
W5(c) == At(c, "w5") /\ th' = [th EXCEPT ![c].revs = ch[th[c].k].rev, ![c].pc = "w6"] /\ Hist(c, 0) /\ UNCHANGED <<prog, lk, cur, sec, ch, abs, ticks, due>>
W6(c) ==
    /\ At(c, "w6") /\ Go(c, "w7")
    /\ ch' = [ch EXCEPT ![th[c].k].rev = th[c].revs \cup {th[c].id}, ![th[c].k].idx = (Op(c).ls :> th[c].id) @@ @]
    /\ Hist(c, 0) /\ UNCHANGED <<prog, lk, cur, sec, abs, ticks, due>>
\* read the stored series, then write it back with the sample
Data(k, id) == IF id \in DOMAIN ch[k].data THEN ch[k].data[id] ELSE <<>>
W7(c) == At(c, "w7") /\ th' = [th EXCEPT ![c].old = Data(th[c].k, th[c].id), ![c].pc = "w8"] /\ Hist(c, 0) /\ UNCHANGED <<prog, lk, cur, sec, ch, abs, ticks, due>>
W8(c) ==
    /\ At(c, "w8")
    /\ LET k == th[c].k  p == Head(th[c].pts) IN
       /\ ch' = [ch EXCEPT ![k].data = (th[c].id :> ((p[1] :> p[2]) @@ th[c].old)) @@ @]
       /\ abs' = (<<k, Op(c).ls, p[1]>> :> p[2]) @@ abs
       /\ th' = [th EXCEPT ![c].pts = Tail(@), ![c].pc = IF Len(th[c].pts) > 1 THEN "w2" ELSE "idle"]
       /\ lk' = IF Len(th[c].pts) > 1 THEN Free(K(k), c) ELSE FreeAll({K(k), C}, c)
    /\ Hist(c, 0) /\ UNCHANGED <<prog, cur, sec, ticks, due>>

Seen(k) == {<<ls, t, ch[k].data[ch[k].idx[ls]][t]>> : <<ls, t>> \in
                {x \in (DOMAIN ch[k].idx) \X (0..(Ticks + 1) * (Size + 1)) :
                    ch[k].idx[x[1]] \in ch[k].rev /\ x[2] \in DOMAIN Data(k, ch[k].idx[x[1]])}}

Range(s) == {s[j] : j \in DOMAIN s}
Q1(c) ==
    /\ At(c, "q1") /\ TakeRead(c, C)
    /\ th' = [th EXCEPT ![c].pc = IF Fault = "early" THEN "q1e" ELSE "q2", ![c].todo = <<cur>>]
    /\ UNCHANGED <<prog, cur, sec, ch, abs, ticks, due>>
Q2(c) ==
    /\ At(c, "q2") /\ TakeRead(c, S) /\ th' = [th EXCEPT ![c].pc = "q3", ![c].todo = @ \o sec]
    /\ UNCHANGED <<prog, cur, sec, ch, abs, ticks, due>>
\* with the mistake "early": answer from the current chunk, release it, then take the others
Q1e(c) ==
    /\ At(c, "q1e") /\ MayRead(K(Head(th[c].todo)))
    /\ th' = [th EXCEPT ![c].pc = "q2", ![c].todo = <<>>, ![c].res = @ \cup Seen(Head(th[c].todo)), ![c].snap = abs]
    /\ lk' = Free(C, c) /\ Hist(c, 1) /\ UNCHANGED <<prog, cur, sec, ch, abs, ticks, due>>
Q3(c) ==
    /\ At(c, "q3")
    /\ IF th[c].todo = <<>>
       THEN th' = [th EXCEPT ![c].pc = "idle"] /\ lk' = FreeAll({C, S}, c) /\ hist' = hist
       ELSE TakeRead(c, K(Head(th[c].todo))) /\ Go(c, "q4")
    /\ UNCHANGED <<prog, cur, sec, ch, abs, ticks, due>>
Q4(c) ==
    /\ At(c, "q4")
    /\ LET k == Head(th[c].todo) IN
       /\ th' = [th EXCEPT ![c].pc = "q3", ![c].todo = Tail(@), ![c].res = @ \cup Seen(k),
                           ![c].snap = IF k = cur THEN abs ELSE @]
       /\ lk' = Free(K(k), c)
    /\ Hist(c, 0) /\ UNCHANGED <<prog, cur, sec, ch, abs, ticks, due>>

\* ---- rotation --------------------------------------------------------------------------------------------------------
Tick == ticks < Ticks /\ ticks' = ticks + 1 /\ due' = due + 1 /\ Hist(-1, 0) /\ UNCHANGED <<prog, th, lk, cur, sec, ch, abs>>
R0 == At(0, "idle") /\ due > 0 /\ due' = due - 1 /\ Go(0, IF Fault = "order" THEN "r2" ELSE "r1") /\ Hist(0, 0) /\ UNCHANGED <<prog, lk, cur, sec, ch, abs, ticks>>
R1 == At(0, "r1") /\ TakeWrite(0, C) /\ Go(0, CASE Fault = "late" -> "r4" [] Fault = "order" -> "r3" [] OTHER -> "r2") /\ UNCHANGED <<prog, cur, sec, ch, abs, ticks, due>>
R2 == At(0, "r2") /\ TakeWrite(0, S) /\ Go(0, IF Fault = "order" THEN "r1" ELSE "r3") /\ UNCHANGED <<prog, cur, sec, ch, abs, ticks, due>>
R3 == At(0, "r3") /\ sec' = Append(sec, IF Fault = "late" THEN cur - 1 ELSE cur) /\ lk' = Free(S, 0) /\ Hist(0, 0)
      /\ Go(0, IF Fault = "late" THEN "idle" ELSE "r4") /\ UNCHANGED <<prog, cur, ch, abs, ticks, due>>
R4 == At(0, "r4") /\ TakeWrite(0, K(cur)) /\ Go(0, "r5") /\ UNCHANGED <<prog, cur, sec, ch, abs, ticks, due>>
R5 == /\ At(0, "r5") /\ ch' = [ch EXCEPT ![cur].closed = TRUE] /\ lk' = FreeAll({K(cur), C}, 0) /\ cur' = cur + 1
      /\ Go(0, IF Fault = "late" THEN "r2" ELSE "idle") /\ Hist(0, 0) /\ UNCHANGED <<prog, sec, abs, ticks, due>>

Finished == (\A c \in Clients : At(c, "idle") /\ th[c].n = Len(prog[c])) /\ At(0, "idle") /\ due = 0 /\ ticks = Ticks
Step(c) ==
    \/ Call(c) \/ W1(c) \/ W2(c) \/ W4(c) \/ W5(c) \/ W6(c) \/ W7(c) \/ W8(c)
    \/ Q1(c) \/ Q1e(c) \/ Q2(c) \/ Q3(c) \/ Q4(c)
    \/ th[c].pc = "w2" /\ (\E j \in 1..Len(th[c].pts) : InR(th[c].k, th[c].pts[j][1])) /\ Fault # "nolock" /\ Announce(c, "w2", K(th[c].k))
Rot == R0 \/ R1 \/ R2 \/ R3 \/ R4 \/ R5 \/ Announce(0, "r1", C) \/ Announce(0, "r2", S) \/ Announce(0, "r4", K(cur))
Next == (\E c \in Clients : Step(c)) \/ Rot \/ Tick \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(Rot) /\ \A c \in 1..3 : WF_vars(c \in Clients /\ Step(c))

\* ---- what has to hold ------------------------------------------------------------------------------------------------
AbsSet(a) == {<<x[2], x[3], a[x]>> : x \in DOMAIN a}
\* a query that is about to return saw the samples of one moment during its execution, each once
Linearizable == \A c \in Clients : At(c, "q3") /\ th[c].todo = <<>> => th[c].res = AbsSet(th[c].snap)
NothingLost == Finished => UNION {Seen(k) : k \in {cur} \cup Range(sec)} = AbsSet(abs)
OneToOne == \A k \in 1..Ticks + 1 : \A x, y \in DOMAIN ch[k].idx : ch[k].idx[x] = ch[k].idx[y] => x = y
InPlace == \A k \in 1..Ticks + 1 : \A id \in DOMAIN ch[k].data : \A t \in DOMAIN ch[k].data[id] : InR(k, t)
Once == \A j \in 1..Len(sec) : sec[j] # cur \/ At(0, "r4") \/ At(0, "r5")
Ends == <>Finished

\* behaviours for the harness
Emit == (Finished /\ GenFile # "") => CSVWrite("%1$s", <<ToJson([prog |-> prog, guide |-> hist])>>, GenFile)
=============================================================================
