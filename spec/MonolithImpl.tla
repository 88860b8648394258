---------------------------- MODULE MonolithImpl ----------------------------
(* The database as it is built: per chunk an index with three mappings, an id generator, and per id a byte string of   *)
(* samples; queries walk the open chunk, then the rotated ones from new to old, merge per label set, sort and remove   *)
(* duplicates.  `abs` is the user's view (Monolith), stepped along; TLC checks that every query is answered as the     *)
(* user's view demands, and the structural invariants the algorithms rely on.                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, CSV

CONSTANTS Names, LValues, Vals, Deltas, Size, MaxChunks, MaxWrites, MaxLabels, Kind, MaxRestarts, GenFile, GenDepth,
    Mistake     \* "none", or what TLC has to find: "edge" "oldest" "twice" "first" "open" "reuse"

VARIABLES
    \* user's view
    chunks, up, clock, deadline, size, store, index,
    \* implementation
    cur,        \* open chunk
    sec,        \* rotated chunks, ascending start
    nw, nr,     \* number of writes and restarts so far (bounds)
    hist        \* script of the behaviour (generation only)

A == INSTANCE Monolith
avars == <<chunks, up, clock, deadline, size, store, index>>
ivars == <<cur, sec, nw, nr, hist>>

Labels == Names \X LValues
LabelSets == {ls \in SUBSET Labels : ls # {} /\ Cardinality(ls) <= MaxLabels
                                     /\ \A a, b \in ls : a[1] = b[1] => a = b}
Matchers == {m \in SUBSET Labels : m # {} /\ Cardinality(m) <= MaxLabels}

-----------------------------------------------------------------------------
(* index (src/indexer) *)
EmptyIndex == [ids |-> <<>>, meta |-> <<>>, rev |-> <<>>]
IdOf(ix, ls) == IF ls \in DOMAIN ix.ids THEN ix.ids[ls] ELSE 0
CreateIndex(ix, ls, id) ==
    [ids |-> (ls :> id) @@ ix.ids,
     meta |-> (id :> ls) @@ ix.meta,
     rev |-> [l \in DOMAIN ix.rev \cup ls |->
                 IF l \in ls THEN Append(IF l \in DOMAIN ix.rev THEN ix.rev[l] ELSE <<>>, id) ELSE ix.rev[l]]]

\* order_intersect: merge of two ascending sequences
RECURSIVE OrderIntersect(_, _)
OrderIntersect(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE IF Head(a) = Head(b) THEN <<Head(a)>> \o OrderIntersect(Tail(a), Tail(b))
    ELSE IF Head(a) > Head(b) THEN OrderIntersect(a, Tail(b))
    ELSE OrderIntersect(Tail(a), b)
\* divide and conquer over any number of lists
RECURSIVE IntersectAll(_)
IntersectAll(ts) ==
    LET n == Len(ts) IN
    CASE n = 0 -> <<>>
      [] n = 1 -> ts[1]
      [] n = 2 -> OrderIntersect(ts[1], ts[2])
      [] n > 2 /\ n % 2 = 1 -> OrderIntersect(IntersectAll(SubSeq(ts, 1, n - 1)), ts[n])
      [] OTHER -> IntersectAll(<<IntersectAll(SubSeq(ts, 1, n \div 2)), IntersectAll(SubSeq(ts, n \div 2 + 1, n))>>)
Lookup(ix, m) ==
    IF \E l \in m : l \notin DOMAIN ix.rev THEN <<>>
    ELSE LET ls == SetToSeq(m) IN
         IF Mistake = "first" THEN ix.rev[ls[1]] ELSE IntersectAll([i \in 1..Len(ls) |-> ix.rev[ls[i]]])

-----------------------------------------------------------------------------
(* storage (src/storage): ascending samples per id *)
Get(st, id) == IF id \in DOMAIN st THEN st[id] ELSE <<>>
Upsert(s, p) == SelectSeq(s, LAMBDA x : x[1] < p[1]) \o <<p>> \o SelectSeq(s, LAMBDA x : x[1] > p[1])
StoreOk(st, id, p) == Kind = "tikv" => (Get(st, id) = <<>> \/ Last(Get(st, id))[1] < p[1])
StoreWrite(st, id, p) == (id :> Upsert(Get(st, id), p)) @@ st
Trim(s, a, b) == SelectSeq(s, LAMBDA x : a <= x[1] /\ x[1] <= b)

-----------------------------------------------------------------------------
(* chunk (src/chunk) *)
EmptyChunk(s) == [start |-> s, end |-> s + Size, closed |-> FALSE, next |-> 1, ix |-> EmptyIndex, st |-> <<>>]
Insert(c, ls, p) ==
    LET id == IdOf(c.ix, ls)
        nid == IF id = 0 THEN c.next ELSE id
        c1 == IF id = 0 THEN [c EXCEPT !.next = @ + 1, !.ix = CreateIndex(c.ix, ls, nid)] ELSE c
    IN IF StoreOk(c1.st, nid, p) THEN [c1 EXCEPT !.st = StoreWrite(@, nid, p)] ELSE c1
InsertOk(c, ls, p) ==
    LET id == IdOf(c.ix, ls) IN c.start <= p[1] /\ p[1] <= c.end /\ ~c.closed /\ (id = 0 \/ StoreOk(c.st, id, p))
Overlaps(c, a, b) == IF Mistake = "edge" THEN ~(c.start > b \/ c.end <= a) ELSE ~(c.start > b \/ c.end < a)
\* the result of a chunk query: sequence of <<label set, samples>>
ChunkQuery(c, m, a, b) ==
    LET ids == Lookup(c.ix, m)
        rows == [i \in 1..Len(ids) |-> <<c.ix.meta[ids[i]], Trim(Get(c.st, ids[i]), a, b)>>]
    IN IF Overlaps(c, a, b) THEN SelectSeq(rows, LAMBDA r : r[2] # <<>>) ELSE <<>>

-----------------------------------------------------------------------------
(* database (src/db.rs) *)
SortPoints(pts) ==  \* stable sort by time, newest chunk first within one time, then first of each time
    LET ts == {pts[i][1] : i \in 1..Len(pts)}
        first(t) == pts[Min({i \in 1..Len(pts) : pts[i][1] = t})]
        sorted == SetToSortSeq(ts, LAMBDA x, y : x < y)
    IN IF Mistake = "twice" THEN SortSeq(pts, LAMBDA x, y : x[1] < y[1]) ELSE [i \in 1..Len(sorted) |-> first(sorted[i])]
RowsOf(rows, ls) == LET r == SelectSeq(rows, LAMBDA x : x[1] = ls) IN FlattenSeq([i \in 1..Len(r) |-> r[i][2]])
DbQuery(m, a, b) ==
    LET order == IF Mistake = "oldest" THEN Append(sec, cur) ELSE <<cur>> \o Reverse(sec)
        rows == FlattenSeq([i \in 1..Len(order) |-> ChunkQuery(order[i], m, a, b)])
        sets == {rows[i][1] : i \in 1..Len(rows)}
    IN {<<ls, SortPoints(RowsOf(rows, ls))>> : ls \in sets}

\* the open chunk after a batch, and whether it is acknowledged
RECURSIVE InsertAll(_, _, _), AllOk(_, _, _), Fates(_, _, _)
InRangePts(pts) == SelectSeq(pts, LAMBDA p : cur.start <= p[1] /\ p[1] <= cur.end)
InsertAll(c, ls, pts) == IF pts = <<>> THEN c ELSE InsertAll(Insert(c, ls, Head(pts)), ls, Tail(pts))
AllOk(c, ls, pts) ==
    pts = <<>> \/ (InsertOk(c, ls, Head(pts)) /\ AllOk(Insert(c, ls, Head(pts)), ls, Tail(pts)))
Fates(c, ls, pts) ==
    IF pts = <<>> THEN <<>>
    ELSE IF ~(c.start <= Head(pts)[1] /\ Head(pts)[1] <= c.end) THEN <<"no">> \o Fates(c, ls, Tail(pts))
    ELSE <<IF InsertOk(c, ls, Head(pts)) THEN "yes" ELSE "no">> \o Fates(Insert(c, ls, Head(pts)), ls, Tail(pts))

Init ==
    /\ chunks = <<A!NewChunk(0, Size)>> /\ up = TRUE /\ clock = 0 /\ deadline = Size /\ size = Size
    /\ store = Kind /\ index = Kind
    /\ cur = EmptyChunk(0) /\ sec = <<>> /\ nw = 0 /\ nr = 0 /\ hist = <<>>

Log(e) == IF GenFile = "" THEN UNCHANGED hist ELSE hist' = Append(hist, e)
LsSeq(ls) == SetToSeq(ls)

WriteBatch(ls, pts) ==
    /\ up /\ nw < MaxWrites
    /\ nw' = nw + 1
    /\ cur' = InsertAll(cur, ls, InRangePts(pts))
    /\ A!WriteStored(ls, pts, Fates(cur, ls, pts))
    /\ UNCHANGED <<sec, nr>>
    /\ Log([op |-> "write", ls |-> LsSeq(ls), pts |-> pts])

Rotate(d) ==
    /\ up
    /\ Len(chunks) < MaxChunks \/ clock + d < deadline
    /\ A!Tick(d)
    /\ IF clock + d >= deadline
       THEN /\ sec' = Append(sec, [cur EXCEPT !.closed = Mistake # "open"])
            /\ cur' = IF Mistake = "reuse" THEN [EmptyChunk(clock + d + 1) EXCEPT !.ix = cur.ix] ELSE EmptyChunk(clock + d + 1)
       ELSE UNCHANGED <<cur, sec>>
    /\ UNCHANGED <<nw, nr>>
    /\ Log([op |-> "tick", d |-> d])

\* stop with everything flushed, open again `d` later
Restart(d) ==
    /\ up /\ nr < MaxRestarts /\ Len(chunks) < MaxChunks /\ clock + d > cur.start
    /\ nr' = nr + 1
    /\ clock' = clock + d
    /\ chunks' = Append(chunks, A!NewChunk(clock + d, Size))
    /\ deadline' = clock + d + Size
    /\ sec' = Append(sec, [cur EXCEPT !.closed = TRUE])
    /\ cur' = EmptyChunk(clock + d)
    /\ UNCHANGED <<up, size, store, index, nw>>
    /\ Log([op |-> "restart", d |-> d])

Query(m, a, b) ==   \* no effect; in the model only for generated scripts
    /\ GenFile # "" /\ up
    /\ UNCHANGED avars /\ UNCHANGED <<cur, sec, nw, nr>>
    /\ Log([op |-> "query", m |-> LsSeq(m), s |-> a, t |-> b])

TimeBound == MaxChunks * (Size + 2) + 2
PointTimes == {t \in 0..TimeBound : cur.start - 1 <= t /\ t <= cur.end + 1}
\* a generated script ends with a step of its own, so that the simulator, which looks at all successors, emits it once
Finish ==
    /\ GenFile # "" /\ Len(hist) = GenDepth - 1
    /\ UNCHANGED avars /\ UNCHANGED <<cur, sec, nw, nr>>
    /\ hist' = Append(hist, [op |-> "end"])
Step ==
    \/ \E ls \in LabelSets, t \in PointTimes, v \in Vals : WriteBatch(ls, <<<<t, v>>>>)
    \/ \E ls \in LabelSets, t1, t2 \in PointTimes, v \in Vals : GenFile # "" /\ WriteBatch(ls, <<<<t1, v>>, <<t2, v>>>>)
    \/ \E d \in Deltas : Rotate(d) \/ Restart(d)
    \/ \E m \in Matchers, a, b \in {0, cur.start, cur.end, clock, TimeBound} : Query(m, a, b)
Next == IF GenFile # "" /\ Len(hist) >= GenDepth - 1 THEN Finish ELSE Step
Spec == Init /\ [][Next]_<<chunks, up, clock, deadline, size, store, index, cur, sec, nw, nr, hist>>

-----------------------------------------------------------------------------
AsAnswer(rows) ==
    {<<r[1], [t \in {r[2][i][1] : i \in 1..Len(r[2])} |->
                 LET i == CHOOSE i \in 1..Len(r[2]) : r[2][i][1] = t IN r[2][i][2]]>> : r \in rows}
Froms == {0} \cup {c.start : c \in A!SetOf(chunks)} \cup {c.end : c \in A!SetOf(chunks)}
Tos == {TimeBound} \cup {c.start : c \in A!SetOf(chunks)} \cup {c.end : c \in A!SetOf(chunks)}

\* every query is answered exactly as the user's view demands (C01-C06), with strictly increasing samples in every row
\* and no empty row (C05)
QueriesRefine == \A m \in Matchers, a \in Froms, b \in Tos :
    LET rows == DbQuery(m, a, b) IN
    /\ AsAnswer(rows) = A!Answer(m, a, b)
    /\ \A r \in rows : r[2] # <<>> /\ \A i \in 1..Len(r[2]) - 1 : r[2][i][1] < r[2][i + 1][1]
\* structure the algorithms rely on
IndexSound == \A c \in {cur} \cup A!SetOf(sec) :
    /\ \A l \in DOMAIN c.ix.rev : \A i \in 1..Len(c.ix.rev[l]) - 1 : c.ix.rev[l][i] < c.ix.rev[l][i + 1]
    /\ \A l \in DOMAIN c.ix.rev : A!SetOf(c.ix.rev[l]) = {id \in DOMAIN c.ix.meta : l \in c.ix.meta[id]}
    /\ \A a, b \in DOMAIN c.ix.ids : c.ix.ids[a] = c.ix.ids[b] => a = b
    /\ \A a \in DOMAIN c.ix.ids : c.ix.meta[c.ix.ids[a]] = a
    /\ \A id \in DOMAIN c.st : id \in DOMAIN c.ix.meta
ChunksAligned ==
    /\ Len(sec) + 1 = Len(chunks)
    /\ \A i \in 1..Len(chunks) : LET c == IF i > Len(sec) THEN cur ELSE sec[i]
                                 IN c.start = chunks[i].start /\ c.end = chunks[i].end /\ (c.closed <=> i <= Len(sec))
StartsIncrease == A!StartsIncrease
CellsInRange == A!CellsInRange
\* a closed chunk never changes (C19)
Frozen == [][\A i \in 1..Len(sec) : sec'[i] = sec[i]]_sec

View == <<chunks, up, clock, deadline, cur, sec, nw, nr>>
Bound == clock <= TimeBound

\* script generation (tlc -simulate): one line per behaviour when it has the wanted length
Emit == (GenFile # "" /\ Len(hist) = GenDepth) => CSVWrite("%1$s", <<ToJson(hist)>>, GenFile)
=============================================================================
