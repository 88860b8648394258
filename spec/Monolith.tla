------------------------------ MODULE Monolith ------------------------------
(* What a user of one monolith database relies on.                                                                     *)
(*                                                                                                                     *)
(* The database is a sequence of chunks in the order they were opened; the last one is the open chunk while the        *)
(* database is up.  A chunk maps label sets to cells, a cell maps a timestamp to what may be read there.  A label set   *)
(* is a set of <<name, value>> pairs, a sample is <<timestamp, value>>.  Cells carry a set of values and a flag:        *)
(* `req` says that one of the values has to be returned (the sample was acknowledged); without it the sample may also   *)
(* be absent (a write that failed half way, or an unflushed write before a crash).                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES
    chunks,     \* sequence of [start, end, cells]
    up,         \* is the database open?
    clock,      \* current time
    deadline,   \* time of the next rotation
    size,       \* chunk duration
    store,      \* kind of storage, "sled" or "tikv"
    index       \* kind of indexer

vars == <<chunks, up, clock, deadline, size, store, index>>

NoCells == <<>>           \* the function with the empty domain
Cell(vs, r) == [vals |-> vs, req |-> r]
NewChunk(s, d) == [start |-> s, end |-> s + d, cells |-> NoCells]
Cur == chunks[Len(chunks)]
InRange(c, t) == c.start <= t /\ t <= c.end

Series(c, ls) == IF ls \in DOMAIN c.cells THEN c.cells[ls] ELSE NoCells
SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

-----------------------------------------------------------------------------
(* Writes *)

\* the newest timestamp a series certainly / possibly has; 0 if none
Required(s) == {t \in DOMAIN s : s[t].req}
LastSure(s) == Max({-2147483647} \cup Required(s))
LastMaybe(s) == Max({-2147483647} \cup DOMAIN s)

\* may / must this sample be stored by a working backend?
MayStore(kind, c, s, t) == InRange(c, t) /\ (kind = "tikv" => t > LastSure(s))
MustStore(kind, c, s, t) == InRange(c, t) /\ (kind = "tikv" => t > LastMaybe(s))

\* a sample that was stored, and one that may have been
Put(s, p) == (p[1] :> Cell({p[2]}, TRUE)) @@ s
PutMaybe(s, p) == LET old == IF p[1] \in DOMAIN s THEN s[p[1]] ELSE Cell({}, FALSE)
                  IN (p[1] :> Cell(old.vals \cup {p[2]}, old.req)) @@ s

\* fold a batch over a series; `st` is a sequence of "yes", "no", "maybe"
RECURSIVE PutAll(_, _, _)
PutAll(s, pts, st) ==
    IF pts = <<>> THEN s
    ELSE LET s1 == CASE Head(st) = "yes" -> Put(s, Head(pts))
                     [] Head(st) = "maybe" -> PutMaybe(s, Head(pts))
                     [] OTHER -> s
         IN PutAll(s1, Tail(pts), Tail(st))

Stored(c, ls, pts, st) ==
    LET s == PutAll(Series(c, ls), pts, st)
    IN IF s = NoCells THEN c ELSE [c EXCEPT !.cells = (ls :> s) @@ c.cells]

WriteStored(ls, pts, st) ==
    /\ up
    /\ chunks' = [chunks EXCEPT ![Len(chunks)] = Stored(Cur, ls, pts, st)]
    /\ UNCHANGED <<up, clock, deadline, size, store, index>>

-----------------------------------------------------------------------------
(* Queries: for a series and a time, the newest chunk decides; a chunk whose cell is not required leaves it open. *)

RECURSIVE ValsAt(_, _, _), ReqAt(_, _, _)
ValsAt(i, ls, t) ==
    IF i = 0 THEN {}
    ELSE LET s == Series(chunks[i], ls)
         IN IF t \notin DOMAIN s THEN ValsAt(i - 1, ls, t)
            ELSE IF s[t].req THEN s[t].vals ELSE s[t].vals \cup ValsAt(i - 1, ls, t)
ReqAt(i, ls, t) ==
    IF i = 0 THEN FALSE
    ELSE LET s == Series(chunks[i], ls)
         IN (t \in DOMAIN s /\ s[t].req) \/ ReqAt(i - 1, ls, t)

AllSeries == UNION {DOMAIN chunks[i].cells : i \in 1..Len(chunks)}
Times(ls) == UNION {DOMAIN Series(chunks[i], ls) : i \in 1..Len(chunks)}
Matching(m) == {ls \in AllSeries : m \subseteq ls}
Window(ls, s, e) == {t \in Times(ls) : s <= t /\ t <= e}
MustTimes(ls, s, e) == {t \in Window(ls, s, e) : ReqAt(Len(chunks), ls, t)}
Vals(ls, t) == ValsAt(Len(chunks), ls, t)

\* the answer when nothing is uncertain: a set of <<label set, function from time to value>>
Answer(m, s, e) ==
    {<<ls, [t \in MustTimes(ls, s, e) |-> CHOOSE v \in Vals(ls, t) : TRUE]>> :
        ls \in {x \in Matching(m) : MustTimes(x, s, e) # {}}}

-----------------------------------------------------------------------------
(* Life cycle *)

\* a database that is opened keeps every chunk it finds and adds one, which starts at the time it is opened
OpenWith(c, sz, s, i) ==
    /\ ~up
    /\ up' = TRUE /\ size' = sz /\ store' = s /\ index' = i
    /\ chunks' = Append(chunks, c)
    /\ deadline' = clock + sz
    /\ UNCHANGED clock
OpenDb(sz, s, i) ==
    /\ chunks = <<>> \/ clock > Cur.start
    /\ OpenWith(NewChunk(clock, sz), sz, s, i)

\* time passes; when the deadline is reached (or passed) the next chunk starts right after that moment
Rotates(d) == up /\ clock + d >= deadline
TickWith(d, c) ==
    /\ clock' = clock + d
    /\ IF Rotates(d)
       THEN /\ chunks' = Append(chunks, c)
            /\ deadline' = clock + d + size
       ELSE UNCHANGED <<chunks, deadline>>
    /\ UNCHANGED <<up, size, store, index>>
Tick(d) == TickWith(d, NewChunk(clock + d + 1, size))

StopDb == up /\ up' = FALSE /\ UNCHANGED <<chunks, clock, deadline, size, store, index>>

-----------------------------------------------------------------------------
StartsIncrease == \A i \in 1..Len(chunks) - 1 : chunks[i].start < chunks[i + 1].start
CellsInRange == \A i \in 1..Len(chunks) : \A ls \in DOMAIN chunks[i].cells :
                    \A t \in DOMAIN chunks[i].cells[ls] : InRange(chunks[i], t)
=============================================================================
