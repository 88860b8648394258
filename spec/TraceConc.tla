----------------------------- MODULE TraceConc -----------------------------
(* Checks recordings of concurrent calls: is there an order of the single sample writes, the queries and the rotations,  *)
(* consistent with real time, that explains every result?  A recording holds many histories; every one has to be         *)
(* accepted.  Calls take effect between their "inv" and their "ret" event; a batch takes effect sample by sample.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES
    chunks, up, clock, deadline, size, store, index,
    h,      \* number of the history
    i,      \* events read so far
    pend,   \* calls in progress: thread -> [e, todo, failed, done]
    due     \* ranges of chunks that are to be opened

A == INSTANCE Monolith
mon == <<chunks, up, clock, deadline, size, store, index>>
vars == <<mon, h, i, pend, due>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == SelectSeq([k \in 1..Len(Trace) |-> k], LAMBDA k : Trace[k].e = "history")
N == Len(Starts)
End(k) == IF k = N THEN Len(Trace) ELSE Starts[k + 1] - 1
ASSUME \A k \in 1..N : TLCSet(k, 0) /\ TLCSet(N + k, Starts[k])
E == Trace[i + 1]
Is(kind) == i < End(h) /\ E.e = kind

Init ==
    \E k \in 1..N : LET e == Trace[Starts[k]] IN
        /\ h = k /\ i = Starts[k]
        /\ chunks = <<A!NewChunk(0, e.size)>> /\ up = TRUE /\ clock = 0 /\ deadline = 0 /\ size = e.size
        /\ store = e.store /\ index = e.index
        /\ pend = <<>> /\ due = <<>>

Inv ==
    /\ Is("inv")
    /\ pend' = (E.th :> [e |-> E, todo |-> IF E.op = "query" THEN <<>> ELSE E.pts, failed |-> FALSE, refused |-> FALSE,
                         done |-> E.op # "query"]) @@ pend
    /\ i' = i + 1 /\ UNCHANGED <<mon, h, due>>

\* effects are only needed right before the next call returns
Waiting == i < End(h) /\ E.e \in {"ret", "settled"}

LinWrite(th) ==
    /\ pend[th].todo # <<>>
    /\ LET c == pend[th]
           p == Head(c.todo)
           ls == A!SetOf(c.e.ls)
           inr == A!InRange(A!Cur, p[1])
           ok == A!MayStore(store, A!Cur, A!Series(A!Cur, ls), p[1])
       IN /\ chunks' = [chunks EXCEPT ![Len(chunks)] = A!Stored(A!Cur, ls, <<p>>, <<IF ok THEN "yes" ELSE "no">>)]
          /\ pend' = [pend EXCEPT ![th].todo = Tail(c.todo), ![th].failed = @ \/ (inr /\ ~ok), ![th].refused = @ \/ ~inr]
    /\ UNCHANGED <<up, clock, deadline, size, store, index, h, i, due>>

\* the answer a query is going to give
Returns(th) == \E k \in i + 1..End(h) : Trace[k].e = "ret" /\ Trace[k].th = th
RetOf(th) == CHOOSE k \in i + 1..End(h) : Trace[k].e = "ret" /\ Trace[k].th = th
                                         /\ \A j \in i + 1..k - 1 : ~(Trace[j].e = "ret" /\ Trace[j].th = th)
RowsOf(rows) ==
    {<<A!SetOf(rows[k].ls), [t \in {rows[k].pts[j][1] : j \in 1..Len(rows[k].pts)} |->
        LET j == CHOOSE j \in 1..Len(rows[k].pts) : rows[k].pts[j][1] = t IN rows[k].pts[j][2]]>> : k \in 1..Len(rows)}
WellFormed(rows) ==
    /\ Cardinality({A!SetOf(rows[k].ls) : k \in 1..Len(rows)}) = Len(rows)
    /\ \A k \in 1..Len(rows) : \A j \in 1..Len(rows[k].pts) - 1 : rows[k].pts[j][1] < rows[k].pts[j + 1][1]
LinQuery(th) ==
    /\ ~pend[th].done /\ Returns(th)
    /\ LET q == pend[th].e
           r == Trace[RetOf(th)]
       IN r.res = "ok" /\ WellFormed(r.rows) /\ RowsOf(r.rows) = A!Answer(A!SetOf(q.m), q.s, q.t)
    /\ pend' = [pend EXCEPT ![th].done = TRUE]
    /\ UNCHANGED <<mon, h, i, due>>

Rotate ==
    /\ due # <<>>
    /\ chunks' = Append(chunks, A!NewChunk(Head(due), size))
    /\ due' = Tail(due)
    /\ UNCHANGED <<up, clock, deadline, size, store, index, h, i, pend>>

\* calls that never returned (the process hung) simply do not return
Ret ==
    /\ Is("ret")
    /\ LET c == pend[E.th]
       IN /\ c.todo = <<>> /\ c.done
          /\ CASE c.e.op = "query" -> TRUE
               [] c.e.op = "single" -> (E.res = "ok") <=> ~(c.failed \/ c.refused)
               [] OTHER -> (E.res = "ok") <=> ~c.failed
          /\ E.res # "panic"
          /\ pend' = [t \in DOMAIN pend \ {E.th} |-> pend[t]]
    /\ i' = i + 1 /\ UNCHANGED <<mon, h, due>>

TickE == Is("tick") /\ due' = Append(due, E.clock + 1) /\ i' = i + 1 /\ UNCHANGED <<mon, h, pend>>
Settled ==
    /\ Is("settled")
    /\ due = <<>> /\ E.range = <<A!Cur.start, A!Cur.end>>
    /\ \A k \in 1..Len(chunks) : <<chunks[k].start, chunks[k].end>> \in A!SetOf(E.dirs)
    /\ i' = i + 1 /\ UNCHANGED <<mon, h, pend, due>>

Next ==
    /\ TLCGet(h) = 0
    /\ \/ Inv \/ Ret \/ TickE \/ Settled
       \/ Waiting /\ ((\E th \in DOMAIN pend : LinWrite(th) \/ LinQuery(th)) \/ Rotate)
    /\ IF i' = End(h) THEN TLCSet(h, 1) ELSE TRUE
    /\ IF i' > TLCGet(N + h) THEN TLCSet(N + h, i') ELSE TRUE
Spec == Init /\ [][Next]_vars

Accepted == \A k \in 1..N : TLCGet(k) = 1 \/ PrintT(<<"WRONG", TLCGet(N + k) + 1, {"history"}>>)
=============================================================================
