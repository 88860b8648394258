---------------------------- MODULE TraceServer ----------------------------
(* Checks recordings of the HTTP server against Monolith: what a remote-write request stores, what a remote-read request *)
(* returns, and that nothing else a client sends has an effect.  Calls to the database, time and restarts are read as in  *)
(* TraceMonolith.                                                                                                        *)
EXTENDS TraceMonolith, SequencesExt
C == INSTANCE CommandLine

Good(status) == 200 <= status /\ status < 300
\* no connection, or no answer: the server is gone or stuck
Gone(status) == If(status = -2, "gone") \cup If(status = -3, "silent")

-----------------------------------------------------------------------------
(* remote write: the series of a request one after the other.  f: how many accesses to the stores failed meanwhile *)
ApplyOne(acked, c, w) ==
    LET ls == A!SetOf(w.ls)
        one(x, p) ==
            LET f == IF ~A!InRange(c, p[1]) THEN "no" ELSE IF acked THEN "yes"
                     ELSE IF ~A!MayStore(store, c, x, p[1]) THEN "no" ELSE "maybe"
            IN A!PutAll(x, <<p>>, <<f>>)
        s == FoldLeft(one, A!Series(c, ls), w.pts)
    IN IF s = A!NoCells THEN c ELSE [c EXCEPT !.cells = (ls :> s) @@ c.cells]
Apply(acked, c, ss) == FoldLeft(LAMBDA x, w : ApplyOne(acked, x, w), c, ss)
\* could the backend refuse something in this request?
SomeRefusable(c, ss) ==
    FoldLeft(LAMBDA a, w : IF a.some THEN a
                           ELSE LET ls == A!SetOf(w.ls)
                                IN [c |-> A!Stored(a.c, ls, w.pts, [k \in 1..Len(w.pts) |-> IF A!InRange(a.c, w.pts[k][1]) THEN "yes" ELSE "no"]),
                                    some |-> Refusable(A!Series(a.c, ls), w.pts)],
             [c |-> c, some |-> FALSE], ss).some

RemoteWrite ==
    /\ Is("rw")
    /\ Report(Gone(E.status)
              \cup If(E.usual /\ ~Good(E.status) /\ E.status > -2 /\ E.f = 0 /\ ~SomeRefusable(A!Cur, E.series), "refused"))
    /\ chunks' = [chunks EXCEPT ![Len(chunks)] = Apply(Good(E.status), A!Cur, E.series)]
    /\ UNCHANGED <<up, clock, deadline, size, store, index, logs, sure, cuts>>

-----------------------------------------------------------------------------
(* remote read: matcher types are 0 equal, 1 not equal, 2 regular expression, 3 no match of it *)
Plain(q) == \A k \in 1..Len(q.types) : q.types[k] = 0
Value(ls, n) == IF \E p \in ls : p[1] = n THEN (CHOOSE p \in ls : p[1] = n)[2] ELSE ""
\* only the kinds of regular expressions that the scenarios use
ReMatch(re, v) == CASE re = ".*" -> TRUE [] re = ".+" -> v # "" [] OTHER -> v = re
Fits(ls, ty, p) == LET v == Value(ls, p[1]) IN
    CASE ty = 0 -> v = p[2] [] ty = 1 -> v # p[2] [] ty = 2 -> ReMatch(p[2], v) [] ty = 3 -> ~ReMatch(p[2], v)
\* the answer when a query also uses other matchers than =
Selected(q) == {ls \in A!AllSeries : \A k \in 1..Len(q.m) : Fits(ls, q.types[k], q.m[k])}
MixedWrong(q, rows) ==
    LET got == {A!SetOf(rows[k].ls) : k \in 1..Len(rows)}
        must == {ls \in Selected(q) : A!MustTimes(ls, q.s, q.t) # {}}
    IN IF got = must /\ \A ls \in must : ~Missing(rows, ls, q.s, q.t) THEN {}
       \* exactly what the same query with = everywhere returns
       ELSE IF RowsWrong(q.m, q.s, q.t, rows) = {} THEN {"asequal"}
       ELSE {"matcher"}
QWrong(q, rows) ==
    IF q.m = <<>> THEN {}
    ELSE IF Plain(q) THEN RowsWrong(q.m, q.s, q.t, rows) ELSE MixedWrong(q, rows)

RemoteRead ==
    /\ Is("rr")
    /\ LET n == Len(E.queries)
       IN Report(Gone(E.status)
                 \cup If(E.usual /\ ~Good(E.status) /\ E.status > -2 /\ E.f = 0 /\ \A k \in 1..n : Plain(E.queries[k]), "readerr")
                 \cup (IF ~Good(E.status) THEN {}
                       ELSE IF ~E.decoded \/ Len(E.results) # n THEN {"results"}
                       ELSE UNION {QWrong(E.queries[k], E.results[k]) : k \in 1..n}))
    /\ UNCHANGED mon /\ UNCHANGED <<logs, sure, cuts>>

-----------------------------------------------------------------------------
(* a body that is not empty and cannot be decoded: an error, or the connection is dropped *)
BadBody ==
    /\ Is("bad")
    /\ Report(Gone(E.status) \cup If(E.status >= 0 /\ E.status < 400 /\ E.to \in {"read", "write"}, "accepted"))
    /\ UNCHANGED mon /\ UNCHANGED <<logs, sure, cuts>>
Raw ==
    /\ Is("raw")
    /\ Report(Gone(E.status))
    /\ UNCHANGED mon /\ UNCHANGED <<logs, sure, cuts>>

-----------------------------------------------------------------------------
(* the server as a program: its options decide whether it serves, and what with.  `disk` lists the components of the     *)
(* newest chunk that have files, `cluster` says whether the cluster holds anything, `code` how a refusal ended.           *)
Start ==
    /\ Is("start")
    /\ Opening(C!Serves(E.cli))
    /\ IF E.res = "ok"
       THEN Report(If(A!SetOf(E.disk) # C!OnDisk(E.cli) \/ (E.cluster # C!InCluster(E.cli)), "backend"))
       ELSE Report(If(E.code = 0, "exit"))

SNext == i' = i + 1 /\ (Scenario \/ Open \/ Start \/ Tick \/ Write \/ Query \/ RemoteWrite \/ RemoteRead \/ BadBody \/ Raw \/ Flushed \/ Stop \/ Bad \/ Other)
SSpec == Init /\ [][SNext]_vars
=============================================================================
