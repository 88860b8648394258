--------------------------- MODULE TraceMonolith ---------------------------
(* Checks recordings of the real database against Monolith.  Every event determines the next state; what an event shows *)
(* to be wrong is collected as a set of kinds, and a recording is accepted when it was read to the end and nothing was   *)
(* wrong.  A recording holds many scenarios one after the other.                                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt

VARIABLES
    chunks, up, clock, deadline, size, store, index,
    logs,       \* per chunk: label set -> samples in the order in which they were written, with what became of them
    sure,       \* per chunk: label set -> how many of these are flushed for sure
    cuts,       \* per chunk, after a crash: label set -> what may have survived, a set of functions from time to value
    i           \* events read so far

A == INSTANCE Monolith
mon == <<chunks, up, clock, deadline, size, store, index>>
vars == <<chunks, up, clock, deadline, size, store, index, logs, sure, cuts, i>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[i + 1]
Is(kind) == i < Len(Trace) /\ E.e = kind

\* violations are reported line by line; TLC's register 1 counts them
If(b, kind) == IF b THEN {kind} ELSE {}
Report(kinds) ==
    IF kinds = {} THEN TRUE ELSE PrintT(<<"WRONG", i + 1, kinds>>) /\ TLCSet(1, TLCGet(1) + 1)

Init ==
    /\ chunks = <<>> /\ up = FALSE /\ clock = 0 /\ deadline = 0 /\ size = 0 /\ store = "" /\ index = ""
    /\ logs = <<>> /\ sure = <<>> /\ cuts = <<>>
    /\ i = 0 /\ TLCSet(1, 0)

Scenario ==
    /\ Is("scenario")
    /\ chunks' = <<>> /\ up' = FALSE /\ clock' = 0 /\ deadline' = 0 /\ size' = 0 /\ store' = "" /\ index' = ""
    /\ logs' = <<>> /\ sure' = <<>> /\ cuts' = <<>>

-----------------------------------------------------------------------------
(* opening, time *)
Ranges(cs) == {<<cs[k].start, cs[k].end>> : k \in 1..Len(cs)}
DirsOk(cs) == Ranges(cs) \subseteq A!SetOf(E.dirs)
Grow == logs' = Append(logs, <<>>) /\ sure' = Append(sure, <<>>) /\ cuts' = Append(cuts, <<>>)
Observed == [start |-> E.range[1], end |-> E.range[2], cells |-> A!NoCells]

\* an attempt to open; `allowed` is FALSE when it has to be refused whatever the directory holds
Opening(allowed) ==
    /\ LET right == allowed /\ (store = "" \/ (store = E.store /\ index = E.index))
           opened == E.res = "ok"
           start == E.clock
           cs == Append(chunks, Observed)
           startOk == E.range[1] \in {start, start + 1} /\ E.range[2] = E.range[1] + E.size
                      /\ (chunks = <<>> \/ E.range[1] > A!Cur.start)
       IN /\ Report(If(E.res = "panic", "panic")
                    \cup If(opened # right /\ (E.f = 0 \/ opened), "open")
                    \cup If(~opened /\ ~right /\ ~E.unchanged, "unchanged")
                    \cup If(opened /\ ~startOk, "range")
                    \cup If(opened /\ ~DirsOk(cs), "dirs"))
          /\ IF opened
             THEN /\ Grow
                  \* as A!OpenWith, but the clock is the one of the event
                  /\ up' = TRUE /\ size' = E.size /\ clock' = E.clock /\ deadline' = E.clock + E.size
                  /\ store' = (IF right THEN E.store ELSE store) /\ index' = (IF right THEN E.index ELSE index)
                  /\ chunks' = cs
             ELSE up' = FALSE /\ clock' = E.clock /\ UNCHANGED <<chunks, deadline, size, store, index, logs, sure, cuts>>
Open == Is("open") /\ Opening(TRUE)

Tick ==
    /\ Is("tick")
    /\ LET d == E.clock - clock
           rot == A!Rotates(d)
           new == Observed
           same == up /\ E.range = <<A!Cur.start, A!Cur.end>>
           right == E.range = <<E.clock + 1, E.clock + 1 + size>>
       IN IF ~up THEN clock' = E.clock /\ UNCHANGED <<chunks, up, deadline, size, store, index, logs, sure, cuts>>
          ELSE IF rot /\ (E.f = 0 \/ ~same)
          THEN /\ Report(If(~right \/ E.range[1] <= A!Cur.start, "range") \cup If(~DirsOk(Append(chunks, new)), "dirs"))
               /\ A!TickWith(d, new) /\ Grow
          ELSE /\ Report(If(~same, "range") \cup If(~DirsOk(chunks), "dirs"))
               /\ clock' = E.clock
               /\ deadline' = (IF rot THEN E.clock + size ELSE deadline)  \* a rotation that failed is tried again later
               /\ UNCHANGED <<chunks, up, size, store, index, logs, sure, cuts>>

-----------------------------------------------------------------------------
(* writes *)
\* what becomes of each sample: "yes" stored, "no" not stored, "maybe" unknown
RECURSIVE Fates(_, _, _, _)
Fates(acked, working, s, pts) ==
    IF pts = <<>> THEN <<>>
    ELSE LET p == Head(pts)
             f == IF ~A!InRange(A!Cur, p[1]) THEN "no"
                  ELSE IF acked THEN "yes"
                  ELSE IF ~A!MayStore(store, A!Cur, s, p[1]) THEN "no"
                  ELSE IF working /\ A!MustStore(store, A!Cur, s, p[1]) THEN "yes"
                  \* a sample that may have been stored before it was reported as failed is there after it was repeated
                  ELSE IF working /\ p[1] = A!LastMaybe(s) /\ p[1] \in DOMAIN s /\ s[p[1]] = A!Cell({p[2]}, FALSE) THEN "yes"
                  ELSE "maybe"
         IN <<f>> \o Fates(acked, working, A!PutAll(s, <<p>>, <<f>>), Tail(pts))
\* was there a sample in range that the backend could not take?
RECURSIVE Refusable(_, _)
Refusable(s, pts) ==
    IF pts = <<>> THEN FALSE
    ELSE LET p == Head(pts) IN
         IF ~A!InRange(A!Cur, p[1]) THEN Refusable(s, Tail(pts))
         ELSE ~A!MustStore(store, A!Cur, s, p[1]) \/ Refusable(A!Put(s, p), Tail(pts))
AnyInRange(pts) == \E k \in 1..Len(pts) : A!InRange(A!Cur, pts[k][1])

Logged(ls, pts, fates) ==
    LET l == IF ls \in DOMAIN logs[Len(logs)] THEN logs[Len(logs)][ls] ELSE <<>>
        kept == {k \in 1..Len(pts) : fates[k] # "no"}
        RECURSIVE app(_, _)
        app(acc, k) == IF k > Len(pts) THEN acc ELSE app(IF k \in kept THEN Append(acc, Append(pts[k], fates[k])) ELSE acc, k + 1)
    IN logs' = [logs EXCEPT ![Len(logs)] = (ls :> app(l, 1)) @@ @]

Write ==
    /\ Is("write") \/ Is("single")
    /\ LET ls == A!SetOf(E.ls)
           s == A!Series(A!Cur, ls)
           fates == Fates(E.res = "ok", E.f = 0, s, E.pts)
           refusable == Refusable(s, E.pts)
           acked == E.res = "ok"
           wrong == IF E.res = "panic" THEN {"panic"}
                    ELSE IF E.e = "single"
                    THEN If(acked /\ ~AnyInRange(E.pts), "wack")
                         \cup If(~acked /\ E.f = 0 /\ AnyInRange(E.pts) /\ ~refusable, "wrefuse")
                    ELSE If(~acked /\ E.f = 0 /\ AnyInRange(E.pts) /\ ~refusable, "wrefuse")
       IN /\ Report(wrong)
          /\ A!WriteStored(ls, E.pts, fates)
          /\ Logged(ls, E.pts, fates)
          /\ UNCHANGED <<sure, cuts>>

-----------------------------------------------------------------------------
(* queries *)
\* (`all`: every series there is)
RowWrong(r, all, m, s, e) ==
    LET ls == A!SetOf(r.ls)
        n == Len(r.pts)
        times == {r.pts[k][1] : k \in 1..n}
        known == ls \in all
        there == TLCEval(A!Times(ls))
    IN If(Cardinality(ls) # Len(r.ls) \/ ~known, "labels")
       \cup If(~(m \subseteq ls), "rows")
       \cup If(n = 0, "emptyrow")
       \cup If(\E k \in 1..n : r.pts[k][1] < s \/ r.pts[k][1] > e, "outside")
       \cup If(Cardinality(times) # n, "dup")
       \cup If(\E k \in 1..n - 1 : r.pts[k][1] >= r.pts[k + 1][1], "order")
       \cup (IF ~known THEN If(n > 0, "extra")
             ELSE If(Cardinality(there) >= 0 /\ \E k \in 1..n : r.pts[k][1] \notin there \/ r.pts[k][2] \notin A!Vals(ls, r.pts[k][1]), "extra"))
Missing(rows, ls, s, e) ==
    LET got == TLCEval(UNION {A!SetOf(rows[k].pts) : k \in {x \in 1..Len(rows) : A!SetOf(rows[x].ls) = ls}})
    IN Cardinality(got) >= 0 /\ \E t \in A!MustTimes(ls, s, e) : ~\E v \in A!Vals(ls, t) : <<t, v>> \in got
\* an answer to matchers `ms` in [s, e]
RowsWrong(ms, s, e, rows) ==
    LET m == A!SetOf(ms)
        sets == [k \in 1..Len(rows) |-> A!SetOf(rows[k].ls)]
        all == TLCEval(A!AllSeries)
        fit == {ls \in all : m \subseteq ls}
        must == {ls \in fit : A!MustTimes(ls, s, e) # {}}
        may == {ls \in fit : A!Window(ls, s, e) # {}}
        got == {sets[k] : k \in 1..Len(rows)}
        twice == Cardinality(got) # Len(rows)
    IN UNION {RowWrong(rows[k], all, m, s, e) : k \in 1..Len(rows)}
       \cup If(twice, "rowdup")
       \cup If(~(must \subseteq got) \/ ~(got \subseteq may), "rows")
       \cup If(~(must \subseteq got)
              \/ \E k \in 1..Len(rows) : sets[k] \in must /\ Missing(IF twice THEN rows ELSE <<rows[k]>>, sets[k], s, e), "missing")
QueryWrong ==
    IF E.res = "panic" THEN {"panic"}
    ELSE IF E.res # "ok" THEN If(E.f = 0, "qerr")
    ELSE RowsWrong(E.m, E.s, E.t, E.rows)

\* after a crash: which prefixes of what was written agree with the answer?
Takes(s, t) == store # "tikv" \/ \A x \in DOMAIN s : x < t
\* what a series may be after one more sample; "try": it was being written when the process was killed, "no": unless TiKV refused it
After(S, p) ==
    LET able == {s \in S : Takes(s, p[1])}
        put(Z) == {(p[1] :> p[2]) @@ s : s \in Z}
    IN CASE p[3] = "yes" -> put(IF able = {} THEN S ELSE able)
         [] p[3] = "maybe" -> S \cup put(able)
         [] p[3] = "try" -> put(able) \cup (S \ able)
\* what a series may be when at least its first n samples have survived
RECURSIVE Survivors(_, _, _, _)
Survivors(S, l, k, n) ==
    (IF k >= n THEN S ELSE {}) \cup (IF k = Len(l) THEN {} ELSE Survivors(TLCEval(After(S, l[k + 1])), l, k + 1, n))
Narrow(c, ls) ==
    LET m == A!SetOf(E.m)
        l == logs[c][ls]
        hidden == UNION {DOMAIN A!Series(chunks[d], ls) : d \in c + 1..Len(chunks)}  \* newer chunks may have replaced these
        mine == {<<l[k][1], l[k][2]>> : k \in {x \in 1..Len(l) : l[x][1] \notin hidden}}
        got == {p \in UNION {A!SetOf(E.rows[r].pts) : r \in {x \in 1..Len(E.rows) : A!SetOf(E.rows[x].ls) = ls}} : p \in mine}
        want(s) == {<<t, s[t]>> : t \in {x \in DOMAIN s \ hidden : E.s <= x /\ x <= E.t}}
    IN IF E.res # "ok" \/ ~(m \subseteq ls) THEN cuts[c][ls] ELSE {s \in cuts[c][ls] : want(s) = got}
CellsOf(S) ==
    [t \in UNION {DOMAIN s : s \in S} |->
        A!Cell({s[t] : s \in {x \in S : t \in DOMAIN x}}, \A s \in S : t \in DOMAIN s)]
WithCuts(cs, cc) ==
    [c \in 1..Len(cs) |-> IF DOMAIN cc[c] = {} THEN cs[c]
                          ELSE [cs[c] EXCEPT !.cells = [ls \in DOMAIN cc[c] |-> CellsOf(cc[c][ls])] @@ @]]

Query ==
    /\ Is("query")
    /\ LET open == {x \in (1..Len(cuts)) \X UNION {DOMAIN cuts[c] : c \in 1..Len(cuts)} : x[2] \in DOMAIN cuts[x[1]]}
           narrowed == [c \in 1..Len(cuts) |-> [ls \in DOMAIN cuts[c] |-> Narrow(c, ls)]]
           torn == \E x \in open : narrowed[x[1]][x[2]] = {}
           next == [c \in 1..Len(cuts) |-> [ls \in DOMAIN cuts[c] |-> IF narrowed[c][ls] = {} THEN cuts[c][ls] ELSE narrowed[c][ls]]]
       IN /\ Report(QueryWrong \cup If(torn, "prefix"))
          /\ IF open = {} THEN UNCHANGED <<cuts, chunks>>
             ELSE cuts' = next /\ chunks' = WithCuts(chunks, next)
    /\ UNCHANGED <<up, clock, deadline, size, store, index, logs, sure>>

-----------------------------------------------------------------------------
(* end of a process *)
Lengths == [c \in 1..Len(logs) |-> [ls \in DOMAIN logs[c] |-> Len(logs[c][ls])]]
Flushed == Is("flushed") /\ sure' = Lengths /\ UNCHANGED mon /\ UNCHANGED <<logs, cuts>>
\* a process that is killed while it writes has stored some first part of what it was writing
Stop ==
    /\ Is("stop")
    /\ LET shared == store = "tikv" /\ index = "tikv"
           ls == A!SetOf(E.ls)
           pts == IF up THEN SelectSeq(E.pts, LAMBDA p : A!InRange(A!Cur, p[1])) ELSE <<>>
           may == {k \in 1..Len(pts) : A!MayStore(store, A!Cur, A!Series(A!Cur, ls), pts[k][1])}
           RECURSIVE tried(_)
           tried(k) == IF k > Len(pts) THEN <<>> ELSE (IF k \in may THEN <<Append(pts[k], "try")>> ELSE <<>>) \o tried(k + 1)
           more == tried(1)
       IN IF E.how = "flush" \/ (shared /\ more = <<>>)
          THEN /\ up' = FALSE
               /\ sure' = Lengths
               /\ UNCHANGED <<chunks, clock, deadline, size, store, index, logs, cuts>>
          ELSE LET n(c, x) == IF shared THEN IF x \in DOMAIN logs[c] THEN Len(logs[c][x]) ELSE 0
                              ELSE IF x \in DOMAIN sure[c] THEN sure[c][x] ELSE 0
                   last == Len(logs)
                   ll == IF more = <<>> THEN logs
                         ELSE [logs EXCEPT ![last] = (ls :> (IF ls \in DOMAIN @ THEN @[ls] ELSE <<>>) \o more) @@ @]
                   cc == [c \in 1..Len(ll) |->
                            [x \in {y \in DOMAIN ll[c] : y \in DOMAIN cuts[c] \/ n(c, y) < Len(ll[c][y])} |->
                                IF x \in DOMAIN cuts[c] THEN cuts[c][x] ELSE Survivors({A!NoCells}, ll[c][x], 0, n(c, x))]]
               IN /\ logs' = ll
                  /\ cuts' = cc
                  /\ chunks' = [c \in 1..Len(chunks) |->
                                  IF DOMAIN cc[c] = {} THEN chunks[c]
                                  ELSE [chunks[c] EXCEPT !.cells = [x \in DOMAIN cc[c] |-> CellsOf(cc[c][x])] @@ @]]
                  /\ up' = FALSE
                  /\ UNCHANGED <<clock, deadline, size, store, index, sure>>

Bad ==
    /\ Is("hang") \/ Is("died")
    /\ Report({E.e})
    /\ UNCHANGED mon /\ UNCHANGED <<logs, sure, cuts>>
Other == (Is("calls") \/ Is("end") \/ Is("try")) /\ UNCHANGED mon /\ UNCHANGED <<logs, sure, cuts>>

Next == i' = i + 1 /\ (Scenario \/ Open \/ Tick \/ Write \/ Query \/ Flushed \/ Stop \/ Bad \/ Other)
Spec == Init /\ [][Next]_vars

View == i
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
