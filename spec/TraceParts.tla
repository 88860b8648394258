----------------------------- MODULE TraceParts -----------------------------
(* Checks what real storages, indexers and chunks answered against Parts.                                               *)
EXTENDS Parts, Json, IOUtils

VARIABLES i, objs
vars == <<i, objs>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[i]
Is(kind) == i <= Len(Trace) /\ E.e = kind
If(b, kind) == IF b THEN {kind} ELSE {}
Report(kinds) == IF kinds = {} THEN TRUE ELSE PrintT(<<"WRONG", i, kinds>>)
O == objs[E.o]
To(o) == objs' = (E.o :> o) @@ objs

Init == i = 1 /\ objs = <<>>
Scenario == Is("scenario") /\ objs' = <<>>

New ==
    /\ Is("new")
    /\ Report(If(E.res # "ok", "make"))
    /\ To(CASE E.what = "storage" -> NewStorage(E.kind)
            [] E.what = "index" -> NewIndex
            [] OTHER -> NewChunk(E.kind, E.start, E.end))
\* the part a chunk identifier stands for, after the one at hand was given up
Attach == Is("attach") /\ Report(IF E.res = "panic" THEN {"panic"} ELSE If(E.res # "ok", "attach")) /\ UNCHANGED objs

\* a call that stores something: may it be accepted?
Accepted(may) == IF E.res = "panic" THEN {"panic"} ELSE If(E.res = "ok" /\ ~may, "wack") \cup If(E.res # "ok" /\ may, "wrefuse")
DoPut ==
    /\ Is("put")
    /\ Report(Accepted(Takes(O.kind, At(O.data, E.id), E.t)))
    /\ To(Put(O, E.id, E.t, E.v))
DoIndex ==
    /\ Is("index")
    /\ Report(Accepted(TRUE))
    /\ To(Index(O, E.id, ToSet(E.ls)))
DoInsert ==
    /\ Is("insert")
    /\ Report(Accepted(MayInsert(O, ToSet(E.ls), E.t)) \cup If(E.res = "ok" /\ O.closed, "frozen"))
    /\ To(Insert(O, ToSet(E.ls), E.t, E.v))
DoClose == Is("close") /\ Report(If(E.res # "ok", "panic")) /\ To([O EXCEPT !.closed = TRUE])

\* samples that were answered, against those of the series and the wanted ones
PtsWrong(pts, series, want, s, e) ==
    LET n == Len(pts)
        got == {pts[k][1] : k \in 1..n}
    IN If(\E k \in 1..n : pts[k][1] < s \/ pts[k][1] > e, "outside")
       \cup If(\E k \in 1..n : pts[k][1] \notin DOMAIN series \/ (series[pts[k][1]] # pts[k][2]), "extra")
       \cup If(\E k \in 1..Len(want) : ~\E j \in 1..n : pts[j] = want[k], "missing")
       \cup If(Cardinality(got) # n, "dup")
       \cup If(\E k \in 1..n - 1 : pts[k][1] >= pts[k + 1][1], "order")
DoGet ==
    /\ Is("get")
    /\ LET want == Get(O, E.id, E.s, E.t)
           known == E.id \in DOMAIN O.data
       IN Report(IF E.res = "panic" THEN {"panic"}
                 ELSE IF E.res = "ok" THEN PtsWrong(E.pts, At(O.data, E.id), want, E.s, E.t)
                 ELSE If(want # <<>>, "missing") \cup If(known /\ ~(E.res = "oor" /\ want = <<>>), "qerr"))
    /\ UNCHANGED objs
DoFind ==
    /\ Is("find")
    /\ LET want == Find(O, ToSet(E.m))
           ids == {x[1] : x \in want}
           rows == {<<E.rows[k][1], ToSet(E.rows[k][2])>> : k \in 1..Len(E.rows)}
       IN Report(IF E.res = "panic" THEN {"panic"}
                 ELSE IF E.res # "ok" THEN {"qerr"}
                 ELSE If(ToSet(E.ids) # ids \/ {r[1] : r \in rows} # ids, "rows")
                      \cup If(Len(E.ids) # Cardinality(ids) \/ Len(E.rows) # Cardinality(rows), "rowdup")
                      \cup If(~(rows \subseteq O.entries), "labels"))
    /\ UNCHANGED objs
DoExact ==
    /\ Is("exact")
    /\ LET want == Exact(O, ToSet(E.ls))
       IN Report(IF E.res = "panic" THEN {"panic"} ELSE IF E.res # "ok" THEN {"qerr"} ELSE If(ToSet(E.ids) # want, "identity"))
    /\ UNCHANGED objs
DoSelect ==
    /\ Is("select")
    /\ LET m == ToSet(E.m)
           want == Select(O, m, E.s, E.t)
           n == Len(E.rows)
           sets == [k \in 1..n |-> ToSet(E.rows[k][1])]
           sel(ls) == (CHOOSE w \in want : w[1] = ls)[2]
       IN Report(IF E.res = "panic" THEN {"panic"}
                 ELSE IF E.res # "ok" THEN If(want # {}, "missing") \cup If(~(E.res = "oor" /\ (E.s > O.end \/ E.t < O.start)), "qerr")
                 ELSE If({sets[k] : k \in 1..n} # {w[1] : w \in want}, "rows")
                      \cup If(Cardinality({sets[k] : k \in 1..n}) # n, "rowdup")
                      \cup If(\E k \in 1..n : E.rows[k][2] = <<>>, "emptyrow")
                      \cup If(\E k \in 1..n : sets[k] \notin DOMAIN O.cells \/ Len(E.rows[k][1]) # Cardinality(sets[k]), "labels")
                      \cup UNION {PtsWrong(E.rows[k][2], At(O.cells, sets[k]), Samples(At(O.cells, sets[k]), E.s, E.t), E.s, E.t) : k \in 1..n})
    /\ UNCHANGED objs

\* functions
Lists == Is("lists") /\ UNCHANGED objs
         /\ Report(IF E.res = "panic" THEN {"panic"} ELSE If(E.res # "ok" \/ E.got # Common(E.lists), "common"))
Dir == Is("dir") /\ UNCHANGED objs
       /\ Report(IF E.res = "panic" THEN {"panic"} ELSE If(E.res # "ok" \/ E.back # <<E.start, E.end>>, "dirname"))
Bad == (Is("hang") \/ Is("died")) /\ Report({E.e}) /\ UNCHANGED objs

Next == i' = i + 1 /\ (Scenario \/ New \/ Attach \/ DoPut \/ DoIndex \/ DoInsert \/ DoClose \/ DoGet \/ DoFind \/ DoExact \/ DoSelect
                       \/ Lists \/ Dir \/ Bad)
Spec == Init /\ [][Next]_vars
View == i
=============================================================================
