------------------------------- MODULE Parts -------------------------------
(* What the parts of a database promise to what is built on them.                                                       *)
(*   storage   keeps samples of series that are known by a number; [kind, data], data: number -> (time -> value)         *)
(*   index     finds the numbers of series by their pairs; [entries], a set of <<number, label set>>                      *)
(*   chunk     a storage and an index with a time range, until it is closed; [kind, start, end, closed, cells]           *)
(* A part that was made on a shared backend is found again by the identifier of its chunk.                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

NewStorage(kind) == [what |-> "storage", kind |-> kind, data |-> <<>>]
NewIndex == [what |-> "index", entries |-> {}]
NewChunk(kind, s, e) == [what |-> "chunk", kind |-> kind, start |-> s, end |-> e, closed |-> FALSE, cells |-> <<>>]

At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE <<>>
\* TiKV takes only what is newer than everything it has of the series
Takes(kind, series, t) == kind = "sled" \/ \A x \in DOMAIN series : x < t
Stored(f, x, t, v) == (x :> ((t :> v) @@ At(f, x))) @@ f
Inside(series, s, e) == {t \in DOMAIN series : s <= t /\ t <= e}
\* samples in a window, in order
Samples(series, s, e) == LET ts == SetToSortSeq(Inside(series, s, e), <) IN [k \in 1..Len(ts) |-> <<ts[k], series[ts[k]]>>]

\* storage
Put(o, id, t, v) == IF Takes(o.kind, At(o.data, id), t) THEN [o EXCEPT !.data = Stored(@, id, t, v)] ELSE o
Get(o, id, s, e) == Samples(At(o.data, id), s, e)
\* index
Index(o, id, ls) == [o EXCEPT !.entries = @ \cup {<<id, ls>>}]
Find(o, m) == {e \in o.entries : m \subseteq e[2]}
Exact(o, ls) == {e[1] : e \in {x \in o.entries : x[2] = ls}}
\* chunk
Covers(o, t) == o.start <= t /\ t <= o.end
MayInsert(o, ls, t) == ~o.closed /\ Covers(o, t) /\ Takes(o.kind, At(o.cells, ls), t)
Insert(o, ls, t, v) == IF MayInsert(o, ls, t) THEN [o EXCEPT !.cells = Stored(@, ls, t, v)] ELSE o
Select(o, m, s, e) == {<<ls, Samples(o.cells[ls], s, e)>> : ls \in {x \in DOMAIN o.cells : m \subseteq x /\ Inside(o.cells[x], s, e) # {}}}

\* the ids common to ascending lists: those of the first that are in all of them
Common(lists) == IF lists = <<>> THEN <<>>
                 ELSE LET sets == {ToSet(lists[k]) : k \in 2..Len(lists)} IN SelectSeq(lists[1], LAMBDA x : \A s \in sets : x \in s)
=============================================================================
