---------------------------- MODULE ServerModel ----------------------------
(* The server as a program on one directory: it is launched with options, takes writes, and is ended.  A sample needs its *)
(* storage and its index entry; both are on disk, in the cluster or in the memory of the process, as the options say.     *)
(* Checked against CommandLine: what was acknowledged is readable as long as its options keep it (Kept), nothing else is   *)
(* (Nothing), the cluster is used when it was asked for and only then (Cluster), and a launch that is refused changes      *)
(* nothing (Refusals, a property of steps).                                                                               *)
EXTENDS CommandLine, FiniteSets, TLC, CSV, Json

CONSTANTS MaxWrites, MaxLaunches, GenFile, GenDepth,
    Mistake     \* 0, or one of the mistakes that the properties have to notice

VARIABLES
    meta,       \* the kinds the directory was created with, or <<>>
    proc,       \* options of the running server, or Off
    place,      \* location -> set of <<sample, part>>
    acked,      \* acknowledged samples
    launches, hist
vars == <<meta, proc, place, acked, launches, hist>>

Off == [storage |-> "off"]
Up == proc # Off
Places == {"disk", "cluster", "memory"}
Num(n) == [num |-> TRUE, n |-> n]
Word == [num |-> FALSE, n |-> 0]
Good == Num(2000)
Options ==
    {c \in [storage : Kinds \cup {"other"}, indexer : Kinds \cup {"other"}, port : {Good, Num(80), Num(70000), Word},
            secs : {Good, Word}, workers : {Good, Num(0), Word}, yaml : {"none", "dry", "cluster", "broken", "missing"}] :
        \* at most one thing is wrong
        Cardinality({k \in 1..6 : CASE k = 1 -> c.storage = "other" [] k = 2 -> c.indexer = "other" [] k = 3 -> c.port # Good
                                    [] k = 4 -> c.secs # Good [] k = 5 -> c.workers = Word
                                    [] k = 6 -> c.yaml \in {"broken", "missing"}}) <= 1}
Where(c, part) ==
    LET kind == IF part = "storage" THEN c.storage ELSE c.indexer
    \* mistake 1: dry_run is not looked at; mistake 2: what tikv should keep is kept on disk
    IN IF kind = "sled" \/ Mistake = 2 THEN "disk"
       ELSE IF c.yaml = "cluster" \/ (c.yaml = "dry" /\ Mistake = 1) THEN "cluster" ELSE "memory"
Log(e) == IF GenFile = "" THEN UNCHANGED hist ELSE hist' = Append(hist, e)

Init == /\ meta = <<>> /\ proc = Off /\ place = [p \in Places |-> {}] /\ acked = {} /\ launches = 0 /\ hist = <<>>

Fits(c) == meta = <<>> \/ meta = <<c.storage, c.indexer>>
Launch(c) ==
    /\ ~Up /\ launches < MaxLaunches
    /\ launches' = launches + 1
    \* a directory whose data was in the memory of a process is not used again, nor with another place for it
    /\ meta # <<>> => (~UsesTikv([c EXCEPT !.storage = meta[1], !.indexer = meta[2]]) \/ c.yaml \notin {"none", "dry"})
    \* mistake 3: the kinds are noted before the options are checked; mistake 4: ports are not checked
    /\ IF Fits(c) /\ (Serves(c) \/ (Mistake = 4 /\ Serves([c EXCEPT !.port = Good])))
       THEN proc' = c /\ meta' = <<c.storage, c.indexer>>
       ELSE meta' = (IF Mistake = 3 THEN <<c.storage, c.indexer>> ELSE meta) /\ UNCHANGED proc
    /\ Log([op |-> "start", c |-> c])
    /\ UNCHANGED <<place, acked>>
Write ==
    /\ Up /\ Cardinality(acked) < MaxWrites
    /\ LET n == Cardinality(acked) + 1
           add(p) == {<<n, part>> : part \in {x \in {"storage", "indexer"} : Where(proc, x) = p}}
       IN /\ place' = [p \in Places |-> place[p] \cup add(p)]
          /\ acked' = acked \cup {n}
    /\ Log([op |-> "write"])
    /\ UNCHANGED <<meta, proc, launches>>
\* the process ends; no new start of one whose data is gone
Stop ==
    /\ Up
    /\ (GenFile # "" => Durable(proc) /\ launches < MaxLaunches)
    /\ proc' = Off
    /\ place' = [place EXCEPT !["memory"] = {}]
    /\ acked' = IF Durable(proc) THEN acked ELSE {n \in acked : \A part \in {"storage", "indexer"} :
                                                      <<n, part>> \in place["disk"] \cup place["cluster"]}
    /\ Log([op |-> "stop"])
    /\ UNCHANGED <<meta, launches>>
Finish == /\ GenFile # "" /\ Len(hist) = GenDepth - 1
          /\ hist' = Append(hist, [op |-> "end"])
          /\ UNCHANGED <<meta, proc, place, acked, launches>>
Step == Write \/ Stop \/ \E c \in Options : Launch(c)
Next == IF GenFile # "" /\ Len(hist) >= GenDepth - 1 THEN Finish ELSE Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Readable == {n \in 1..MaxWrites : \A part \in {"storage", "indexer"} : <<n, part>> \in place[Where(proc, part)]}
Kept == Up => acked \subseteq Readable
Nothing == Up => Readable \subseteq acked
Cluster == Up /\ acked # {} => (InCluster(proc) <=> place["cluster"] # {})
Refusals == [][launches' # launches /\ proc' = Off => meta' = meta /\ place' = place]_vars
OnlyGood == Up => Serves(proc)
Emit == (GenFile # "" /\ Len(hist) = GenDepth) => CSVWrite("%1$s", <<ToJson(hist)>>, GenFile)
=============================================================================
