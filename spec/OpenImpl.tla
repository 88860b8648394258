------------------------------ MODULE OpenImpl ------------------------------
(* How a directory comes to be, step by step: the metadata of the database (written to another file and renamed), for      *)
(* every chunk its directory, its metadata (which may be cut off), its storage and its index; and how all of it is read     *)
(* when the directory is opened again.  The process may die before every step, and a shared backend may fail when          *)
(* components are made or attached.                                                                                        *)
(* Checked: no state that a death leaves keeps the directory from being opened (Opens); an open database has every chunk    *)
(* that was given samples (Keeps), whatever failed on the way; a failed attempt to open is only one during which something  *)
(* failed (Honest).  `Mistake` names ways of doing it that break this (negative controls).                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, CSV, Json

CONSTANTS Shared,        \* on a shared backend?
          MaxChunks, MaxDeaths, MaxFaults,
          Mistake,       \* "none", "in place", "strict", "late", "swap first", "skip"
          GenFile, GenDepth

VARIABLES
    meta,     \* "none", "torn" or "ok"
    dirs,     \* per chunk: [conf, stor, idx, full]: metadata "none", "torn", "ok"; components made?; has acknowledged samples?
    pc,       \* "down", "up", "stuck", or the next step
    why,      \* "open" or "rotate"
    list,     \* chunks the process knows
    at,       \* steps since the call began
    deaths, faults, hist
vars == <<meta, dirs, pc, why, list, at, deaths, faults, hist>>
view == <<meta, dirs, pc, why, list, deaths, faults>>

N == Len(dirs)
NewDir == [conf |-> "none", stor |-> FALSE, idx |-> FALSE, full |-> FALSE]
Log(e) == IF GenFile = "" THEN UNCHANGED hist ELSE hist' = Append(hist, e)
Ev(op, end) == [op |-> op, end |-> end, at |-> at]
Same == UNCHANGED <<deaths, faults>>
Init == meta = "none" /\ dirs = <<>> /\ pc = "down" /\ why = "open" /\ list = {} /\ at = 0 /\ deaths = 0 /\ faults = 0 /\ hist = <<>>
Goto(p) == pc' = p /\ at' = at + 1

Open == /\ pc = "down" /\ N < MaxChunks /\ pc' = "meta" /\ why' = "open" /\ list' = {} /\ at' = 0
        /\ UNCHANGED <<meta, dirs, hist>> /\ Same
\* the metadata of the database: read, or written aside and renamed
Meta == /\ pc = "meta"
        /\ CASE meta = "ok" -> Goto("scan") /\ UNCHANGED meta
             [] meta = "torn" -> Goto("stuck") /\ UNCHANGED meta
             [] meta = "none" -> Goto("rename") /\ meta' = IF Mistake = "in place" THEN "torn" ELSE meta
        /\ UNCHANGED <<dirs, why, list, hist>> /\ Same
Rename == pc = "rename" /\ Goto("scan") /\ meta' = "ok" /\ UNCHANGED <<dirs, why, list, hist>> /\ Same
\* a chunk is known if its metadata can be read and its components can be attached; an embedded one is made when it is not there
Whole(d) == d.conf = "ok" /\ (Shared => d.stor \/ d.idx)
Scan == /\ pc = "scan"
        /\ list' = {k \in 1..N : Whole(dirs[k])}
        /\ dirs' = [k \in 1..N |-> IF dirs[k].conf = "ok" /\ ~Shared THEN [dirs[k] EXCEPT !.stor = TRUE, !.idx = TRUE] ELSE dirs[k]]
        /\ Goto(IF Mistake = "strict" /\ \E k \in 1..N : dirs[k].conf # "ok" THEN "stuck" ELSE "mkdir")
        /\ UNCHANGED <<meta, why, hist>> /\ Same
Rare(k) == GenFile = "" \/ RandomElement(1..k) = 1     \* generated behaviours shall get somewhere
Fails == Rare(3) /\ Shared /\ faults < MaxFaults
ScanFails == /\ pc = "scan" /\ Fails /\ faults' = faults + 1
             /\ IF Mistake = "skip"
                THEN /\ \E k \in 1..N : list' = {x \in 1..N : Whole(dirs[x])} \ {k}
                     /\ Goto("mkdir") /\ UNCHANGED hist
                ELSE pc' = "down" /\ list' = {} /\ at' = 0 /\ Log(Ev("open", "fault"))
             /\ UNCHANGED <<meta, dirs, why, deaths>>

\* a new chunk
Rotate == /\ pc = "up" /\ N < MaxChunks /\ pc' = "mkdir" /\ why' = "rotate" /\ at' = 0
          /\ UNCHANGED <<meta, dirs, list, hist>> /\ Same
Mkdir == /\ pc = "mkdir" /\ dirs' = Append(dirs, NewDir)
         /\ (IF Mistake = "late" THEN Goto("stor") ELSE Goto("conf"))
         /\ list' = (IF Mistake = "swap first" THEN list \cup {N + 1} ELSE list)
         /\ UNCHANGED <<meta, why, hist>> /\ Same
Conf == /\ pc = "conf" /\ dirs' = [dirs EXCEPT ![N].conf = "torn"] /\ Goto("conf write")
        /\ UNCHANGED <<meta, why, list, hist>> /\ Same
ConfWrite == /\ pc = "conf write" /\ dirs' = [dirs EXCEPT ![N].conf = "ok"] /\ Goto(IF Mistake = "late" THEN "up" ELSE "stor")
             /\ UNCHANGED <<meta, why, list, hist>> /\ Same
Stor == /\ pc = "stor" /\ dirs' = [dirs EXCEPT ![N].stor = TRUE] /\ Goto("idx")
        /\ UNCHANGED <<meta, why, list, hist>> /\ Same
Idx == /\ pc = "idx" /\ dirs' = [dirs EXCEPT ![N].idx = TRUE]
       /\ pc' = (IF Mistake = "late" /\ why = "rotate" THEN "late" ELSE IF Mistake = "late" THEN "conf" ELSE "up") /\ at' = 0
       /\ list' = list \cup {N}
       /\ Log(Ev(why, "ok"))
       /\ UNCHANGED <<meta, why>> /\ Same
\* the components of a new chunk cannot be made: no new chunk; the old one is kept
MakeFails == /\ pc \in {"stor", "idx"} /\ Fails /\ faults' = faults + 1
             /\ pc' = (IF why = "open" THEN "down" ELSE "up") /\ list' = (IF why = "open" THEN {} ELSE list) /\ at' = 0
             /\ Log(Ev(why, "fault"))
             /\ UNCHANGED <<meta, dirs, why, deaths>>

Cur == CHOOSE k \in list : \A j \in list : j <= k
Serving == pc = "up" \/ (why = "rotate" /\ pc \notin {"down", "stuck"} /\ GenFile = "") \/ (Mistake = "late" /\ pc = "late") \/ (Mistake = "swap first" /\ list # {} /\ pc # "down")
Write == /\ Serving
         /\ dirs' = [dirs EXCEPT ![Cur].full = TRUE]
         /\ Log([op |-> "write", end |-> "ok", at |-> 0])
         /\ UNCHANGED <<meta, pc, why, list, at>> /\ Same
Late == pc = "late" /\ pc' = "conf" /\ UNCHANGED <<meta, dirs, why, list, at, hist>> /\ Same
Die == /\ pc # "down" /\ deaths < MaxDeaths /\ Rare(8) /\ deaths' = deaths + 1
       /\ Log(IF pc = "up" THEN Ev("kill", "ok") ELSE Ev(why, "die"))
       /\ pc' = "down" /\ list' = {} /\ at' = 0
       /\ UNCHANGED <<meta, dirs, why, faults>>
Finish == /\ GenFile # "" /\ pc = "up" /\ N >= 2 /\ Len(hist) >= GenDepth
          /\ hist' = Append(hist, [op |-> "end", end |-> "ok", at |-> 0]) /\ UNCHANGED <<meta, dirs, pc, why, list, at>> /\ Same

Next == IF hist # <<>> /\ hist[Len(hist)].op = "end" THEN FALSE
        ELSE IF GenFile # "" /\ pc = "up" /\ N >= 2 /\ Len(hist) >= GenDepth THEN Finish
        ELSE Open \/ Meta \/ Rename \/ Scan \/ ScanFails \/ Rotate \/ Mkdir \/ Conf \/ ConfWrite \/ Stor \/ Idx \/ MakeFails
             \/ Late \/ Die \/ (Write /\ (GenFile = "" \/ (hist # <<>> /\ hist[Len(hist)].op # "write")))
Spec == Init /\ [][Next]_vars

Opens == pc # "stuck"
Keeps == pc = "up" => \A k \in 1..N : dirs[k].full => k \in list
Honest == pc = "up" => meta = "ok" /\ list # {}
Emit == (GenFile # "" /\ hist # <<>> /\ hist[Len(hist)].op = "end") => CSVWrite("%1$s", <<ToJson(hist)>>, GenFile)
=============================================================================
