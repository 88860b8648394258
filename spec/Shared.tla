------------------------------- MODULE Shared -------------------------------
(* Storages and indexers of many chunks on one key-value store.  Creating a component takes a new identifier, and notes   *)
(* it under the identifier of the chunk, next to the one of its sibling: {indexer}{storage}.  The keys of a component      *)
(* begin with its identifier.  Identifiers all have one length, those of chunks too.                                    *)
(* Checked against Parts: each component reads what was written through it and nothing else (Mine), and attaching by       *)
(* the identifier of the chunk gives the component that was made for it (Found), whatever was created or crashed when.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, CSV, Json

CONSTANTS Chunks, Suffixes, MaxIdents, MaxWrites, GenFile, GenDepth,
    Mistake     \* 0, or one of the mistakes that the invariants have to notice

VARIABLES
    kv,      \* the store: key (a sequence) -> value
    fresh,   \* identifiers used so far
    busy,    \* creation that has read but not yet written: <<>> or <<chunk, role, what was read>>
    ident,   \* <<chunk, role>> -> identifier of the component made
    wrote,   \* <<chunk, role>> -> (suffix -> value), what was written through it
    nw, hist
vars == <<kv, fresh, busy, ident, wrote, nw, hist>>

Roles == {"storage", "index"}
Nil == 0
Has(k) == k \in DOMAIN kv
Log(e) == IF GenFile = "" THEN UNCHANGED hist ELSE hist' = Append(hist, e)
\* chunk identifiers come from the same pool as those of components
ChunkId(c) == 100 + c
Made == DOMAIN ident

Init == kv = <<>> /\ fresh = 0 /\ busy = <<>> /\ ident = <<>> /\ wrote = <<>> /\ nw = 0 /\ hist = <<>>

\* creation reads the entry of the chunk ...
Begin(c, r) ==
    /\ busy = <<>> /\ <<c, r>> \notin Made /\ fresh < MaxIdents
    \* mistake 1: the sibling is forgotten
    /\ busy' = <<c, r, IF Has(<<ChunkId(c)>>) /\ Mistake # 1 THEN kv[<<ChunkId(c)>>] ELSE <<Nil, Nil>>>>
    /\ Log([op |-> "begin", c |-> c, r |-> r, x |-> 0, v |-> 0])
    /\ UNCHANGED <<kv, fresh, ident, wrote, nw>>
\* ... and writes it with its half replaced
Commit ==
    /\ busy # <<>>
    \* mistake 2: identifiers that another component has
    /\ fresh' = IF Mistake = 2 /\ fresh > 0 /\ busy[2] = "index" THEN fresh ELSE fresh + 1
    /\ LET c == busy[1]  r == busy[2]  old == busy[3]
       IN /\ kv' = (<<ChunkId(c)>> :> (IF r = "index" THEN <<fresh', old[2]>> ELSE <<old[1], fresh'>>)) @@ kv
          /\ ident' = (<<c, r>> :> fresh') @@ ident
          /\ wrote' = (<<c, r>> :> <<>>) @@ wrote
          /\ Log([op |-> "new", c |-> c, r |-> r, x |-> 0, v |-> 0])
    /\ busy' = <<>> /\ UNCHANGED nw
\* the process dies in between, before or after the write
Die ==
    /\ busy # <<>> /\ busy' = <<>>
    /\ \/ UNCHANGED <<kv, fresh>>
       \/ /\ fresh' = fresh + 1
          /\ kv' = (<<ChunkId(busy[1])>> :> (IF busy[2] = "index" THEN <<fresh', busy[3][2]>> ELSE <<busy[3][1], fresh'>>)) @@ kv
    /\ GenFile = "" /\ UNCHANGED <<ident, wrote, nw, hist>>
Write(c, r, x) ==
    /\ busy = <<>> /\ <<c, r>> \in Made /\ nw < MaxWrites
    /\ nw' = nw + 1
    \* mistake 3: keys begin with the identifier of the chunk
    /\ kv' = (<<IF Mistake = 3 THEN ChunkId(c) ELSE ident[<<c, r>>], x>> :> nw') @@ kv
    /\ wrote' = [wrote EXCEPT ![<<c, r>>] = (x :> nw') @@ @]
    /\ Log([op |-> "write", c |-> c, r |-> r, x |-> x, v |-> nw'])
    /\ UNCHANGED <<fresh, busy, ident>>
Attach(c, r) ==
    /\ GenFile # "" /\ busy = <<>> /\ <<c, r>> \in Made
    /\ Log([op |-> "attach", c |-> c, r |-> r, x |-> 0, v |-> 0])
    /\ UNCHANGED <<kv, fresh, busy, ident, wrote, nw>>
Finish ==
    /\ GenFile # "" /\ Len(hist) = GenDepth - 1
    /\ hist' = Append(hist, [op |-> "end", c |-> 0, r |-> "", x |-> 0, v |-> 0])
    /\ UNCHANGED <<kv, fresh, busy, ident, wrote, nw>>

Step == \/ \E c \in Chunks, r \in Roles : Begin(c, r) \/ Attach(c, r) \/ \E x \in Suffixes : Write(c, r, x)
        \/ Commit \/ Die
Next == IF GenFile # "" /\ Len(hist) >= GenDepth - 1 THEN Finish ELSE Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* mistake 4: attaching takes the other half
Slot(r) == IF (r = "index") = (Mistake # 4) THEN 1 ELSE 2
Attached(c, r) == kv[<<ChunkId(c)>>][Slot(r)]
Reads(id, x) == IF Has(<<id, x>>) THEN kv[<<id, x>>] ELSE 0
Wrote(o, x) == IF x \in DOMAIN wrote[o] THEN wrote[o][x] ELSE 0
Mine == \A o \in Made : \A x \in Suffixes : Reads(ident[o], x) = Wrote(o, x)
Found == \A o \in Made : Attached(o[1], o[2]) = ident[o]
Distinct == \A o, p \in Made : o # p => ident[o] # ident[p]
Emit == (GenFile # "" /\ Len(hist) = GenDepth) => CSVWrite("%1$s", <<ToJson(hist)>>, GenFile)
=============================================================================
