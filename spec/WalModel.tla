------------------------------ MODULE WalModel ------------------------------
(* How a segment works: entries are kept until a limit is reached, and a flush writes them, frame by frame, to a writer   *)
(* that takes as much of a buffer as it likes; the checksum follows the bytes taken.  Checked against Wal: at rest the    *)
(* file holds whole frames of a prefix of the entries, and all of them when they were due.  The file may also refuse      *)
(* (a full disk): the call is an error, and what it did not take is written, once, by the next flush that succeeds.       *)
EXTENDS Wal, CSV, Json

CONSTANTS Lens, Takes, Limits, MaxOps, MaxRefusals, Types, GenFile, GenDepth,
    Mistake     \* 0, or one of the mistakes that the invariants have to notice

VARIABLES
    policy, limit,
    accepted,   \* all entries so far
    cache, num, \* frames kept; what is counted towards the limit
    todo,       \* bytes of the buffer the writer is being given
    queue,      \* frames the running flush has not come to yet
    closing,
    file,       \* bytes handed over
    crc,
    written,    \* number of accepted entries that were due so far
    left,       \* bytes that the file refused
    refused,    \* the last flush was refused
    refusals,
    ops, hist
vars == <<policy, limit, accepted, cache, num, todo, queue, closing, file, crc, written, left, refused, refusals, ops, hist>>

Policies == {<<"immediate", 0>>} \cup {<<"count", l>> : l \in Limits} \cup {<<"size", l>> : l \in Limits}
Seq8(n) == <<0, 0, 0, 0, 0, 0, n \div 256, n % 256>>
Log(e) == IF GenFile = "" THEN UNCHANGED hist ELSE hist' = Append(hist, e)

Init ==
    /\ \E p \in Policies : policy = p[1] /\ limit = p[2]
    /\ accepted = <<>> /\ cache = <<>> /\ num = 0 /\ todo = <<>> /\ queue = <<>> /\ closing = "no"
    /\ file = Header /\ crc = Ones(8) /\ written = 0 /\ left = <<>> /\ refused = FALSE /\ refusals = 0 /\ ops = 0 /\ hist = <<>>

Idle == todo = <<>> /\ queue = <<>> /\ closing # "now"
Counted(e) == IF policy = "size" THEN Size(e) ELSE 1

\* what was refused comes first
StartFlush(es) == queue' = es /\ cache' = <<>> /\ num' = 0 /\ todo' = left /\ left' = <<>> /\ refused' = FALSE

WriteEntry(len, t) ==
    /\ Idle /\ closing = "no" /\ ops < MaxOps
    /\ LET e == [seq |-> Seq8(Len(accepted) + 1), type |-> t, data |-> [k \in 1..len |-> (k * 37 + Len(accepted) * 5) % 256]]
           n == num + Counted(e)
       IN /\ accepted' = Append(accepted, e)
          /\ IF policy = "immediate" \/ n >= limit + (IF Mistake = 1 THEN 1 ELSE 0)
             THEN StartFlush(Append(cache, e))
             ELSE cache' = Append(cache, e) /\ num' = n /\ UNCHANGED <<queue, todo, left, refused>>
          /\ Log([op |-> "entry", len |-> len])
          \* what Wal asks for, said without the cache
          /\ written' = IF Due(policy, limit, SubSeq(accepted', written + 1, Len(accepted'))) THEN Len(accepted') ELSE written
    /\ ops' = ops + 1
    /\ UNCHANGED <<policy, limit, closing, file, crc, refusals>>

Flush ==
    /\ Idle /\ closing = "no" /\ ops < MaxOps
    /\ StartFlush(cache) /\ written' = Len(accepted)
    /\ Log([op |-> "flush", len |-> 0])
    /\ ops' = ops + 1
    /\ UNCHANGED <<policy, limit, accepted, closing, file, crc, refusals>>

Close ==
    /\ Idle /\ closing = "no"
    \* mistake 2: what is kept is forgotten
    /\ closing' = "now" /\ StartFlush(IF Mistake = 2 THEN <<>> ELSE cache) /\ written' = Len(accepted)
    /\ Log([op |-> "close", len |-> 0])
    /\ UNCHANGED <<policy, limit, accepted, file, crc, refusals, ops>>

\* the next frame is given to the writer
Give ==
    /\ todo = <<>> /\ queue # <<>>
    /\ todo' = Frame(Head(queue)) /\ queue' = Tail(queue)
    /\ UNCHANGED <<policy, limit, accepted, cache, num, closing, file, crc, written, left, refused, refusals, ops, hist>>
\* the writer takes some of it
Take(n) ==
    /\ todo # <<>> /\ n <= Len(todo)
    /\ file' = file \o SubSeq(todo, 1, n)
    \* mistake 3: all that was offered; mistake 4: what was not taken is not offered again
    /\ crc' = Feed64(crc, IF Mistake = 3 THEN todo ELSE SubSeq(todo, 1, n))
    /\ todo' = IF Mistake = 4 THEN <<>> ELSE SubSeq(todo, n + 1, Len(todo))
    /\ UNCHANGED <<policy, limit, accepted, cache, num, queue, closing, written, left, refused, refusals, ops, hist>>
\* the file takes no more: the call is an error, and the rest waits for the next flush
Refuse ==
    /\ todo # <<>> /\ refusals < MaxRefusals
    \* mistake 5: the rest is forgotten; mistake 6: only the frame that was refused is; mistake 7: that frame starts over
    /\ left' = (CASE Mistake = 5 -> <<>>
                  [] Mistake = 6 -> Frames(queue)
                  [] Mistake = 7 -> Frames(SubSeq(accepted, Len(accepted) - Len(queue), Len(accepted)))
                  [] OTHER -> todo \o Frames(queue))
    /\ todo' = <<>> /\ queue' = <<>> /\ closing' = "no" /\ refused' = TRUE /\ refusals' = refusals + 1
    /\ UNCHANGED <<policy, limit, accepted, cache, num, file, crc, written, ops, hist>>
Checksum ==
    /\ todo = <<>> /\ queue = <<>> /\ closing = "now"
    /\ file' = file \o Final(crc) /\ closing' = "closed"
    /\ UNCHANGED <<policy, limit, accepted, cache, num, todo, queue, crc, written, left, refused, refusals, ops, hist>>

Finish ==
    /\ GenFile # "" /\ closing = "closed" /\ Len(hist) < GenDepth
    /\ hist' = [k \in 1..GenDepth |-> IF k <= Len(hist) THEN hist[k] ELSE [op |-> "end", len |-> 0]]
    /\ UNCHANGED <<policy, limit, accepted, cache, num, todo, queue, closing, file, crc, written, left, refused, refusals, ops>>
Next ==
    \/ \E n \in Lens, t \in Types : WriteEntry(n, t)
    \/ Flush \/ Give \/ Refuse \/ Checksum \/ Finish
    \/ (GenFile = "" \/ ops = MaxOps) /\ Close
    \/ \E n \in Takes : Take(n)
    \/ Take(Len(todo))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
All == Header \o Frames(accepted)
AtAnyTime == IsPrefix(file, IF closing = "closed" THEN All \o CRC64(Frames(accepted)) ELSE All)
\* what is due is in the file, unless the last flush was refused; whatever comes next makes up for that
AtRest == (Idle /\ ~refused) => \E k \in written..Len(accepted) :
              file = Header \o Frames(SubSeq(accepted, 1, k))
                     \o (IF closing = "closed" THEN CRC64(Frames(SubSeq(accepted, 1, k))) ELSE <<>>)
Nothing == closing = "closed" => written = Len(accepted)
\* the checksum never runs ahead of the file, or behind it
Follows == closing # "closed" => Final(crc) = CRC64(SubSeq(file, 9, Len(file)))

Emit == (GenFile # "" /\ Len(hist) = GenDepth) =>
            CSVWrite("%1$s", <<ToJson([policy |-> policy, limit |-> limit, ops |-> hist])>>, GenFile)
=============================================================================
